// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_PUBLICATION_ISTRUCTURETYPE_H_
#define STANDIN_SMP_PUBLICATION_ISTRUCTURETYPE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/IType.h>
namespace Smp { namespace Publication { 
class IStructureType : public virtual Smp::Publication::IType {
public:
  virtual ~IStructureType() noexcept = default;
  virtual void AddField(::Smp::String8 name, ::Smp::String8 description, ::Smp::Uuid uuid, ::Smp::Int64 offset, ::Smp::ViewKind view = ::Smp::ViewKind::VK_All, ::Smp::Bool state = true, ::Smp::Bool input = false, ::Smp::Bool output = false) = 0;
};
}}
#endif
