// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_PUBLICATION_IENUMERATIONTYPE_H_
#define STANDIN_SMP_PUBLICATION_IENUMERATIONTYPE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/IType.h>
namespace Smp { namespace Publication { 
class IEnumerationType : public virtual Smp::Publication::IType {
public:
  virtual ~IEnumerationType() noexcept = default;
  virtual void AddLiteral(::Smp::String8 name, ::Smp::String8 description, ::Smp::Int32 value) = 0;
};
}}
#endif
