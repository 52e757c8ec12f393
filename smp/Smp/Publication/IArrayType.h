// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_PUBLICATION_IARRAYTYPE_H_
#define STANDIN_SMP_PUBLICATION_IARRAYTYPE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/Publication/IType.h>
namespace Smp { namespace Publication { 
class IArrayType : public virtual Smp::Publication::IType {
public:
  virtual ~IArrayType() noexcept = default;
  virtual ::Smp::UInt64 GetSize() const = 0;
  virtual const ::Smp::Publication::IType *GetItemType() const = 0;
};
}}
#endif
