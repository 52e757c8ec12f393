// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IARRAYFIELD_H_
#define STANDIN_SMP_IARRAYFIELD_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IField.h>
namespace Smp { 
class IArrayField : public virtual Smp::IField {
public:
  virtual ~IArrayField() noexcept = default;
  virtual ::Smp::UInt64 GetSize() const = 0;
  virtual ::Smp::IField *GetItem(::Smp::UInt64 index) const = 0;
};
}
#endif
