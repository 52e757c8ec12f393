// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_ISIMPLEARRAYFIELD_H_
#define STANDIN_SMP_ISIMPLEARRAYFIELD_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IField.h>
#include <Smp/AnySimpleArray.h>
namespace Smp { 
class ISimpleArrayField : public virtual Smp::IField {
public:
  virtual ~ISimpleArrayField() noexcept = default;
  virtual ::Smp::UInt64 GetSize() const = 0;
  virtual ::Smp::AnySimple GetValue(::Smp::UInt64 index) const = 0;
  virtual void SetValue(::Smp::UInt64 index, ::Smp::AnySimple value) = 0;
  virtual void GetValues(::Smp::UInt64 length, ::Smp::AnySimpleArray values) const = 0;
  virtual void SetValues(::Smp::UInt64 length, ::Smp::AnySimpleArray values) = 0;
};
}
#endif
