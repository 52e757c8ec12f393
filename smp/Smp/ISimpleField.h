// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_ISIMPLEFIELD_H_
#define STANDIN_SMP_ISIMPLEFIELD_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IField.h>
#include <Smp/AnySimple.h>
namespace Smp { 
class ISimpleField : public virtual Smp::IField {
public:
  virtual ~ISimpleField() noexcept = default;
  virtual ::Smp::PrimitiveTypeKind GetPrimitiveTypeKind() const = 0;
  virtual ::Smp::AnySimple GetValue() const = 0;
  virtual void SetValue(::Smp::AnySimple value) = 0;
};
}
#endif
