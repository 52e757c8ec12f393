// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IFORCIBLEFIELD_H_
#define STANDIN_SMP_IFORCIBLEFIELD_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/ISimpleField.h>
namespace Smp { 
class IForcibleField : public virtual Smp::ISimpleField {
public:
  virtual ~IForcibleField() noexcept = default;
  virtual void Force(::Smp::AnySimple value) = 0;
  virtual void Unforce() = 0;
  virtual ::Smp::Bool IsForced() = 0;
  virtual void Freeze() = 0;
};
}
#endif
