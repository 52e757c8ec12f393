// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_ISTRUCTUREFIELD_H_
#define STANDIN_SMP_ISTRUCTUREFIELD_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IField.h>
namespace Smp { 
class IStructureField : public virtual Smp::IField {
public:
  virtual ~IStructureField() noexcept = default;
  virtual const ::Smp::FieldCollection *GetFields() const = 0;
  virtual ::Smp::IField *GetField(::Smp::String8 name) const = 0;
};
}
#endif
