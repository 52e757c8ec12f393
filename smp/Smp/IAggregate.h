// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IAGGREGATE_H_
#define STANDIN_SMP_IAGGREGATE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IComponent.h>
#include <Smp/IReference.h>
namespace Smp { 
class IAggregate : public virtual Smp::IComponent {
public:
  virtual ~IAggregate() noexcept = default;
  virtual const ::Smp::ReferenceCollection *GetReferences() const = 0;
  virtual ::Smp::IReference *GetReference(::Smp::String8 name) const = 0;
};
}
#endif
