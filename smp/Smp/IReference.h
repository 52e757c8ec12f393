// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IREFERENCE_H_
#define STANDIN_SMP_IREFERENCE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/IComponent.h>
#include <Smp/ICollection.h>
namespace Smp { class IReference; using ReferenceCollection = ::Smp::ICollection<::Smp::IReference>; }
namespace Smp { 
class IReference : public virtual Smp::IObject {
public:
  virtual ~IReference() noexcept = default;
  virtual const ::Smp::ComponentCollection *GetComponents() const = 0;
  virtual ::Smp::IComponent *GetComponent(::Smp::String8 name) const = 0;
  virtual void AddComponent(::Smp::IComponent *component) = 0;
  virtual void RemoveComponent(::Smp::IComponent *component) = 0;
  virtual ::Smp::Int64 GetCount() const = 0;
  virtual ::Smp::Int64 GetUpper() const = 0;
  virtual ::Smp::Int64 GetLower() const = 0;
};
}
#endif
