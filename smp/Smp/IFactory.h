// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IFACTORY_H_
#define STANDIN_SMP_IFACTORY_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/Uuid.h>
#include <Smp/IComponent.h>
#include <Smp/IComposite.h>
#include <Smp/ICollection.h>
namespace Smp { class IFactory; using FactoryCollection = ::Smp::ICollection<::Smp::IFactory>; }
namespace Smp { 
class IFactory : public virtual Smp::IObject {
public:
  virtual ~IFactory() noexcept = default;
  virtual ::Smp::Uuid GetUuid() const = 0;
  virtual ::Smp::String8 GetTypeName() const = 0;
  virtual ::Smp::IComponent *CreateInstance(::Smp::String8 name, ::Smp::String8 description, ::Smp::IComposite *parent) = 0;
  virtual void DeleteInstance(::Smp::IComponent *instance) = 0;
};
}
#endif
