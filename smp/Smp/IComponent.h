// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_ICOMPONENT_H_
#define STANDIN_SMP_ICOMPONENT_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/ComponentStateKind.h>
#include <Smp/IField.h>
#include <Smp/IPublication.h>
#include <Smp/Uuid.h>
#include <Smp/ICollection.h>
namespace Smp { class ISimulator; namespace Services { class ILogger; class ILinkRegistry; } }
namespace Smp { class IComponent; using ComponentCollection = ::Smp::ICollection<::Smp::IComponent>; }
namespace Smp { 
class IComponent : public virtual Smp::IObject {
public:
  virtual ~IComponent() noexcept = default;
  virtual ::Smp::ComponentStateKind GetState() const = 0;
  virtual void Publish(::Smp::IPublication *receiver) = 0;
  virtual void Configure(::Smp::Services::ILogger *logger, ::Smp::Services::ILinkRegistry *linkRegistry = nullptr) = 0;
  virtual void Connect(::Smp::ISimulator *simulator) = 0;
  virtual void Disconnect() = 0;
  virtual ::Smp::IField *GetField(::Smp::String8 fullName) const = 0;
  virtual const ::Smp::FieldCollection *GetFields() const = 0;
  virtual const ::Smp::Uuid &GetUuid() const = 0;
};
}
#endif
