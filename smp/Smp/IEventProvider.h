// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IEVENTPROVIDER_H_
#define STANDIN_SMP_IEVENTPROVIDER_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/IComponent.h>
#include <Smp/IEventSource.h>
namespace Smp { 
class IEventProvider : public virtual Smp::IObject {
public:
  virtual ~IEventProvider() noexcept = default;
  virtual const ::Smp::EventSourceCollection *GetEventSources() const = 0;
  virtual ::Smp::IEventSource *GetEventSource(::Smp::String8 name) const = 0;
};
}
#endif
