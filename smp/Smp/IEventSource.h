// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IEVENTSOURCE_H_
#define STANDIN_SMP_IEVENTSOURCE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/IEventSink.h>
#include <Smp/ICollection.h>
namespace Smp { class IEventSource; using EventSourceCollection = ::Smp::ICollection<::Smp::IEventSource>; }
namespace Smp { 
class IEventSource : public virtual Smp::IObject {
public:
  virtual ~IEventSource() noexcept = default;
  virtual void Subscribe(::Smp::IEventSink *eventSink) = 0;
  virtual void Unsubscribe(::Smp::IEventSink *eventSink) = 0;
};
}
#endif
