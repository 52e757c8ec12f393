// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_EVENTSINKNOTSUBSCRIBED_H_
#define STANDIN_SMP_EVENTSINKNOTSUBSCRIBED_H_
#include <Smp/Exception.h>
#include <Smp/IEventSink.h>
#include <Smp/IEventSource.h>
namespace Smp { 
class EventSinkNotSubscribed : public virtual ::Smp::Exception {
public:
  virtual ~EventSinkNotSubscribed() noexcept = default;
  virtual const ::Smp::IEventSource * GetEventSource() const noexcept = 0;
  virtual const ::Smp::IEventSink * GetEventSink() const noexcept = 0;
};
}
#endif
