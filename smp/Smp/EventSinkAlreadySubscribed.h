// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_EVENTSINKALREADYSUBSCRIBED_H_
#define STANDIN_SMP_EVENTSINKALREADYSUBSCRIBED_H_
#include <Smp/Exception.h>
#include <Smp/IEventSink.h>
#include <Smp/IEventSource.h>
namespace Smp { 
class EventSinkAlreadySubscribed : public virtual ::Smp::Exception {
public:
  virtual ~EventSinkAlreadySubscribed() noexcept = default;
  virtual const ::Smp::IEventSource * GetEventSource() const noexcept = 0;
  virtual const ::Smp::IEventSink * GetEventSink() const noexcept = 0;
};
}
#endif
