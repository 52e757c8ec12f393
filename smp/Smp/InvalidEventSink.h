// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDEVENTSINK_H_
#define STANDIN_SMP_INVALIDEVENTSINK_H_
#include <Smp/Exception.h>
#include <Smp/IEventSink.h>
#include <Smp/IEventSource.h>
namespace Smp { 
class InvalidEventSink : public virtual ::Smp::Exception {
public:
  virtual ~InvalidEventSink() noexcept = default;
  virtual const ::Smp::IEventSource * GetEventSource() const noexcept = 0;
  virtual const ::Smp::IEventSink * GetEventSink() const noexcept = 0;
};
}
#endif
