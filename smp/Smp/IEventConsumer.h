// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IEVENTCONSUMER_H_
#define STANDIN_SMP_IEVENTCONSUMER_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/IEventSink.h>
namespace Smp { 
class IEventConsumer : public virtual Smp::IObject {
public:
  virtual ~IEventConsumer() noexcept = default;
  virtual const ::Smp::EventSinkCollection *GetEventSinks() const = 0;
  virtual ::Smp::IEventSink *GetEventSink(::Smp::String8 name) const = 0;
};
}
#endif
