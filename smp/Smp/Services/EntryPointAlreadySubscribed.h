// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SERVICES_ENTRYPOINTALREADYSUBSCRIBED_H_
#define STANDIN_SMP_SERVICES_ENTRYPOINTALREADYSUBSCRIBED_H_
#include <Smp/Exception.h>
#include <Smp/IEntryPoint.h>
namespace Smp { namespace Services { 
class EntryPointAlreadySubscribed : public virtual ::Smp::Exception {
public:
  virtual ~EntryPointAlreadySubscribed() noexcept = default;
  virtual const ::Smp::IEntryPoint * GetEntryPoint() const noexcept = 0;
  virtual ::Smp::String8 GetEventName() const noexcept = 0;
};
}}
#endif
