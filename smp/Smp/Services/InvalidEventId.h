// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SERVICES_INVALIDEVENTID_H_
#define STANDIN_SMP_SERVICES_INVALIDEVENTID_H_
#include <Smp/Exception.h>
#include <Smp/Services/EventId.h>
namespace Smp { namespace Services { 
class InvalidEventId : public virtual ::Smp::Exception {
public:
  virtual ~InvalidEventId() noexcept = default;
  virtual ::Smp::Services::EventId GetInvalidEventId() const noexcept = 0;
};
}}
#endif
