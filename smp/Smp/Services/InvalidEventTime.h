// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SERVICES_INVALIDEVENTTIME_H_
#define STANDIN_SMP_SERVICES_INVALIDEVENTTIME_H_
#include <Smp/Exception.h>
namespace Smp { namespace Services { 
class InvalidEventTime : public virtual ::Smp::Exception {
public:
  virtual ~InvalidEventTime() noexcept = default;
};
}}
#endif
