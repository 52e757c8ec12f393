// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SERVICES_INVALIDEVENTNAME_H_
#define STANDIN_SMP_SERVICES_INVALIDEVENTNAME_H_
#include <Smp/Exception.h>
namespace Smp { namespace Services { 
class InvalidEventName : public virtual ::Smp::Exception {
public:
  virtual ~InvalidEventName() noexcept = default;
};
}}
#endif
