// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SERVICES_INVALIDCYCLETIME_H_
#define STANDIN_SMP_SERVICES_INVALIDCYCLETIME_H_
#include <Smp/Exception.h>
namespace Smp { namespace Services { 
class InvalidCycleTime : public virtual ::Smp::Exception {
public:
  virtual ~InvalidCycleTime() noexcept = default;
};
}}
#endif
