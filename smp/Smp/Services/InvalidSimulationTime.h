// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SERVICES_INVALIDSIMULATIONTIME_H_
#define STANDIN_SMP_SERVICES_INVALIDSIMULATIONTIME_H_
#include <Smp/Exception.h>
namespace Smp { namespace Services { 
class InvalidSimulationTime : public virtual ::Smp::Exception {
public:
  virtual ~InvalidSimulationTime() noexcept = default;
  virtual ::Smp::Duration GetCurrentTime() const noexcept = 0;
  virtual ::Smp::Duration GetProvidedTime() const noexcept = 0;
  virtual ::Smp::Duration GetMaximumTime() const noexcept = 0;
};
}}
#endif
