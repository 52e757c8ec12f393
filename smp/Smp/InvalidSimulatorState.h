// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDSIMULATORSTATE_H_
#define STANDIN_SMP_INVALIDSIMULATORSTATE_H_
#include <Smp/Exception.h>
#include <Smp/SimulatorStateKind.h>
namespace Smp { 
class InvalidSimulatorState : public virtual ::Smp::Exception {
public:
  virtual ~InvalidSimulatorState() noexcept = default;
  virtual ::Smp::SimulatorStateKind GetInvalidState() const noexcept = 0;
};
}
#endif
