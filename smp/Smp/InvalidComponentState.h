// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDCOMPONENTSTATE_H_
#define STANDIN_SMP_INVALIDCOMPONENTSTATE_H_
#include <Smp/Exception.h>
#include <Smp/ComponentStateKind.h>
namespace Smp { 
class InvalidComponentState : public virtual ::Smp::Exception {
public:
  virtual ~InvalidComponentState() noexcept = default;
  virtual ::Smp::ComponentStateKind GetInvalidState() const noexcept = 0;
  virtual ::Smp::ComponentStateKind GetExpectedState() const noexcept = 0;
};
}
#endif
