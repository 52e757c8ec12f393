// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_CANNOTREMOVE_H_
#define STANDIN_SMP_CANNOTREMOVE_H_
#include <Smp/Exception.h>
#include <Smp/IComponent.h>
namespace Smp { 
class CannotRemove : public virtual ::Smp::Exception {
public:
  virtual ~CannotRemove() noexcept = default;
  virtual ::Smp::String8 GetReferenceName() const noexcept = 0;
  virtual ::Smp::IComponent * GetComponent() const noexcept = 0;
  virtual ::Smp::Int64 GetLowerLimit() const noexcept = 0;
};
}
#endif
