// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_CANNOTDELETE_H_
#define STANDIN_SMP_CANNOTDELETE_H_
#include <Smp/Exception.h>
#include <Smp/IComponent.h>
namespace Smp { 
class CannotDelete : public virtual ::Smp::Exception {
public:
  virtual ~CannotDelete() noexcept = default;
  virtual ::Smp::String8 GetContainerName() const noexcept = 0;
  virtual ::Smp::IComponent * GetComponent() const noexcept = 0;
  virtual ::Smp::Int64 GetLowerLimit() const noexcept = 0;
};
}
#endif
