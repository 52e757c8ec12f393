// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_CONTAINERFULL_H_
#define STANDIN_SMP_CONTAINERFULL_H_
#include <Smp/Exception.h>
namespace Smp { 
class ContainerFull : public virtual ::Smp::Exception {
public:
  virtual ~ContainerFull() noexcept = default;
  virtual ::Smp::String8 GetContainerName() const noexcept = 0;
  virtual ::Smp::Int64 GetContainerSize() const noexcept = 0;
};
}
#endif
