// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDARRAYSIZE_H_
#define STANDIN_SMP_INVALIDARRAYSIZE_H_
#include <Smp/Exception.h>
namespace Smp { 
class InvalidArraySize : public virtual ::Smp::Exception {
public:
  virtual ~InvalidArraySize() noexcept = default;
  virtual ::Smp::Int64 GetArraySize() const noexcept = 0;
  virtual ::Smp::Int64 GetInvalidSize() const noexcept = 0;
};
}
#endif
