// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDARRAYVALUE_H_
#define STANDIN_SMP_INVALIDARRAYVALUE_H_
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
namespace Smp { 
class InvalidArrayValue : public virtual ::Smp::Exception {
public:
  virtual ~InvalidArrayValue() noexcept = default;
  virtual ::Smp::Int64 GetInvalidValueIndex() const noexcept = 0;
  virtual ::Smp::AnySimple GetInvalidValue() const noexcept = 0;
};
}
#endif
