// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDPARAMETERVALUE_H_
#define STANDIN_SMP_INVALIDPARAMETERVALUE_H_
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
namespace Smp { 
class InvalidParameterValue : public virtual ::Smp::Exception {
public:
  virtual ~InvalidParameterValue() noexcept = default;
  virtual ::Smp::String8 GetParameterName() const noexcept = 0;
  virtual ::Smp::AnySimple GetValue() const noexcept = 0;
};
}
#endif
