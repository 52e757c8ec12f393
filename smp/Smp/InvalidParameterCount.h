// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDPARAMETERCOUNT_H_
#define STANDIN_SMP_INVALIDPARAMETERCOUNT_H_
#include <Smp/Exception.h>
namespace Smp { 
class InvalidParameterCount : public virtual ::Smp::Exception {
public:
  virtual ~InvalidParameterCount() noexcept = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::Int32 GetOperationParameters() const noexcept = 0;
  virtual ::Smp::Int32 GetRequestParameters() const noexcept = 0;
};
}
#endif
