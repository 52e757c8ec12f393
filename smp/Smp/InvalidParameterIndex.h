// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDPARAMETERINDEX_H_
#define STANDIN_SMP_INVALIDPARAMETERINDEX_H_
#include <Smp/Exception.h>
namespace Smp { 
class InvalidParameterIndex : public virtual ::Smp::Exception {
public:
  virtual ~InvalidParameterIndex() noexcept = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::Int32 GetParameterIndex() const noexcept = 0;
  virtual ::Smp::Int32 GetParameterCount() const noexcept = 0;
};
}
#endif
