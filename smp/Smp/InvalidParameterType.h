// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDPARAMETERTYPE_H_
#define STANDIN_SMP_INVALIDPARAMETERTYPE_H_
#include <Smp/Exception.h>
namespace Smp { 
class InvalidParameterType : public virtual ::Smp::Exception {
public:
  virtual ~InvalidParameterType() noexcept = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::String8 GetParameterName() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetInvalidType() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetExpectedType() const noexcept = 0;
};
}
#endif
