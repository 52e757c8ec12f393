// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IREQUEST_H_
#define STANDIN_SMP_IREQUEST_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/AnySimple.h>
namespace Smp { 
class IRequest {
public:
  virtual ~IRequest() noexcept = default;
  virtual ::Smp::String8 GetOperationName() const = 0;
  virtual ::Smp::Int32 GetParameterCount() const = 0;
  virtual ::Smp::Int32 GetParameterIndex(::Smp::String8 parameterName) const = 0;
  virtual void SetParameterValue(::Smp::Int32 index, ::Smp::AnySimple value) = 0;
  virtual ::Smp::AnySimple GetParameterValue(::Smp::Int32 index) const = 0;
  virtual void SetReturnValue(::Smp::AnySimple value) = 0;
  virtual ::Smp::AnySimple GetReturnValue() const = 0;
};
}
#endif
