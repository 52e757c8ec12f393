// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IDYNAMICINVOCATION_H_
#define STANDIN_SMP_IDYNAMICINVOCATION_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IComponent.h>
#include <Smp/IOperation.h>
#include <Smp/IProperty.h>
namespace Smp { 
class IDynamicInvocation : public virtual Smp::IComponent {
public:
  virtual ~IDynamicInvocation() noexcept = default;
  virtual ::Smp::IRequest *CreateRequest(::Smp::String8 operationName) = 0;
  virtual void Invoke(::Smp::IRequest *request) = 0;
  virtual void DeleteRequest(::Smp::IRequest *request) = 0;
  virtual const ::Smp::PropertyCollection *GetProperties() const = 0;
  virtual const ::Smp::OperationCollection *GetOperations() const = 0;
};
}
#endif
