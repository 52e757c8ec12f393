// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IOPERATION_H_
#define STANDIN_SMP_IOPERATION_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/IParameter.h>
#include <Smp/IRequest.h>
#include <Smp/ViewKind.h>
#include <Smp/ICollection.h>
namespace Smp { class IOperation; using OperationCollection = ::Smp::ICollection<::Smp::IOperation>; }
namespace Smp { 
class IOperation : public virtual Smp::IObject {
public:
  virtual ~IOperation() noexcept = default;
  virtual const ::Smp::ParameterCollection *GetParameters() const = 0;
  virtual ::Smp::IParameter *GetParameter(::Smp::String8 name) const = 0;
  virtual ::Smp::IParameter *GetReturnParameter() const = 0;
  virtual ::Smp::ViewKind GetView() const = 0;
  virtual ::Smp::IRequest *CreateRequest() = 0;
  virtual void Invoke(::Smp::IRequest *request) = 0;
  virtual void DeleteRequest(::Smp::IRequest *request) = 0;
};
}
#endif
