// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IFALLIBLEMODEL_H_
#define STANDIN_SMP_IFALLIBLEMODEL_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IModel.h>
#include <Smp/IFailure.h>
namespace Smp { 
class IFallibleModel : public virtual Smp::IModel {
public:
  virtual ~IFallibleModel() noexcept = default;
  virtual ::Smp::Bool IsFailed() const = 0;
  virtual const ::Smp::FailureCollection *GetFailures() const = 0;
  virtual ::Smp::IFailure *GetFailure(::Smp::String8 name) const = 0;
};
}
#endif
