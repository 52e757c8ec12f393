// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IPARAMETER_H_
#define STANDIN_SMP_IPARAMETER_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/Publication/IType.h>
#include <Smp/Publication/ParameterDirectionKind.h>
#include <Smp/ICollection.h>
namespace Smp { class IParameter; using ParameterCollection = ::Smp::ICollection<::Smp::IParameter>; }
namespace Smp { 
class IParameter : public virtual Smp::IObject {
public:
  virtual ~IParameter() noexcept = default;
  virtual ::Smp::Publication::IType *GetType() const = 0;
  virtual ::Smp::Publication::ParameterDirectionKind GetDirection() const = 0;
};
}
#endif
