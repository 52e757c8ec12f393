// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IFAILURE_H_
#define STANDIN_SMP_IFAILURE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IPersist.h>
#include <Smp/ICollection.h>
namespace Smp { class IFailure; using FailureCollection = ::Smp::ICollection<::Smp::IFailure>; }
namespace Smp { 
class IFailure : public virtual Smp::IPersist {
public:
  virtual ~IFailure() noexcept = default;
  virtual void Fail() = 0;
  virtual void Unfail() = 0;
  virtual ::Smp::Bool IsFailed() const = 0;
};
}
#endif
