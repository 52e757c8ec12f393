// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IENTRYPOINT_H_
#define STANDIN_SMP_IENTRYPOINT_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/ICollection.h>
namespace Smp { class IEntryPoint; using EntryPointCollection = ::Smp::ICollection<::Smp::IEntryPoint>; }
namespace Smp { 
class IEntryPoint : public virtual Smp::IObject {
public:
  virtual ~IEntryPoint() noexcept = default;
  virtual void Execute() const = 0;
};
}
#endif
