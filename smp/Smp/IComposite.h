// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_ICOMPOSITE_H_
#define STANDIN_SMP_ICOMPOSITE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/IContainer.h>
namespace Smp { 
class IComposite : public virtual Smp::IObject {
public:
  virtual ~IComposite() noexcept = default;
  virtual const ::Smp::ContainerCollection *GetContainers() const = 0;
  virtual ::Smp::IContainer *GetContainer(::Smp::String8 name) const = 0;
};
}
#endif
