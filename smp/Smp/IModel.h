// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IMODEL_H_
#define STANDIN_SMP_IMODEL_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IComponent.h>
namespace Smp { 
class IModel : public virtual Smp::IComponent {
public:
  virtual ~IModel() noexcept = default;
};
}
#endif
