// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_ISERVICE_H_
#define STANDIN_SMP_ISERVICE_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IComponent.h>
namespace Smp { 
class IService : public virtual Smp::IComponent {
public:
  virtual ~IService() noexcept = default;
};
}
#endif
