// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_ILINKINGCOMPONENT_H_
#define STANDIN_SMP_ILINKINGCOMPONENT_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IComponent.h>
namespace Smp { 
class ILinkingComponent : public virtual Smp::IComponent {
public:
  virtual ~ILinkingComponent() noexcept = default;
  virtual void RemoveLinks(const ::Smp::IComponent *target) = 0;
};
}
#endif
