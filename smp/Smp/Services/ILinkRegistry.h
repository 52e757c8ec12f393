// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SERVICES_ILINKREGISTRY_H_
#define STANDIN_SMP_SERVICES_ILINKREGISTRY_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IService.h>
namespace Smp { namespace Services { 
class ILinkRegistry : public virtual Smp::IService {
public:
  virtual ~ILinkRegistry() noexcept = default;
  static constexpr ::Smp::String8 SMP_LinkRegistry = "LinkRegistry";
  virtual void AddLink(::Smp::IComponent *source, const ::Smp::IComponent *target) = 0;
  virtual ::Smp::UInt32 GetLinkCount(const ::Smp::IComponent *source, const ::Smp::IComponent *target) const = 0;
  virtual ::Smp::Bool RemoveLink(::Smp::IComponent *source, const ::Smp::IComponent *target) = 0;
  virtual const ::Smp::ComponentCollection *GetLinkSources(const ::Smp::IComponent *target) const = 0;
  virtual ::Smp::Bool CanRemove(const ::Smp::IComponent *target) = 0;
  virtual void RemoveLinks(const ::Smp::IComponent *target) = 0;
};
}}
#endif
