// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_SERVICES_IRESOLVER_H_
#define STANDIN_SMP_SERVICES_IRESOLVER_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IService.h>
namespace Smp { namespace Services { 
class IResolver : public virtual Smp::IService {
public:
  virtual ~IResolver() noexcept = default;
  static constexpr ::Smp::String8 SMP_Resolver = "Resolver";
  virtual ::Smp::IObject *ResolveAbsolute(::Smp::String8 absolutePath) = 0;
  virtual ::Smp::IObject *ResolveRelative(::Smp::String8 relativePath, const ::Smp::IComponent *sender) = 0;
};
}}
#endif
