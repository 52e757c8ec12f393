// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IENTRYPOINTPUBLISHER_H_
#define STANDIN_SMP_IENTRYPOINTPUBLISHER_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/IEntryPoint.h>
namespace Smp { 
class IEntryPointPublisher : public virtual Smp::IObject {
public:
  virtual ~IEntryPointPublisher() noexcept = default;
  virtual const ::Smp::EntryPointCollection *GetEntryPoints() const = 0;
  virtual ::Smp::IEntryPoint *GetEntryPoint(::Smp::String8 name) const = 0;
};
}
#endif
