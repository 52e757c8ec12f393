// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_NOTREFERENCED_H_
#define STANDIN_SMP_NOTREFERENCED_H_
#include <Smp/Exception.h>
#include <Smp/IComponent.h>
namespace Smp { 
class NotReferenced : public virtual ::Smp::Exception {
public:
  virtual ~NotReferenced() noexcept = default;
  virtual ::Smp::String8 GetReferenceName() const noexcept = 0;
  virtual ::Smp::IComponent * GetComponent() const noexcept = 0;
};
}
#endif
