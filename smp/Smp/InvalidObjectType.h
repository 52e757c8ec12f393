// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDOBJECTTYPE_H_
#define STANDIN_SMP_INVALIDOBJECTTYPE_H_
#include <Smp/Exception.h>
#include <Smp/IObject.h>
namespace Smp { 
class InvalidObjectType : public virtual ::Smp::Exception {
public:
  virtual ~InvalidObjectType() noexcept = default;
  virtual ::Smp::IObject * GetInvalidObject() const noexcept = 0;
};
}
#endif
