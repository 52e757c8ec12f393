// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDOBJECTNAME_H_
#define STANDIN_SMP_INVALIDOBJECTNAME_H_
#include <Smp/Exception.h>
namespace Smp { 
class InvalidObjectName : public virtual ::Smp::Exception {
public:
  virtual ~InvalidObjectName() noexcept = default;
  virtual ::Smp::String8 GetInvalidName() const noexcept = 0;
};
}
#endif
