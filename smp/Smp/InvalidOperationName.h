// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDOPERATIONNAME_H_
#define STANDIN_SMP_INVALIDOPERATIONNAME_H_
#include <Smp/Exception.h>
namespace Smp { 
class InvalidOperationName : public virtual ::Smp::Exception {
public:
  virtual ~InvalidOperationName() noexcept = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
};
}
#endif
