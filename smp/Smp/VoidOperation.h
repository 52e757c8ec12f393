// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_VOIDOPERATION_H_
#define STANDIN_SMP_VOIDOPERATION_H_
#include <Smp/Exception.h>
namespace Smp { 
class VoidOperation : public virtual ::Smp::Exception {
public:
  virtual ~VoidOperation() noexcept = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
};
}
#endif
