// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDRETURNVALUE_H_
#define STANDIN_SMP_INVALIDRETURNVALUE_H_
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
namespace Smp { 
class InvalidReturnValue : public virtual ::Smp::Exception {
public:
  virtual ~InvalidReturnValue() noexcept = default;
  virtual ::Smp::String8 GetOperationName() const noexcept = 0;
  virtual ::Smp::AnySimple GetValue() const noexcept = 0;
};
}
#endif
