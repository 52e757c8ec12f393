// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDFIELDVALUE_H_
#define STANDIN_SMP_INVALIDFIELDVALUE_H_
#include <Smp/Exception.h>
#include <Smp/AnySimple.h>
namespace Smp { 
class InvalidFieldValue : public virtual ::Smp::Exception {
public:
  virtual ~InvalidFieldValue() noexcept = default;
  virtual ::Smp::AnySimple GetInvalidFieldValue() const noexcept = 0;
};
}
#endif
