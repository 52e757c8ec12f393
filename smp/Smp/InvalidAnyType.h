// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDANYTYPE_H_
#define STANDIN_SMP_INVALIDANYTYPE_H_
#include <Smp/Exception.h>
namespace Smp { 
class InvalidAnyType : public virtual ::Smp::Exception {
public:
  virtual ~InvalidAnyType() noexcept = default;
  virtual ::Smp::PrimitiveTypeKind GetInvalidType() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetExpectedType() const noexcept = 0;
};
}
#endif
