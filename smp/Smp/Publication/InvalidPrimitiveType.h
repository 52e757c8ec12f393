// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_PUBLICATION_INVALIDPRIMITIVETYPE_H_
#define STANDIN_SMP_PUBLICATION_INVALIDPRIMITIVETYPE_H_
#include <Smp/Exception.h>
namespace Smp { namespace Publication { 
class InvalidPrimitiveType : public virtual ::Smp::Exception {
public:
  virtual ~InvalidPrimitiveType() noexcept = default;
  virtual ::Smp::String8 GetTypeName() const noexcept = 0;
  virtual ::Smp::PrimitiveTypeKind GetType() const noexcept = 0;
};
}}
#endif
