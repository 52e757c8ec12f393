// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_PUBLICATION_DUPLICATELITERAL_H_
#define STANDIN_SMP_PUBLICATION_DUPLICATELITERAL_H_
#include <Smp/Exception.h>
namespace Smp { namespace Publication { 
class DuplicateLiteral : public virtual ::Smp::Exception {
public:
  virtual ~DuplicateLiteral() noexcept = default;
  virtual ::Smp::String8 GetLiteralName() const noexcept = 0;
  virtual ::Smp::Int32 GetLiteralValue() const noexcept = 0;
};
}}
#endif
