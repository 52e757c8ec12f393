// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_REFERENCEFULL_H_
#define STANDIN_SMP_REFERENCEFULL_H_
#include <Smp/Exception.h>
namespace Smp { 
class ReferenceFull : public virtual ::Smp::Exception {
public:
  virtual ~ReferenceFull() noexcept = default;
  virtual ::Smp::String8 GetReferenceName() const noexcept = 0;
  virtual ::Smp::Int64 GetReferenceSize() const noexcept = 0;
};
}
#endif
