// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDARRAYINDEX_H_
#define STANDIN_SMP_INVALIDARRAYINDEX_H_
#include <Smp/Exception.h>
namespace Smp { 
class InvalidArrayIndex : public virtual ::Smp::Exception {
public:
  virtual ~InvalidArrayIndex() noexcept = default;
  virtual ::Smp::Int64 GetInvalidIndex() const noexcept = 0;
  virtual ::Smp::Int64 GetArraySize() const noexcept = 0;
};
}
#endif
