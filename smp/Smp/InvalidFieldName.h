// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDFIELDNAME_H_
#define STANDIN_SMP_INVALIDFIELDNAME_H_
#include <Smp/Exception.h>
namespace Smp { 
class InvalidFieldName : public virtual ::Smp::Exception {
public:
  virtual ~InvalidFieldName() noexcept = default;
  virtual ::Smp::String8 GetFieldName() const noexcept = 0;
};
}
#endif
