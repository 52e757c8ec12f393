// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_DUPLICATENAME_H_
#define STANDIN_SMP_DUPLICATENAME_H_
#include <Smp/Exception.h>
namespace Smp { 
class DuplicateName : public virtual ::Smp::Exception {
public:
  virtual ~DuplicateName() noexcept = default;
  virtual ::Smp::String8 GetDuplicateName() const noexcept = 0;
};
}
#endif
