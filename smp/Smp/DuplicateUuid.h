// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_DUPLICATEUUID_H_
#define STANDIN_SMP_DUPLICATEUUID_H_
#include <Smp/Exception.h>
namespace Smp { 
class DuplicateUuid : public virtual ::Smp::Exception {
public:
  virtual ~DuplicateUuid() noexcept = default;
  virtual ::Smp::String8 GetOldName() const noexcept = 0;
  virtual ::Smp::String8 GetNewName() const noexcept = 0;
};
}
#endif
