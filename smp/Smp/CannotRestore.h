// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_CANNOTRESTORE_H_
#define STANDIN_SMP_CANNOTRESTORE_H_
#include <Smp/Exception.h>
namespace Smp { 
class CannotRestore : public virtual ::Smp::Exception {
public:
  virtual ~CannotRestore() noexcept = default;
};
}
#endif
