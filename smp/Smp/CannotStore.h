// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_CANNOTSTORE_H_
#define STANDIN_SMP_CANNOTSTORE_H_
#include <Smp/Exception.h>
namespace Smp { 
class CannotStore : public virtual ::Smp::Exception {
public:
  virtual ~CannotStore() noexcept = default;
};
}
#endif
