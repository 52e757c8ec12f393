// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDFIELDTYPE_H_
#define STANDIN_SMP_INVALIDFIELDTYPE_H_
#include <Smp/Exception.h>
namespace Smp { 
class InvalidFieldType : public virtual ::Smp::Exception {
public:
  virtual ~InvalidFieldType() noexcept = default;
};
}
#endif
