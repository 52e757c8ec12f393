// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDTARGET_H_
#define STANDIN_SMP_INVALIDTARGET_H_
#include <Smp/Exception.h>
#include <Smp/IDataflowField.h>
#include <Smp/IField.h>
namespace Smp { 
class InvalidTarget : public virtual ::Smp::Exception {
public:
  virtual ~InvalidTarget() noexcept = default;
  virtual const ::Smp::IDataflowField * GetSource() const noexcept = 0;
  virtual const ::Smp::IField * GetTarget() const noexcept = 0;
};
}
#endif
