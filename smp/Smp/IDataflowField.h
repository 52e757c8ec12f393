// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IDATAFLOWFIELD_H_
#define STANDIN_SMP_IDATAFLOWFIELD_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IField.h>
namespace Smp { 
class IDataflowField : public virtual Smp::IField {
public:
  virtual ~IDataflowField() noexcept = default;
  virtual void Connect(::Smp::IField *target) = 0;
  virtual void Push() = 0;
};
}
#endif
