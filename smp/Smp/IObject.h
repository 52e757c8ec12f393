// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IOBJECT_H_
#define STANDIN_SMP_IOBJECT_H_
#include <Smp/PrimitiveTypes.h>
namespace Smp { 
class IObject {
public:
  virtual ~IObject() noexcept = default;
  virtual ::Smp::String8 GetName() const = 0;
  virtual ::Smp::String8 GetDescription() const = 0;
  virtual ::Smp::IObject *GetParent() const = 0;
};
}
#endif
