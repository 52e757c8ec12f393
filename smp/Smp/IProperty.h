// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IPROPERTY_H_
#define STANDIN_SMP_IPROPERTY_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/AccessKind.h>
#include <Smp/AnySimple.h>
#include <Smp/Publication/IType.h>
#include <Smp/ViewKind.h>
#include <Smp/ICollection.h>
namespace Smp { class IProperty; using PropertyCollection = ::Smp::ICollection<::Smp::IProperty>; }
namespace Smp { 
class IProperty : public virtual Smp::IObject {
public:
  virtual ~IProperty() noexcept = default;
  virtual ::Smp::Publication::IType *GetType() const = 0;
  virtual ::Smp::AccessKind GetAccess() const = 0;
  virtual ::Smp::ViewKind GetView() const = 0;
  virtual ::Smp::AnySimple GetValue() const = 0;
  virtual void SetValue(::Smp::AnySimple value) = 0;
};
}
#endif
