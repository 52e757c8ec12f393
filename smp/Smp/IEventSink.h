// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IEVENTSINK_H_
#define STANDIN_SMP_IEVENTSINK_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/AnySimple.h>
#include <Smp/ICollection.h>
namespace Smp { class IEventSink; using EventSinkCollection = ::Smp::ICollection<::Smp::IEventSink>; }
namespace Smp { 
class IEventSink : public virtual Smp::IObject {
public:
  virtual ~IEventSink() noexcept = default;
  virtual ::Smp::PrimitiveTypeKind GetEventArgType() const = 0;
  virtual void Notify(::Smp::IObject *sender, ::Smp::AnySimple value) = 0;
};
}
#endif
