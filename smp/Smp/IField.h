// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IFIELD_H_
#define STANDIN_SMP_IFIELD_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IPersist.h>
#include <Smp/ViewKind.h>
#include <Smp/Publication/IType.h>
#include <Smp/ICollection.h>
namespace Smp { class IField; using FieldCollection = ::Smp::ICollection<::Smp::IField>; }
namespace Smp { 
class IField : public virtual Smp::IPersist {
public:
  virtual ~IField() noexcept = default;
  virtual ::Smp::ViewKind GetView() const = 0;
  virtual ::Smp::Bool IsState() const = 0;
  virtual ::Smp::Bool IsInput() const = 0;
  virtual ::Smp::Bool IsOutput() const = 0;
  virtual const ::Smp::Publication::IType *GetType() const = 0;
};
}
#endif
