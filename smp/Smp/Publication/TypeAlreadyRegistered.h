// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_PUBLICATION_TYPEALREADYREGISTERED_H_
#define STANDIN_SMP_PUBLICATION_TYPEALREADYREGISTERED_H_
#include <Smp/Exception.h>
#include <Smp/Publication/IType.h>
namespace Smp { namespace Publication { 
class TypeAlreadyRegistered : public virtual ::Smp::Exception {
public:
  virtual ~TypeAlreadyRegistered() noexcept = default;
  virtual ::Smp::String8 GetTypeName() const noexcept = 0;
  virtual const ::Smp::Publication::IType * GetType() const noexcept = 0;
};
}}
#endif
