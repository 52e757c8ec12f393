// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_PUBLICATION_TYPENOTREGISTERED_H_
#define STANDIN_SMP_PUBLICATION_TYPENOTREGISTERED_H_
#include <Smp/Exception.h>
#include <Smp/Uuid.h>
namespace Smp { namespace Publication { 
class TypeNotRegistered : public virtual ::Smp::Exception {
public:
  virtual ~TypeNotRegistered() noexcept = default;
  virtual ::Smp::Uuid GetUuid() const noexcept = 0;
};
}}
#endif
