// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_IPERSIST_H_
#define STANDIN_SMP_IPERSIST_H_
#include <Smp/PrimitiveTypes.h>
#include <Smp/IObject.h>
#include <Smp/IStorageReader.h>
#include <Smp/IStorageWriter.h>
namespace Smp { 
class IPersist : public virtual Smp::IObject {
public:
  virtual ~IPersist() noexcept = default;
  virtual void Restore(::Smp::IStorageReader *reader) = 0;
  virtual void Store(::Smp::IStorageWriter *writer) = 0;
};
}
#endif
