// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_ISTORAGEWRITER_H_
#define STANDIN_SMP_ISTORAGEWRITER_H_
#include <Smp/PrimitiveTypes.h>
namespace Smp { 
class IStorageWriter {
public:
  virtual ~IStorageWriter() noexcept = default;
  virtual void Store(void *address, ::Smp::UInt64 size) = 0;
  virtual ::Smp::String8 GetStateVectorFileName() const = 0;
  virtual ::Smp::String8 GetStateVectorFilePath() const = 0;
};
}
#endif
