// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_INVALIDLIBRARY_H_
#define STANDIN_SMP_INVALIDLIBRARY_H_
#include <Smp/Exception.h>
namespace Smp { 
class InvalidLibrary : public virtual ::Smp::Exception {
public:
  virtual ~InvalidLibrary() noexcept = default;
  virtual ::Smp::String8 GetLibraryName() const noexcept = 0;
};
}
#endif
