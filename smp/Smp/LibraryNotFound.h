// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_LIBRARYNOTFOUND_H_
#define STANDIN_SMP_LIBRARYNOTFOUND_H_
#include <Smp/Exception.h>
namespace Smp { 
class LibraryNotFound : public virtual ::Smp::Exception {
public:
  virtual ~LibraryNotFound() noexcept = default;
  virtual ::Smp::String8 GetLibraryName() const noexcept = 0;
};
}
#endif
