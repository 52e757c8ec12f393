// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_ICOLLECTION_H_
#define STANDIN_SMP_ICOLLECTION_H_
#include <Smp/IObject.h>
#include <Smp/CollectionIterator.h>
#include <cstddef>
namespace Smp {
template <typename T> class ICollection : public virtual ::Smp::IObject {
public:
  using value_type = T; using iterator = CollectionIterator<T>; using const_iterator = CollectionIterator<T>;
  virtual ~ICollection() noexcept = default;
  virtual T *at(::Smp::String8 name) const = 0;
  virtual T *at(std::size_t index) const = 0;
  virtual std::size_t size() const = 0;
  virtual const_iterator begin() const = 0;
  virtual const_iterator end() const = 0;
};
}
#endif
