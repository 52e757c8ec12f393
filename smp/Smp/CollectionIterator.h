// Stand-in for the ECSS SMP header (generated by gen.py)
#ifndef STANDIN_SMP_COLLECTIONITERATOR_H_
#define STANDIN_SMP_COLLECTIONITERATOR_H_
#include <Smp/PrimitiveTypes.h>
#include <iterator>
#include <cstddef>
namespace Smp {
template <typename T> class ICollection;
/// index-based iterator, as the interface only offers at(index)
template <typename T> class CollectionIterator {
public:
  using iterator_category = std::random_access_iterator_tag; using value_type = T *; using difference_type = std::ptrdiff_t;
  using pointer = T *; using reference = T *;
  CollectionIterator() = default;
  CollectionIterator(const ICollection<T> &c, std::size_t i) : _c{&c}, _i{i} {}
  T *operator*() const { return _c->at(_i); }
  T *operator->() const { return _c->at(_i); }
  CollectionIterator &operator++() { ++_i; return *this; }
  CollectionIterator operator++(int) { auto r = *this; ++_i; return r; }
  CollectionIterator &operator--() { --_i; return *this; }
  CollectionIterator operator--(int) { auto r = *this; --_i; return r; }
  CollectionIterator &operator+=(difference_type n) { _i += static_cast<std::size_t>(n); return *this; }
  CollectionIterator &operator-=(difference_type n) { _i -= static_cast<std::size_t>(n); return *this; }
  friend CollectionIterator operator+(CollectionIterator a, difference_type n) { return a += n; }
  friend CollectionIterator operator-(CollectionIterator a, difference_type n) { return a -= n; }
  friend difference_type operator-(const CollectionIterator &a, const CollectionIterator &b) { return static_cast<difference_type>(a._i) - static_cast<difference_type>(b._i); }
  T *operator[](difference_type n) const { return _c->at(_i + static_cast<std::size_t>(n)); }
  bool operator==(const CollectionIterator &o) const { return _c == o._c && _i == o._i; }
  bool operator!=(const CollectionIterator &o) const { return !(*this == o); }
  bool operator<(const CollectionIterator &o) const { return _i < o._i; }
  bool operator>(const CollectionIterator &o) const { return _i > o._i; }
  bool operator<=(const CollectionIterator &o) const { return _i <= o._i; }
  bool operator>=(const CollectionIterator &o) const { return _i >= o._i; }
private:
  const ICollection<T> *_c{}; std::size_t _i{};
};
}
#endif
