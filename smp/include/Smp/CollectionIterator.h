// Reconstruction of the ECSS SMP interface header <Smp/CollectionIterator.h>.
#ifndef SMPREC_COLLECTIONITERATOR_H
#define SMPREC_COLLECTIONITERATOR_H
#include <cstddef>
#include <iterator>
namespace Smp {
template <typename T> class ICollection;
template <typename T> class CollectionIterator {
public:
  using difference_type = std::ptrdiff_t; using value_type = T *; using pointer = T **; using reference = T *; using iterator_category = std::forward_iterator_tag;
  CollectionIterator(const ICollection<T> &collection, size_t start) : _collection{&collection}, _index{start} {}
  CollectionIterator(const CollectionIterator &) = default;
  CollectionIterator &operator=(const CollectionIterator &) = default;
  T *operator*() const { return _collection->at(_index); }
  T *operator->() const { return _collection->at(_index); }
  CollectionIterator &operator++() { ++_index; return *this; }
  CollectionIterator operator++(int) { auto tmp = *this; ++_index; return tmp; }
  bool operator==(const CollectionIterator &o) const { return _collection == o._collection && _index == o._index; }
  bool operator!=(const CollectionIterator &o) const { return !(*this == o); }
private:
  const ICollection<T> *_collection; size_t _index;
};
} // namespace Smp
#endif
