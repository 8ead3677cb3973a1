// Reconstruction of the ECSS SMP interface header <Smp/ICollection.h>.
#ifndef SMPREC_ICOLLECTION_H
#define SMPREC_ICOLLECTION_H
#include <cstddef>
#include <Smp/IObject.h>
#include <Smp/CollectionIterator.h>
namespace Smp {
template <typename T> class ICollection : public virtual ::Smp::IObject {
public:
  using const_iterator = ::Smp::CollectionIterator<T>;
  using iterator = const_iterator;
  ~ICollection() noexcept override = default;
  virtual T *at(::Smp::String8 name) const = 0;
  virtual T *at(size_t index) const = 0;
  virtual size_t size() const = 0;
  virtual const_iterator begin() const = 0;
  virtual const_iterator end() const = 0;
};
} // namespace Smp
#endif
