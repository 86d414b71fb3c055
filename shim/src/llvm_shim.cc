// SmallVector's out-of-line members (libLLVM proper is not needed otherwise).
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>

#include "llvm/ADT/SmallVector.h"
namespace llvm {
template <class SizeT>
static size_t NewCap(size_t min, size_t old) {
  constexpr size_t max = static_cast<SizeT>(~SizeT(0));
  if (min > max || old == max) abort();
  size_t n = 2 * old + 1;
  if (n < min) n = min;
  return n > max ? max : n;
}
template <class SizeT>
void* SmallVectorBase<SizeT>::mallocForGrow(void* first, size_t min, size_t tsize,
                                            size_t& cap) {
  cap = NewCap<SizeT>(min, this->capacity());
  void* p = malloc(cap * tsize);
  if (p == first) {  // cannot happen for inline storage
    void* q = malloc(cap * tsize);
    free(p);
    p = q;
  }
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
template <class SizeT>
void SmallVectorBase<SizeT>::grow_pod(void* first, size_t min, size_t tsize) {
  size_t cap = NewCap<SizeT>(min, this->capacity());
  void* n;
  if (BeginX == first) {
    n = malloc(cap * tsize);
    if (n == nullptr) throw std::bad_alloc();
    memcpy(n, this->BeginX, size() * tsize);
  } else {
    n = realloc(this->BeginX, cap * tsize);
    if (n == nullptr) throw std::bad_alloc();
  }
  this->BeginX = n;
  this->Capacity = static_cast<SizeT>(cap);
}
template class SmallVectorBase<uint32_t>;
template class SmallVectorBase<uint64_t>;
}  // namespace llvm
