#pragma once
#include <cstddef>
#include <memory>
#include <new>
#include <vector>
namespace yacl {
template <typename T, size_t A = 64>
struct AlignedAllocator {
  using value_type = T;
  template <class U> struct rebind { using other = AlignedAllocator<U, A>; };
  AlignedAllocator() = default;
  template <class U> AlignedAllocator(const AlignedAllocator<U, A>&) {}
  T* allocate(size_t n) {
    return static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(A)));
  }
  void deallocate(T* p, size_t n) {
    ::operator delete(p, n * sizeof(T), std::align_val_t(A));
  }
  bool operator==(const AlignedAllocator&) const { return true; }
  bool operator!=(const AlignedAllocator&) const { return false; }
};
template <typename T, size_t A = 64>
struct UninitAlignedAllocator : AlignedAllocator<T, A> {
  template <class U> struct rebind { using other = UninitAlignedAllocator<U, A>; };
  UninitAlignedAllocator() = default;
  template <class U> UninitAlignedAllocator(const UninitAlignedAllocator<U, A>&) {}
  template <class U> void construct(U* p) noexcept { ::new (static_cast<void*>(p)) U; }
  template <class U, class... Args> void construct(U* p, Args&&... a) {
    ::new (static_cast<void*>(p)) U(std::forward<Args>(a)...);
  }
};
template <typename T, size_t A = 64>
using AlignedVector = std::vector<T, AlignedAllocator<T, A>>;
template <typename T, size_t A = 64>
using UninitAlignedVector = std::vector<T, UninitAlignedAllocator<T, A>>;
}  // namespace yacl
