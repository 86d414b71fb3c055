#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <ostream>
#include <string>
#include <string_view>
#include <utility>

#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"

namespace yacl {
// Exact-size heap allocation, so that ASan's red zones sit right behind the
// last byte. Fresh memory is filled with 0xA5 so that code relying on
// zero-initialised buffers shows up as a wrong result (yacl's own Buffer does
// not initialise).
class Buffer final {
 public:
  Buffer() = default;
  explicit Buffer(int64_t size) { alloc(size); }
  Buffer(const void* data, size_t size) {
    alloc(static_cast<int64_t>(size));
    if (size != 0) std::memcpy(ptr_, data, size);
  }
  Buffer(void* data, size_t size, const std::function<void(void*)>& deleter)
      : ptr_(reinterpret_cast<std::byte*>(data)),
        size_(static_cast<int64_t>(size)),
        cap_(static_cast<int64_t>(size)),
        deleter_(deleter) {}
  explicit Buffer(std::string_view s) : Buffer(s.data(), s.size()) {}
  explicit Buffer(ByteContainerView v) : Buffer(v.data(), v.size()) {}
  explicit Buffer(const std::string& s) : Buffer(s.data(), s.size()) {}
  explicit Buffer(const char* s) : Buffer(std::string_view(s)) {}
  Buffer(const Buffer& o) : Buffer(o.ptr_, static_cast<size_t>(o.size_)) {}
  Buffer& operator=(const Buffer& o) {
    if (this != &o) {
      Buffer t(o);
      swap(t);
    }
    return *this;
  }
  Buffer(Buffer&& o) noexcept { swap(o); }
  Buffer& operator=(Buffer&& o) noexcept {
    if (this != &o) {
      reset();
      swap(o);
    }
    return *this;
  }
  ~Buffer() { reset(); }

  template <typename T = void>
  T* data() {
    return reinterpret_cast<T*>(ptr_);
  }
  template <typename T = void>
  const T* data() const {
    return reinterpret_cast<const T*>(ptr_);
  }
  int64_t size() const { return size_; }
  int64_t capacity() const { return cap_; }
  bool empty() const { return size_ == 0; }
  void resize(int64_t n) {
    if (n > cap_) {
      Buffer t(n);
      if (size_ > 0) std::memcpy(t.ptr_, ptr_, static_cast<size_t>(size_));
      swap(t);
    } else {
      size_ = n;
    }
  }
  void reserve(int64_t n) {
    if (n > cap_) {
      auto s = size_;
      resize(n);
      size_ = s;
    }
  }
  void* release() {
    void* p = ptr_;
    ptr_ = nullptr;
    size_ = cap_ = 0;
    return p;
  }
  void reset() {
    if (ptr_ != nullptr) {
      if (deleter_) {
        deleter_(ptr_);
      } else {
        delete[] ptr_;
      }
    }
    ptr_ = nullptr;
    size_ = cap_ = 0;
    deleter_ = nullptr;
  }
  bool operator==(const Buffer& o) const {
    return size_ == o.size_ &&
           (size_ == 0 || std::memcmp(ptr_, o.ptr_, size_) == 0);
  }
  bool operator!=(const Buffer& o) const { return !(*this == o); }
  operator std::string_view() const {
    return {reinterpret_cast<const char*>(ptr_), static_cast<size_t>(size_)};
  }
  friend std::ostream& operator<<(std::ostream& os, const Buffer& b) {
    return os << std::string_view(b);
  }

 private:
  void alloc(int64_t n) {
    YACL_ENFORCE(n >= 0, "Buffer: negative size {}", n);
    size_ = cap_ = n;
    YACL_ENFORCE(n <= (int64_t{1} << 34), "Buffer: size too large {}", n);
    ptr_ = new std::byte[n];
    if (n != 0) std::memset(ptr_, 0xA5, static_cast<size_t>(n));
  }
  void swap(Buffer& o) noexcept {
    std::swap(ptr_, o.ptr_);
    std::swap(size_, o.size_);
    std::swap(cap_, o.cap_);
    std::swap(deleter_, o.deleter_);
  }
  std::byte* ptr_ = nullptr;
  int64_t size_ = 0;
  int64_t cap_ = 0;
  std::function<void(void*)> deleter_;
};
}  // namespace yacl
