#pragma once
#include <array>
#include <cstdint>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

#include "absl/strings/string_view.h"
#include "absl/types/span.h"

namespace yacl {
class ByteContainerView {
 public:
  constexpr ByteContainerView() noexcept = default;
  template <typename T, std::enable_if_t<sizeof(T) == 1, int> = 0>
  ByteContainerView(const T* data, size_t len) noexcept
      : data_(reinterpret_cast<const uint8_t*>(data)), len_(len) {}
  ByteContainerView(const void* data, size_t len) noexcept
      : data_(reinterpret_cast<const uint8_t*>(data)), len_(len) {}
  ByteContainerView(const char* s) noexcept
      : ByteContainerView(std::string_view(s)) {}
  ByteContainerView(std::string_view s) noexcept
      : data_(reinterpret_cast<const uint8_t*>(s.data())), len_(s.size()) {}
  ByteContainerView(const std::string& s) noexcept
      : data_(reinterpret_cast<const uint8_t*>(s.data())), len_(s.size()) {}
  template <typename C,
            typename = std::enable_if_t<
                !std::is_same_v<std::decay_t<C>, ByteContainerView> &&
                !std::is_same_v<std::decay_t<C>, std::string> &&
                !std::is_same_v<std::decay_t<C>, std::string_view> &&
                !std::is_array_v<std::remove_reference_t<C>> &&
                !std::is_pointer_v<std::decay_t<C>>>,
            typename = decltype(std::declval<const C&>().data()),
            typename = decltype(std::declval<const C&>().size())>
  ByteContainerView(const C& c) noexcept
      : data_(reinterpret_cast<const uint8_t*>(c.data())),
        len_(static_cast<size_t>(c.size()) * elsize(c)) {}

  const uint8_t* data() const noexcept { return data_; }
  size_t size() const noexcept { return len_; }
  size_t length() const noexcept { return len_; }
  bool empty() const noexcept { return len_ == 0; }
  const uint8_t* begin() const noexcept { return data_; }
  const uint8_t* end() const noexcept { return data_ + len_; }
  const uint8_t& operator[](size_t i) const noexcept { return data_[i]; }
  const uint8_t& at(size_t i) const { return data_[i]; }
  ByteContainerView subspan(size_t pos, size_t n = size_t(-1)) const {
    if (pos > len_) pos = len_;
    return ByteContainerView(data_ + pos, std::min(n, len_ - pos));
  }
  operator absl::Span<const uint8_t>() const { return {data_, len_}; }
  operator std::string_view() const {
    return {reinterpret_cast<const char*>(data_), len_};
  }
  explicit operator std::string() const {
    return {reinterpret_cast<const char*>(data_), len_};
  }
  bool operator==(const ByteContainerView& o) const {
    return std::string_view(*this) == std::string_view(o);
  }
  bool operator!=(const ByteContainerView& o) const { return !(*this == o); }

 private:
  template <typename C>
  static constexpr size_t elsize(const C& c) {
    using P = std::remove_pointer_t<decltype(c.data())>;
    if constexpr (std::is_void_v<std::remove_cv_t<P>>) {
      return 1;
    } else {
      static_assert(sizeof(P) == 1, "byte containers only");
      return 1;
    }
  }
  const uint8_t* data_ = nullptr;
  size_t len_ = 0;
};
using ByteSpan = absl::Span<uint8_t>;
}  // namespace yacl
