#pragma once
#include <cstring>
#include <tuple>
#include <type_traits>
#include "yacl/base/buffer.h"
#include "yacl/base/int128.h"
namespace yacl {
inline Buffer SerializeUint128(uint128_t v) { return Buffer(&v, sizeof(v)); }
inline uint128_t DeserializeUint128(ByteContainerView b) {
  YACL_ENFORCE(b.size() == sizeof(uint128_t), "bad uint128 size {}", b.size());
  uint128_t v;
  std::memcpy(&v, b.data(), sizeof(v));
  return v;
}
template <typename T>
Buffer SerializeVars(const T& v) {
  static_assert(std::is_trivially_copyable_v<T>);
  return Buffer(&v, sizeof(v));
}
template <typename T>
T DeserializeVars(ByteContainerView b) {
  YACL_ENFORCE(b.size() == sizeof(T), "bad size {}", b.size());
  T v;
  std::memcpy(&v, b.data(), sizeof(v));
  return v;
}
}  // namespace yacl
