// Stand-in for yacl/base/int128.h (third-party library absent offline).
#pragma once
#include <cstddef>
#include <cstdint>
#include <ostream>
#include <string>
#include <utility>
#include <algorithm>

using int128_t = __int128;
using uint128_t = unsigned __int128;

namespace yacl {
constexpr uint128_t MakeUint128(uint64_t high, uint64_t low) {
  return (static_cast<uint128_t>(high) << 64) | low;
}
constexpr int128_t MakeInt128(int64_t high, uint64_t low) {
  return static_cast<int128_t>(
      (static_cast<uint128_t>(static_cast<uint64_t>(high)) << 64) | low);
}
constexpr std::pair<uint64_t, uint64_t> DecomposeUInt128(uint128_t v) {
  return {static_cast<uint64_t>(v >> 64), static_cast<uint64_t>(v)};
}
constexpr std::pair<int64_t, uint64_t> DecomposeInt128(int128_t v) {
  return {static_cast<int64_t>(v >> 64),
          static_cast<uint64_t>(static_cast<uint128_t>(v))};
}
constexpr uint128_t Uint128Max() { return ~static_cast<uint128_t>(0); }
constexpr int128_t Int128Max() { return static_cast<int128_t>(Uint128Max() >> 1); }
constexpr int128_t Int128Min() { return -Int128Max() - 1; }
}  // namespace yacl

namespace std {
inline std::ostream& operator<<(std::ostream& os, uint128_t v) {
  if (v == 0) return os << "0";
  std::string s;
  while (v != 0) {
    s.push_back(static_cast<char>('0' + static_cast<int>(v % 10)));
    v /= 10;
  }
  std::reverse(s.begin(), s.end());
  return os << s;
}
inline std::ostream& operator<<(std::ostream& os, int128_t v) {
  if (v < 0) {
    os << "-";
    return os << (~static_cast<uint128_t>(v) + 1);
  }
  return os << static_cast<uint128_t>(v);
}
}  // namespace std
