#pragma once
#include "yacl/crypto/tools/prg.h"
namespace yacl::crypto {
// A fixed mixing function stands in for the AES-based correlation-robust hash.
inline uint128_t CrHashStandIn(uint128_t v) {
  auto mix = [](uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  };
  uint64_t lo = static_cast<uint64_t>(v), hi = static_cast<uint64_t>(v >> 64);
  uint64_t a = mix(lo ^ mix(hi)), b = mix(hi ^ mix(a ^ 0x5851f42d4c957f2dULL));
  return (static_cast<uint128_t>(b) << 64) | mix(a ^ b);
}
inline void ParaCrHashInplace_128(absl::Span<uint128_t> x) {
  for (auto& v : x) v = CrHashStandIn(v);
}
}  // namespace yacl::crypto
