#pragma once
#include <array>
#include <cstring>
#include "yacl/crypto/hash/blake3.h"
namespace yacl::crypto {
inline std::array<uint8_t, 32> Blake3(ByteContainerView d) {
  Blake3Hash h; h.Update(d);
  auto v = h.CumulativeHash();
  std::array<uint8_t, 32> r;
  std::memcpy(r.data(), v.data(), 32);
  return r;
}
inline std::array<uint8_t, 32> Sha256(ByteContainerView d) { return Blake3(d); }
inline std::array<uint8_t, 32> Sm3(ByteContainerView d) { return Blake3(d); }
inline uint128_t Blake3_128(ByteContainerView d) {
  auto h = Blake3(d); uint128_t r; std::memcpy(&r, h.data(), 16); return r;
}
}  // namespace yacl::crypto
