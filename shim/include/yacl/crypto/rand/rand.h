#pragma once
#include <cstdint>
#include <vector>
#include <algorithm>
#include <cstring>

#include "absl/types/span.h"
#include "vmon/vmon.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"

namespace yacl::crypto {
inline uint64_t RandU64(bool = false) { return vmon::NextRand64(); }
inline uint128_t RandU128(bool = false) { return vmon::NextRand128(); }
inline uint64_t SecureRandU64() { return vmon::NextRand64(); }
inline uint128_t SecureRandU128() { return vmon::NextRand128(); }
inline uint128_t SecureRandSeed() { return vmon::NextRand128(); }
inline uint128_t FastRandSeed() { return vmon::NextRand128(); }
inline std::vector<uint8_t> RandBytes(uint64_t len, bool = false) {
  std::vector<uint8_t> r(len);
  for (size_t i = 0; i < r.size(); i += 8) {
    uint64_t v = vmon::NextRand64();
    std::memcpy(r.data() + i, &v, std::min<size_t>(8, r.size() - i));
  }
  return r;
}
inline std::vector<uint8_t> SecureRandBytes(uint64_t len) { return RandBytes(len); }
template <typename T>
T RandBits(uint64_t len, bool = false) {
  T r(len);
  uint64_t v = 0;
  for (uint64_t i = 0; i < len; i++) {
    if (i % 64 == 0) v = vmon::NextRand64();
    r[i] = static_cast<bool>((v >> (i % 64)) & 1);
  }
  return r;
}
}  // namespace yacl::crypto
#include "yacl/crypto/tools/prg.h"
