// Stand-in for yacl/crypto/tools/prg.h: AES-128 counter-mode streams. The
// counter counts 16-byte blocks; every use is reported to vmon.
#pragma once
#include <cstdint>
#include <cstring>
#include <limits>
#include <type_traits>
#include <vector>
#include <cmath>

#include "absl/types/span.h"
#include "vmon/vmon.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
#include "yacl/crypto/rand/rand.h"

namespace yacl::crypto {
namespace internal {
inline uint64_t FillStream(SymmetricCrypto::CryptoType type, uint128_t seed,
                           uint128_t iv, uint64_t count, uint8_t* out,
                           size_t nbytes) {
  const size_t nblock = (nbytes + 15) / 16;
  std::vector<uint128_t> in(nblock);
  for (size_t i = 0; i < nblock; i++) in[i] = iv + count + i;
  std::vector<uint128_t> o(nblock);
  // E_seed(iv + counter): a counter-mode keystream for both CTR and ECB.
  SymmetricCrypto(SymmetricCrypto::CryptoType::AES128_ECB, seed)
      .Encrypt(absl::MakeConstSpan(in), absl::MakeSpan(o));
  if (nbytes != 0) std::memcpy(out, o.data(), nbytes);
  vmon::PrgLogAdd(static_cast<int>(type), seed, iv, count, count + nblock,
                  nbytes);
  return count + nblock;
}
}  // namespace internal

template <typename T>
uint64_t FillPRand(SymmetricCrypto::CryptoType type, uint128_t seed,
                   uint64_t iv, uint64_t count, absl::Span<T> out) {
  return internal::FillStream(type, seed, iv, count,
                              reinterpret_cast<uint8_t*>(out.data()),
                              out.size() * sizeof(T));
}
inline uint64_t FillPRand(SymmetricCrypto::CryptoType type, uint128_t seed,
                          uint64_t iv, uint64_t count, char* buf, size_t len) {
  return internal::FillStream(type, seed, iv, count,
                              reinterpret_cast<uint8_t*>(buf), len);
}

template <typename T>
uint64_t FillPRandWithLtN(SymmetricCrypto::CryptoType type, uint128_t seed,
                          uint64_t iv, uint64_t count, absl::Span<T> out,
                          T n) {
  std::vector<uint128_t> wide(out.size());
  auto c = FillPRand(type, seed, iv, count, absl::MakeSpan(wide));
  for (size_t i = 0; i < out.size(); i++) {
    YACL_ENFORCE(n != 0, "FillPRandWithLtN: n == 0");
    out[i] = static_cast<T>(wide[i] % static_cast<uint128_t>(n));
  }
  return c;
}

template <typename T>
uint64_t FillPRandWithMersennePrime(SymmetricCrypto::CryptoType type,
                                    uint128_t seed, uint64_t iv,
                                    uint64_t count, absl::Span<T> out) {
  // largest Mersenne exponent of the word: 2^31-1, 2^61-1, 2^127-1
  constexpr int k = sizeof(T) == 4 ? 31 : (sizeof(T) == 8 ? 61 : 127);
  const T p = static_cast<T>((static_cast<T>(1) << k) - 1);
  auto c = FillPRand(type, seed, iv, count, out);
  for (auto& v : out) {
    v = static_cast<T>(v & p);
    if (v == p) v = 0;
  }
  return c;
}

template <typename T>
uint64_t PrgAesCtr(uint128_t seed, absl::Span<T> out) {
  return FillPRand(SymmetricCrypto::CryptoType::AES128_CTR, seed, 0, 0, out);
}

template <typename T>
class Prg {
 public:
  Prg() : seed_(SecureRandSeed()) {}
  explicit Prg(uint128_t seed) : seed_(seed) {}
  using result_type = T;
  static constexpr T min() { return std::numeric_limits<T>::min(); }
  static constexpr T max() { return std::numeric_limits<T>::max(); }
  T operator()() {
    uint128_t v;
    ctr_ = FillPRand(SymmetricCrypto::CryptoType::AES128_CTR, seed_, 0, ctr_,
                     absl::MakeSpan(&v, 1));
    if constexpr (std::is_same_v<T, bool>) {
      return (v & 1) != 0;
    } else {
      return static_cast<T>(v);
    }
  }
  template <typename Y>
  void Fill(absl::Span<Y> out) {
    ctr_ = FillPRand(SymmetricCrypto::CryptoType::AES128_CTR, seed_, 0, ctr_,
                     out);
  }
  uint64_t Counter() const { return ctr_; }
  uint128_t Seed() const { return seed_; }

 private:
  uint128_t seed_;
  uint64_t ctr_ = 0;
};

// Fisher-Yates driven by one stream block per step.
template <typename It>
void ReplayShuffle(It first, It last, uint128_t seed, uint64_t* ctr) {
  const size_t n = static_cast<size_t>(last - first);
  if (n == 0) return;
  std::vector<uint128_t> r(n);
  *ctr = FillPRand(SymmetricCrypto::CryptoType::AES128_CTR, seed, 0, *ctr,
                   absl::MakeSpan(r));
  for (size_t i = n - 1; i > 0; --i) {
    std::swap(*(first + i), *(first + static_cast<size_t>(r[i] % (i + 1))));
  }
}
}  // namespace yacl::crypto
