// Stand-in for yacl's SymmetricCrypto, over OpenSSL's AES.
#pragma once
#include <openssl/evp.h>

#include <cstdint>
#include <cstring>
#include <memory>
#include <vector>

#include "absl/types/span.h"
#include "yacl/base/exception.h"
#include "yacl/base/int128.h"

namespace yacl::crypto {
class SymmetricCrypto {
 public:
  enum class CryptoType : int {
    AES128_ECB,
    AES128_CBC,
    AES128_CTR,
    SM4_ECB,
    SM4_CBC,
    SM4_CTR,
  };
  SymmetricCrypto(CryptoType type, uint128_t key, uint128_t iv = 0)
      : type_(type), key_(key), iv_(iv) {}
  static constexpr size_t BlockSize() { return 16; }

  void Encrypt(absl::Span<const uint8_t> in, absl::Span<uint8_t> out) const {
    YACL_ENFORCE(in.size() == out.size(), "size mismatch");
    if (in.empty()) return;
    const EVP_CIPHER* c =
        type_ == CryptoType::AES128_CTR ? EVP_aes_128_ctr() : EVP_aes_128_ecb();
    std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> ctx(
        EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
    uint8_t ivb[16];
    for (int i = 0; i < 16; i++) {  // big-endian counter block
      ivb[i] = static_cast<uint8_t>(iv_ >> (8 * (15 - i)));
    }
    YACL_ENFORCE(EVP_EncryptInit_ex(ctx.get(), c, nullptr,
                                    reinterpret_cast<const uint8_t*>(&key_),
                                    ivb) == 1);
    EVP_CIPHER_CTX_set_padding(ctx.get(), 0);
    size_t done = 0;
    while (done < in.size()) {
      int outl = 0;
      int n = static_cast<int>(std::min<size_t>(in.size() - done, 1 << 24));
      YACL_ENFORCE(EVP_EncryptUpdate(ctx.get(), out.data() + done, &outl,
                                     in.data() + done, n) == 1);
      YACL_ENFORCE(outl == n);
      done += static_cast<size_t>(n);
    }
  }
  void Encrypt(absl::Span<const uint128_t> in, absl::Span<uint128_t> out) const {
    Encrypt(absl::Span<const uint8_t>(
                reinterpret_cast<const uint8_t*>(in.data()), in.size() * 16),
            absl::Span<uint8_t>(reinterpret_cast<uint8_t*>(out.data()),
                                out.size() * 16));
  }
  uint128_t Encrypt(uint128_t in) const {
    uint128_t out;
    Encrypt(absl::MakeConstSpan(&in, 1), absl::MakeSpan(&out, 1));
    return out;
  }

 private:
  CryptoType type_;
  uint128_t key_;
  uint128_t iv_;
};
}  // namespace yacl::crypto
