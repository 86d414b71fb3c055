// Functional stand-in for SM2 public-key encryption: authenticated
// obfuscation keyed by the key text. Not cryptography; the monitors only need
// "decrypts to what was encrypted under that key, and rejects anything else".
#pragma once
#include <cstring>
#include <string>
#include <utility>
#include <vector>
#include "yacl/base/buffer.h"
#include "yacl/crypto/hash/blake3.h"
#include "yacl/crypto/rand/rand.h"
namespace yacl::crypto {
class PkeEncryptor {
 public:
  virtual ~PkeEncryptor() = default;
  virtual std::vector<uint8_t> Encrypt(ByteContainerView p) const = 0;
};
class PkeDecryptor {
 public:
  virtual ~PkeDecryptor() = default;
  virtual std::vector<uint8_t> Decrypt(ByteContainerView c) const = 0;
};
namespace internal {
inline std::vector<uint8_t> Pad(const std::string& key, const uint8_t* nonce, const std::string& dom) {
  Blake3Hash h;
  h.Update(key).Update(dom).Update(ByteContainerView(nonce, 16));
  return h.CumulativeHash();
}
}
class Sm2Encryptor : public PkeEncryptor {
 public:
  explicit Sm2Encryptor(ByteContainerView pk) : k_(reinterpret_cast<const char*>(pk.data()), pk.size()) {}
  std::vector<uint8_t> Encrypt(ByteContainerView p) const override {
    YACL_ENFORCE(p.size() <= 32);
    std::vector<uint8_t> r = RandBytes(16);
    auto pad = internal::Pad(k_, r.data(), "enc");
    for (size_t i = 0; i < p.size(); i++) r.push_back(p[i] ^ pad[i]);
    Blake3Hash h;
    h.Update(k_).Update(ByteContainerView(r.data(), r.size()));
    auto t = h.CumulativeHash();
    r.insert(r.end(), t.begin(), t.begin() + 8);
    return r;
  }
 private:
  std::string k_;
};
class Sm2Decryptor : public PkeDecryptor {
 public:
  explicit Sm2Decryptor(ByteContainerView sk) : k_(reinterpret_cast<const char*>(sk.data()), sk.size()) {}
  std::vector<uint8_t> Decrypt(ByteContainerView c) const override {
    YACL_ENFORCE(c.size() >= 24, "ciphertext too short");
    Blake3Hash h;
    h.Update(k_).Update(ByteContainerView(c.data(), c.size() - 8));
    auto t = h.CumulativeHash();
    YACL_ENFORCE(std::memcmp(t.data(), c.data() + c.size() - 8, 8) == 0, "decrypt failed");
    auto pad = internal::Pad(k_, c.data(), "enc");
    std::vector<uint8_t> r;
    for (size_t i = 16; i + 8 < c.size(); i++) r.push_back(c[i] ^ pad[i - 16]);
    return r;
  }
 private:
  std::string k_;
};
}  // namespace yacl::crypto
