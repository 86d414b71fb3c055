// Collision-resistant hash with BLAKE3's interface; SHA-256 underneath.
#pragma once
#include <openssl/evp.h>
#include <string>
#include "yacl/crypto/hash/hash_interface.h"
namespace yacl::crypto {
class Blake3Hash : public HashInterface {
 public:
  HashInterface& Reset() override { buf_.clear(); return *this; }
  HashInterface& Update(ByteContainerView d) override {
    buf_.append(reinterpret_cast<const char*>(d.data()), d.size());
    return *this;
  }
  std::vector<uint8_t> CumulativeHash() const override {
    std::vector<uint8_t> out(32);
    unsigned int l = 32;
    EVP_Digest(buf_.data(), buf_.size(), out.data(), &l, EVP_sha256(), nullptr);
    return out;
  }
 private:
  std::string buf_;
};
}  // namespace yacl::crypto
