#pragma once
#include <cstdint>
#include <vector>
#include "yacl/base/byte_container_view.h"
namespace yacl::crypto {
enum class HashAlgorithm : int { UNKNOWN, SHA224, SHA256, SHA384, SHA512, SHA_1, SM3, BLAKE2B, BLAKE3 };
class HashInterface {
 public:
  virtual ~HashInterface() = default;
  virtual HashInterface& Reset() = 0;
  virtual HashInterface& Update(ByteContainerView data) = 0;
  virtual std::vector<uint8_t> CumulativeHash() const = 0;
};
}  // namespace yacl::crypto
