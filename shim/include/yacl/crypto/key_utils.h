#pragma once
#include <utility>
#include "yacl/base/buffer.h"
namespace yacl::crypto {
inline std::pair<Buffer, Buffer> GenSm2KeyPairToPemBuf() {
  return {Buffer(std::string("shim-sm2-key")), Buffer(std::string("shim-sm2-key"))};
}
}  // namespace yacl::crypto
