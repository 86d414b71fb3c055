#pragma once
#include <array>
#include "yacl/base/int128.h"
namespace yacl {
inline void SseTranspose128(std::array<uint128_t, 128>* inout) {
  std::array<uint128_t, 128> o{};
  for (int i = 0; i < 128; i++)
    for (int j = 0; j < 128; j++)
      if (((*inout)[i] >> j) & 1) o[j] |= static_cast<uint128_t>(1) << i;
  *inout = o;
}
}  // namespace yacl
