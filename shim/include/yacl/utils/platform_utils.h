#pragma once
#include <cstdint>
namespace yacl {
inline bool hasAVX2() { return false; }
inline bool hasBMI2() { return false; }
inline uint64_t pdep_u64(uint64_t a, uint64_t mask) {
  uint64_t r = 0;
  for (uint64_t bb = 1; mask != 0; bb += bb) {
    if (a & bb) r |= mask & (~mask + 1);
    mask &= mask - 1;
  }
  return r;
}
inline uint64_t pext_u64(uint64_t a, uint64_t mask) {
  uint64_t r = 0;
  for (uint64_t bb = 1; mask != 0; bb += bb) {
    if (a & mask & (~mask + 1)) r |= bb;
    mask &= mask - 1;
  }
  return r;
}
}  // namespace yacl
