// Minimal stand-in for emp-tool's 128-bit block.
#pragma once
#include <emmintrin.h>
#include <smmintrin.h>

#include <cstdint>
#include <cstring>
namespace emp {
typedef __m128i block;
inline block makeBlock(uint64_t high, uint64_t low) {
  return _mm_set_epi64x(static_cast<long long>(high), static_cast<long long>(low));
}
static const block zero_block = makeBlock(0, 0);
static const block all_one_block = makeBlock(~0ULL, ~0ULL);
inline bool getLSB(const block& x) { return (_mm_extract_epi64(x, 0) & 1) != 0; }
}  // namespace emp
