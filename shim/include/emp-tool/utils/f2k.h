// Minimal stand-in for emp-tool's GF(2^128) helpers (x^128+x^7+x^2+x+1).
#pragma once
#include <vector>
#include "emp-tool/utils/block.h"
#include "yacl/base/int128.h"
namespace std {
// libstdc++ declares it as a hidden friend; libc++ (upstream) at namespace scope.
void swap(_Bit_reference, _Bit_reference) noexcept;
}  // namespace std
namespace emp {
inline void Clmul64(uint64_t a, uint64_t b, uint64_t* lo, uint64_t* hi) {
  uint64_t l = 0, h = 0;
  for (int i = 0; i < 64; i++) {
    const uint64_t m = -((b >> i) & 1);
    l ^= (a << i) & m;
    if (i) h ^= (a >> (64 - i)) & m;
  }
  *lo = l;
  *hi = h;
}
inline void mul128(block a, block b, block* r1, block* r2) {
  uint64_t x[2], y[2], r[4] = {0, 0, 0, 0};
  std::memcpy(x, &a, 16);
  std::memcpy(y, &b, 16);
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < 2; j++) {
      uint64_t lo, hi;
      Clmul64(x[i], y[j], &lo, &hi);
      r[i + j] ^= lo;
      r[i + j + 1] ^= hi;
    }
  *r1 = makeBlock(r[1], r[0]);
  *r2 = makeBlock(r[3], r[2]);
}
inline block reduce(block lo, block hi) {
  uint64_t l[2], h[2];
  std::memcpy(l, &lo, 16);
  std::memcpy(h, &hi, 16);
  for (int w = 1; w >= 0; w--) {  // fold hi word w (x^(128+64w))
    const uint64_t v = h[w];
    uint64_t plo, phi;
    Clmul64(v, 0x87, &plo, &phi);
    if (w == 1) {
      l[1] ^= plo;
      h[0] ^= phi;
    } else {
      l[0] ^= plo;
      l[1] ^= phi;
    }
  }
  return makeBlock(l[1], l[0]);
}
inline void gfmul(block a, block b, block* res) {
  block r1, r2;
  mul128(a, b, &r1, &r2);
  *res = reduce(r1, r2);
}
inline void uni_hash_coeff_gen(block* coeff, block seed, int sz) {
  if (sz <= 0) return;
  coeff[0] = seed;
  for (int i = 1; i < sz; i++) gfmul(coeff[i - 1], seed, &coeff[i]);
}
inline void vector_inn_prdt_sum_red(block* res, const block* a, const block* b,
                                    int sz) {
  block r = zero_block;
  for (int i = 0; i < sz; i++) {
    block t;
    gfmul(a[i], b[i], &t);
    r = _mm_xor_si128(r, t);
  }
  *res = r;
}
}  // namespace emp
