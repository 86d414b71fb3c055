// AES-128 with explicit round keys (AES-NI).
#pragma once
#include <wmmintrin.h>
#include <smmintrin.h>
#include <cstdint>
namespace yacl::crypto {
struct AES_KEY {
  __m128i rd_key[11];
  unsigned int rounds;
};
template <int R>
inline __m128i AesExpand(__m128i k) {
  __m128i t = _mm_shuffle_epi32(_mm_aeskeygenassist_si128(k, R), 0xff);
  k = _mm_xor_si128(k, _mm_slli_si128(k, 4));
  k = _mm_xor_si128(k, _mm_slli_si128(k, 4));
  k = _mm_xor_si128(k, _mm_slli_si128(k, 4));
  return _mm_xor_si128(k, t);
}
inline void AesSetKey(__m128i k, AES_KEY* o) {
  o->rounds = 10;
  o->rd_key[0] = k;
  o->rd_key[1] = k = AesExpand<0x01>(k);
  o->rd_key[2] = k = AesExpand<0x02>(k);
  o->rd_key[3] = k = AesExpand<0x04>(k);
  o->rd_key[4] = k = AesExpand<0x08>(k);
  o->rd_key[5] = k = AesExpand<0x10>(k);
  o->rd_key[6] = k = AesExpand<0x20>(k);
  o->rd_key[7] = k = AesExpand<0x40>(k);
  o->rd_key[8] = k = AesExpand<0x80>(k);
  o->rd_key[9] = k = AesExpand<0x1b>(k);
  o->rd_key[10] = AesExpand<0x36>(k);
}
template <int N>
inline void AES_opt_key_schedule(__m128i* user_key, AES_KEY* keys) {
  for (int i = 0; i < N; i++) AesSetKey(user_key[i], keys + i);
}
template <int numKeys, int numEncs>
inline void ParaEnc(__m128i* blks, AES_KEY* keys) {
  for (int i = 0; i < numKeys; i++)
    for (int j = 0; j < numEncs; j++, blks++) {
      __m128i b = _mm_xor_si128(*blks, keys[i].rd_key[0]);
      for (int r = 1; r < 10; r++) b = _mm_aesenc_si128(b, keys[i].rd_key[r]);
      *blks = _mm_aesenclast_si128(b, keys[i].rd_key[10]);
    }
}
}  // namespace yacl::crypto
