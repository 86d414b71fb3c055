// Declarations only: SEAL is not installed; the homomorphic engine is replaced
// by an ideal functionality (see shim/src/cheetah_ideal.cc).
#pragma once
#include <cstddef>
#include <cstdint>
#include <memory>
#include <array>
namespace seal {
enum class seal_byte : unsigned char {};
class Ciphertext;
class Plaintext;
class SecretKey;
class PublicKey;
class KSwitchKeys;
class GaloisKeys;
class Modulus;
class EncryptionParameters;
class UniformRandomGenerator;
using parms_id_type = std::array<uint64_t, 4>;
constexpr parms_id_type parms_id_zero{};
class SEALContext {
 public:
  class ContextData;
};
namespace util {
uint64_t barrett_reduce_128(const uint64_t*, const Modulus&);
uint64_t barrett_reduce_64(uint64_t, const Modulus&);
}  // namespace util
}  // namespace seal
