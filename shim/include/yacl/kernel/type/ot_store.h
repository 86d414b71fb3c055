#pragma once
#include <array>
#include <cstdint>
#include <vector>
#include "absl/types/span.h"
#include "yacl/base/dynamic_bitset.h"
#include "yacl/base/int128.h"
namespace yacl::crypto {
class OtRecvStore {
 public:
  OtRecvStore() = default;
  OtRecvStore(dynamic_bitset<uint128_t> c, std::vector<uint128_t> b)
      : c_(std::move(c)), b_(std::move(b)) {}
  bool GetChoice(size_t i) const { return c_.test(i); }
  uint128_t GetBlock(size_t i) const { return b_.at(i); }
  size_t Size() const { return b_.size(); }
 private:
  dynamic_bitset<uint128_t> c_;
  std::vector<uint128_t> b_;
};
class OtSendStore {
 public:
  OtSendStore() = default;
  explicit OtSendStore(std::vector<std::array<uint128_t, 2>> b) : b_(std::move(b)) {}
  uint128_t GetBlock(size_t i, size_t k) const { return b_.at(i).at(k); }
  size_t Size() const { return b_.size(); }
 private:
  std::vector<std::array<uint128_t, 2>> b_;
};
inline OtRecvStore MakeOtRecvStore(const dynamic_bitset<uint128_t>& c,
                                   const std::vector<uint128_t>& b) {
  return OtRecvStore(c, b);
}
inline OtSendStore MakeOtSendStore(const std::vector<std::array<uint128_t, 2>>& b) {
  return OtSendStore(b);
}
}  // namespace yacl::crypto
