#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "yacl/base/exception.h"
namespace yacl {
template <typename Block = uint64_t>
class dynamic_bitset {
 public:
  class reference {
   public:
    reference(dynamic_bitset& b, size_t i) : b_(b), i_(i) {}
    reference& operator=(bool v) { b_.set(i_, v); return *this; }
    reference& operator=(const reference& o) { b_.set(i_, bool(o)); return *this; }
    operator bool() const { return b_.test(i_); }
    reference& operator^=(bool v) { b_.set(i_, b_.test(i_) ^ v); return *this; }
   private:
    dynamic_bitset& b_;
    size_t i_;
  };
  static constexpr size_t kBits = sizeof(Block) * 8;
  dynamic_bitset() = default;
  explicit dynamic_bitset(size_t n) { resize(n); }
  void resize(size_t n, bool v = false) {
    size_t old = n_;
    n_ = n;
    blocks_.resize((n + kBits - 1) / kBits, 0);
    for (size_t i = old; i < n; i++) set(i, v);
  }
  size_t size() const { return n_; }
  bool empty() const { return n_ == 0; }
  size_t num_blocks() const { return blocks_.size(); }
  Block* data() { return blocks_.data(); }
  const Block* data() const { return blocks_.data(); }
  bool test(size_t i) const {
    YACL_ENFORCE(i < n_, "bitset index");
    return ((blocks_[i / kBits] >> (i % kBits)) & 1) != 0;
  }
  bool operator[](size_t i) const { return test(i); }
  reference operator[](size_t i) {
    YACL_ENFORCE(i < n_, "bitset index");
    return reference(*this, i);
  }
  dynamic_bitset& set(size_t i, bool v = true) {
    YACL_ENFORCE(i < n_, "bitset index");
    Block m = static_cast<Block>(1) << (i % kBits);
    if (v) blocks_[i / kBits] |= m; else blocks_[i / kBits] &= ~m;
    return *this;
  }
  void push_back(bool v) { resize(n_ + 1, v); }
  void append(Block b) { size_t o = n_; resize(n_ + kBits); for (size_t i = 0; i < kBits; i++) set(o + i, (b >> i) & 1); }
  size_t count() const { size_t c = 0; for (size_t i = 0; i < n_; i++) c += test(i); return c; }
  dynamic_bitset operator^(const dynamic_bitset& o) const {
    dynamic_bitset r(*this);
    for (size_t i = 0; i < blocks_.size(); i++) r.blocks_[i] ^= o.blocks_[i];
    return r;
  }
  bool operator==(const dynamic_bitset& o) const { return n_ == o.n_ && blocks_ == o.blocks_; }
 private:
  size_t n_ = 0;
  std::vector<Block> blocks_;
};
}  // namespace yacl
