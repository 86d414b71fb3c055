// Strided arrays over a buffer with guard elements, and plain reads of them.
#pragma once
#include "mpc.h"

namespace vh {
// A view of random layout: permuted dimensions, gaps, reversed and (if
// allowed) broadcast dimensions, an offset, guard elements around it.
inline spu::NdArrayRef RandView(Rng& g, const spu::Type& ty, const spu::Shape& shape, bool overlap_ok,
                                bool compact_bias = true) {
  const size_t nd = shape.size();
  std::vector<int64_t> st(nd, 0);
  std::vector<size_t> order(nd);
  for (size_t i = 0; i < nd; i++) order[i] = nd - 1 - i;
  int mode = compact_bias && g.chance(30) ? 0 : 1;
  if (mode == 1 && g.chance(50)) {
    for (size_t i = nd; i > 1; i--) std::swap(order[i - 1], order[g.below(i)]);
  }
  int64_t cur = 1;
  if (mode == 1 && g.chance(30)) cur = g.range(2, 3);
  int64_t lo = 0, hi = 0;
  for (size_t d : order) {
    int64_t s = cur;
    if (mode == 1 && overlap_ok && g.chance(15)) {
      s = 0;
    } else {
      cur *= std::max<int64_t>(shape[d], 1);
      if (mode == 1 && g.chance(25)) cur += g.range(1, 3);
    }
    if (mode == 1 && g.chance(15)) s = -s;
    if (mode == 0 && shape[d] == 1) s = 0;
    st[d] = s;
    int64_t span = (shape[d] - 1) * s;
    if (shape[d] > 0) (span < 0 ? lo : hi) += span;
  }
  int64_t front = g.chance(50) ? 0 : g.range(1, 3), back = g.chance(50) ? 0 : g.range(1, 3);
  const auto w = static_cast<int64_t>(ty.size());
  bool empty = false;
  for (auto d : shape) empty |= d == 0;
  int64_t n = empty ? 0 : hi - lo + 1;
  auto buf = std::make_shared<yacl::Buffer>((n + front + back) * w);
  auto* p = buf->data<uint8_t>();
  for (int64_t i = 0; i < (n + front + back) * w; i++) p[i] = static_cast<uint8_t>(g.u64());
  return spu::NdArrayRef(buf, ty, shape, spu::Strides(st.begin(), st.end()), (front - (empty ? 0 : lo)) * w);
}
inline void WriteRing(const spu::NdArrayRef& a, const std::vector<uint128_t>& v) {
  const size_t w = a.elsize();
  const auto& sh = a.shape();
  const auto& st = a.strides();
  std::vector<int64_t> idx(sh.size(), 0);
  auto* base = const_cast<uint8_t*>(static_cast<const uint8_t*>(static_cast<const void*>(a.buf()->data<uint8_t>()))) + a.offset();
  for (size_t k = 0; k < v.size(); k++) {
    int64_t off = 0;
    for (size_t d = 0; d < sh.size(); d++) off += idx[d] * st[d];
    std::memcpy(base + off * static_cast<int64_t>(w), &v[k], std::min<size_t>(w, 16));
    for (int64_t d = static_cast<int64_t>(sh.size()) - 1; d >= 0; d--) {
      if (++idx[d] < sh[d]) break;
      idx[d] = 0;
    }
  }
}
// All bytes of the buffer, with the elements of the view blanked.
inline std::vector<uint8_t> Outside(const spu::NdArrayRef& a) {
  std::vector<uint8_t> r;
  if (!a.buf()) return r;
  const auto* p = static_cast<const uint8_t*>(static_cast<const void*>(a.buf()->data<uint8_t>()));
  r.assign(p, p + a.buf()->size());
  const size_t w = a.elsize();
  const auto& sh = a.shape();
  const auto& st = a.strides();
  std::vector<int64_t> idx(sh.size(), 0);
  for (int64_t k = 0; k < a.numel(); k++) {
    int64_t off = a.offset();
    for (size_t d = 0; d < sh.size(); d++) off += idx[d] * st[d] * static_cast<int64_t>(w);
    std::memset(r.data() + off, 0, w);
    for (int64_t d = static_cast<int64_t>(sh.size()) - 1; d >= 0; d--) {
      if (++idx[d] < sh[d]) break;
      idx[d] = 0;
    }
  }
  return r;
}
inline std::string Layout(const spu::NdArrayRef& a) {
  return fmt::format("{{{} {} st{} off {}}}", a.eltype().toString(), Str(std::vector<int64_t>(a.shape().begin(), a.shape().end())),
                     Str(std::vector<int64_t>(a.strides().begin(), a.strides().end())), a.offset());
}
}  // namespace vh
