// C01: strided array views. Every view operation is mirrored on a model in
// which an array is a row-major list of element identities of a store; after
// every step all arrays sharing the store are re-read through every accessor.
#include <numeric>

#include "mpc.h"

#include "libspu/core/pt_buffer_view.h"
#include "libspu/core/type_util.h"
#include "libspu/mpc/aby3/type.h"
#include "libspu/mpc/common/pv2k.h"
using namespace spu;
using namespace vh;

namespace {
using Ids = std::vector<int64_t>;
using I64 = std::vector<int64_t>;

int64_t Numel(const I64& s) {
  int64_t n = 1;
  for (auto d : s) n *= d;
  return n;
}
bool Next(const I64& shape, I64& idx) {
  for (int64_t d = static_cast<int64_t>(shape.size()) - 1; d >= 0; d--) {
    if (++idx[d] < shape[d]) return true;
    idx[d] = 0;
  }
  return false;
}
int64_t Flat(const I64& shape, const I64& idx) {
  int64_t f = 0;
  for (size_t d = 0; d < shape.size(); d++) f = f * shape[d] + idx[d];
  return f;
}

struct Store {
  std::vector<std::string> elems;  // current value of every element
};
struct Arr {
  NdArrayRef ref;
  int store;
  Ids ids;
  I64 shape() const { return I64(ref.shape().begin(), ref.shape().end()); }
};

struct Sim {
  Case& c;
  Rng& g;
  Type ty;
  size_t w;
  std::vector<Store> stores;
  std::vector<Arr> arrs;
  std::string log;
  bool failed = false;
  uint64_t n = 0;

  explicit Sim(Case& cc) : c(cc), g(cc.rng) {
    switch (g.below(12)) {
      case 0: ty = makePtType(PT_U8); break;
      case 1: ty = makePtType(PT_I16); break;
      case 2: ty = makePtType(PT_F32); break;
      case 3: ty = makePtType(PT_I64); break;
      case 4: ty = makePtType(PT_I128); break;
      case 5: ty = makeType<RingTy>(FM32); break;
      case 6: ty = makeType<RingTy>(FM64); break;
      case 7: ty = makeType<RingTy>(FM128); break;
      case 8: ty = makeType<mpc::aby3::AShrTy>(FM32); break;
      case 9: ty = makeType<mpc::aby3::AShrTy>(FM128); break;
      case 10: ty = makeType<mpc::aby3::BShrTy>(PT_U16, 9); break;
      default: ty = makeType<mpc::aby3::AShrTy>(FM64); break;
    }
    w = ty.size();
  }
  std::string RandElem() {
    std::string s(w, 0);
    for (auto& ch : s) ch = static_cast<char>(g.u64());
    return s;
  }
  void Bad(const std::string& key, const std::string& msg) {
    if (failed) return;
    failed = true;
    Fail(c, "view:" + key, msg + " after " + log);
  }
  // Checks one array through every accessor.
  void Check(const Arr& a, const std::string& op) {
    const auto& r = a.ref;
    const auto& st = stores[a.store].elems;
    const int64_t num = static_cast<int64_t>(a.ids.size());
    if (r.numel() != num || r.elsize() != w) return Bad(op + ":numel", fmt::format("numel {} want {}", r.numel(), num));
    auto want = [&](int64_t k) { return std::string_view(st[a.ids[k]]); };
    auto eq = [&](const void* p, int64_t k) { return std::memcmp(p, want(k).data(), w) == 0; };
    I64 shape = a.shape();
    I64 idx(shape.size(), 0);
    for (int64_t k = 0; k < num; k++) {
      Index ix(idx.begin(), idx.end());
      if (!eq(&r.at(ix), k)) return Bad(op + ":at_index", fmt::format("element {} of {}", Str(idx), Str(shape)));
      if (!eq(&r.at(k), k)) return Bad(op + ":at_flat", fmt::format("element {} of {} strides {}", k, Str(shape), Str(r.strides())));
      Next(shape, idx);
    }
    auto it = r.cbegin();
    auto e = r.cend();
    int64_t k = 0;
    for (; it != e && k < num; ++it, ++k) {
      if (!eq(it.getRawPtr(), k) || !eq(&*it, k)) return Bad(op + ":iterator", fmt::format("element {} of {} strides {}", k, Str(shape), Str(r.strides())));
    }
    if (k != num || it != e) return Bad(op + ":iterator_end", fmt::format("iterated {} of {}", k, num));
    if (num > 0) {
      // an iterator in the middle
      int64_t s = g.below(num);
      NdArrayRef::Iterator m(r, s);
      for (int64_t q = s; q < num; ++q) {
        if (m == e || !eq(&*m, q)) return Bad(op + ":iterator_from", fmt::format("element {} from {}", q, s));
        if (q & 1) m++; else ++m;
      }
      if (m != e) return Bad(op + ":iterator_from_end", "");
    }
    CheckView(a, op);
    if (r.isCompact()) {
      const auto* p = static_cast<const std::byte*>(r.data());
      for (int64_t q = 0; q < num; q++) {
        if (!eq(p + q * w, q)) return Bad(op + ":iscompact", fmt::format("reported compact but element {} is not at {}", q, q));
      }
      Count("compact arrays", num > 1);
    }
    n += num;
  }
  template <typename T>
  void CheckViewT(const Arr& a, const std::string& op) {
    NdArrayView<T> v(a.ref);
    const auto& st = stores[a.store].elems;
    for (size_t k = 0; k < a.ids.size(); k++) {
      if (std::memcmp(&v[k], st[a.ids[k]].data(), w) != 0) return Bad(op + ":view", fmt::format("element {} strides {}", k, Str(a.ref.strides())));
    }
  }
  void CheckView(const Arr& a, const std::string& op) {
    switch (w) {
      case 1: return CheckViewT<uint8_t>(a, op);
      case 2: return CheckViewT<uint16_t>(a, op);
      case 4: return CheckViewT<uint32_t>(a, op);
      case 8: return CheckViewT<uint64_t>(a, op);
      case 16: return CheckViewT<std::array<uint64_t, 2>>(a, op);
      case 32: return CheckViewT<std::array<uint64_t, 4>>(a, op);
    }
  }
  void CheckStore(int s, const std::string& op) {
    for (auto& a : arrs) {
      if (a.store == s) Check(a, op);
    }
  }
  I64 RandDims(int max_rank, int64_t max_numel) {
    Shape s = RandShape(g, max_rank, max_numel);
    return I64(s.begin(), s.end());
  }
  static Shape ToShape(const I64& v) { return Shape(v.begin(), v.end()); }

  void NewBase() {
    I64 shape = RandDims(4, 120);
    int64_t num = Numel(shape);
    stores.push_back({});
    auto& st = stores.back().elems;
    for (int64_t k = 0; k < num; k++) st.push_back(RandElem());
    Arr a;
    a.store = static_cast<int>(stores.size()) - 1;
    a.ids.resize(num);
    std::iota(a.ids.begin(), a.ids.end(), 0);
    if (g.chance(50)) {
      a.ref = NdArrayRef(ty, ToShape(shape));
      auto* p = static_cast<char*>(a.ref.data());
      for (int64_t k = 0; k < num; k++) std::memcpy(p + k * w, st[k].data(), w);
      log += fmt::format(" a{}=new{}", arrs.size(), Str(shape));
    } else {
      // own strides over an exactly sized buffer: permuted dims, gaps, signs
      size_t r = shape.size();
      std::vector<size_t> order(r);
      std::iota(order.begin(), order.end(), 0);
      for (size_t i = r; i > 1; i--) std::swap(order[i - 1], order[g.below(i)]);
      I64 str(r, 0);
      int64_t span = 1, base = 0;
      for (auto d : order) {
        if (shape[d] == 1 && g.chance(90)) continue;
        int64_t s = span + (g.chance(30) ? g.range(0, 2) : 0);
        if (shape[d] == 1) { str[d] = 0; continue; }
        str[d] = s;
        span = s * std::max<int64_t>(shape[d] - 1, 0) + span;
        if (g.chance(20)) {
          base += s * std::max<int64_t>(shape[d] - 1, 0);
          str[d] = -s;
        }
      }
      int64_t lead = g.chance(30) ? g.range(0, 3) : 0;
      auto buf = std::make_shared<yacl::Buffer>(static_cast<int64_t>((lead + (num ? span : 0)) * w));
      a.ref = NdArrayRef(buf, ty, ToShape(shape), Strides(str.begin(), str.end()), (lead + (num ? base : 0)) * static_cast<int64_t>(w));
      I64 idx(r, 0);
      for (int64_t k = 0; k < num; k++) {
        int64_t off = lead + base;
        for (size_t d = 0; d < r; d++) off += idx[d] * str[d];
        std::memcpy(buf->data<char>() + off * w, st[k].data(), w);
        Next(shape, idx);
      }
      log += fmt::format(" a{}=strided{}/{}", arrs.size(), Str(shape), Str(str));
    }
    arrs.push_back(std::move(a));
    Check(arrs.back(), "new");
  }
  // A result that is, or is not, allowed to share memory with its source.
  enum Share { kView, kCopy, kEither };
  void Push(NdArrayRef r, const Arr& src, const I64& shape, const Ids& ids, Share sh, const std::string& op,
            const std::string& text, const std::vector<std::string>* fresh = nullptr) {
    log += fmt::format(" a{}={}", arrs.size(), text);
    if (r.eltype() != ty) return Bad(op + ":eltype", "element type changed");
    if (I64(r.shape().begin(), r.shape().end()) != shape) return Bad(op + ":shape", fmt::format("{} want {}", Str(r.shape()), Str(shape)));
    bool shares = r.buf() == src.ref.buf();
    if (sh == kView && !shares && !ids.empty()) return Bad(op + ":copied", "documented as a view but copied");
    if (sh == kCopy && shares) return Bad(op + ":aliased", "documented as a copy but shares memory");
    Arr a;
    a.ref = std::move(r);
    if (shares && sh != kCopy) {
      a.store = src.store;
      a.ids = ids;
    } else {
      stores.push_back({});
      a.store = static_cast<int>(stores.size()) - 1;
      a.ids.resize(ids.size());
      std::iota(a.ids.begin(), a.ids.end(), 0);
      for (size_t k = 0; k < ids.size(); k++) stores.back().elems.push_back(fresh ? (*fresh)[k] : stores[src.store].elems[ids[k]]);
    }
    arrs.push_back(std::move(a));
    Check(arrs.back(), op);
    Count("view operations");
    Cover(fmt::format("{}/{}/{}{}", op, w, shape.size(), arrs.back().ref.canUseFastIndexing() ? "f" : "s"));
  }
  std::string Val(const Arr& a, int64_t k) { return stores[a.store].elems[a.ids[k]]; }
  bool Injective(const Arr& a) {
    Ids s = a.ids;
    std::sort(s.begin(), s.end());
    return std::adjacent_find(s.begin(), s.end()) == s.end();
  }

  void Step() {
    const size_t ai = g.below(arrs.size());
    Arr a = arrs[ai];
    const I64 shape = a.shape();
    const size_t r = shape.size();
    const int64_t num = static_cast<int64_t>(a.ids.size());
    switch (g.below(18)) {
      case 0: {  // slice
        Index s(r), e(r);
        Strides st(r);
        I64 ns(r);
        bool unit = g.chance(30);
        for (size_t d = 0; d < r; d++) {
          s[d] = shape[d] == 0 ? 0 : g.below(shape[d]);
          e[d] = s[d] + g.below(shape[d] - s[d] + 1);
          st[d] = unit ? 1 : g.range(1, 5);
          ns[d] = (e[d] - s[d] + st[d] - 1) / st[d];
        }
        Ids ids;
        I64 idx(r, 0);
        for (int64_t k = 0, m = Numel(ns); k < m; k++) {
          I64 src(r);
          for (size_t d = 0; d < r; d++) src[d] = s[d] + idx[d] * st[d];
          ids.push_back(a.ids[Flat(shape, src)]);
          Next(ns, idx);
        }
        auto t = fmt::format("slice(a{},{},{},{})", ai, Str(s), Str(e), Str(st));
        if (num == 0) return;  // forms a pointer to a start element
        Push(a.ref.slice(s, e, unit && g.chance(50) ? Strides{} : st), a, ns, ids, kView, "slice", t);
        return;
      }
      case 1: {  // transpose
        Axes p(r);
        std::iota(p.begin(), p.end(), 0);
        for (size_t i = r; i > 1; i--) std::swap(p[i - 1], p[g.below(i)]);
        bool rev = g.chance(30);
        if (rev) {
          for (size_t i = 0; i < r; i++) p[i] = r - 1 - i;
        }
        I64 ns(r);
        for (size_t d = 0; d < r; d++) ns[d] = shape[p[d]];
        Ids ids;
        I64 idx(r, 0);
        for (int64_t k = 0; k < num; k++) {
          I64 src(r);
          for (size_t d = 0; d < r; d++) src[p[d]] = idx[d];
          ids.push_back(a.ids[Flat(shape, src)]);
          Next(ns, idx);
        }
        Push(rev ? a.ref.transpose() : a.ref.transpose(p), a, ns, ids, kView, "transpose", fmt::format("transpose(a{},{})", ai, Str(p)));
        return;
      }
      case 2: {  // reverse
        Axes dims;
        for (size_t d = 0; d < r; d++) {
          if (g.chance(50) && shape[d] > 0) dims.push_back(d);
        }
        Ids ids;
        I64 idx(r, 0);
        for (int64_t k = 0; k < num; k++) {
          I64 src = idx;
          for (auto d : dims) src[d] = shape[d] - 1 - src[d];
          ids.push_back(a.ids[Flat(shape, src)]);
          Next(shape, idx);
        }
        Push(a.ref.reverse(dims), a, shape, ids, kView, "reverse", fmt::format("reverse(a{},{})", ai, Str(dims)));
        return;
      }
      case 3: {  // broadcast
        if (r > 0 && g.chance(15)) {  // to a lower rank: only leading unit dimensions can go
          size_t drop = g.range(1, r);
          bool unit = true;
          for (size_t d = 0; d < drop; d++) unit &= shape[d] == 1;
          I64 low(shape.begin() + drop, shape.end());
          if (unit) {
            Push(a.ref.broadcast_to(ToShape(low), {}), a, low, a.ids, kView, "broadcast_to", fmt::format("broadcast_to(a{},{})", ai, Str(low)));
          } else {
            try {
              a.ref.broadcast_to(ToShape(low), {});
              Bad("broadcast_to:rank", fmt::format("{} to {} accepted", Str(shape), Str(low)));
            } catch (const std::exception&) {
              Count("invalid views refused");
            }
          }
          return;
        }
        int64_t extra = g.below(3);
        size_t nr = r + extra;
        if (nr > 6) return;
        Axes in;
        bool implicit = g.chance(40);
        if (implicit) {
          for (size_t d = 0; d < r; d++) in.push_back(extra + d);
        } else {
          std::vector<int64_t> all(nr);
          std::iota(all.begin(), all.end(), 0);
          for (size_t i = nr; i > 1; i--) std::swap(all[i - 1], all[g.below(i)]);
          all.resize(r);
          if (g.chance(70)) std::sort(all.begin(), all.end());
          in.assign(all.begin(), all.end());
        }
        I64 ns(nr);
        std::vector<int> from(nr, -1);
        for (size_t d = 0; d < r; d++) from[in[d]] = static_cast<int>(d);
        for (size_t q = 0; q < nr; q++) {
          if (from[q] >= 0 && shape[from[q]] != 1) ns[q] = shape[from[q]];
          else ns[q] = g.chance(20) ? 1 : g.range(1, 4);
        }
        if (Numel(ns) > 2000) return;
        Ids ids;
        I64 idx(nr, 0);
        for (int64_t k = 0, m = Numel(ns); k < m; k++) {
          I64 src(r);
          for (size_t d = 0; d < r; d++) src[d] = shape[d] == 1 ? 0 : idx[in[d]];
          ids.push_back(a.ids[Flat(shape, src)]);
          Next(ns, idx);
        }
        Push(a.ref.broadcast_to(ToShape(ns), implicit ? Axes{} : in), a, ns, ids, kView, "broadcast_to",
             fmt::format("broadcast_to(a{},{},{})", ai, Str(ns), implicit ? "" : Str(in)));
        return;
      }
      case 4:
      case 5: {  // reshape
        I64 ns;
        if (num == 0) {
          ns = {0};
          if (g.chance(50)) ns = {g.range(0, 3), 0};
        } else {
          int64_t rest = num;
          while (rest > 1 && ns.size() < 5) {
            std::vector<int64_t> div;
            for (int64_t q = 1; q <= rest; q++) {
              if (rest % q == 0) div.push_back(q);
            }
            int64_t q = g.pick(div);
            ns.push_back(q);
            rest /= q;
          }
          if (rest > 1) ns.push_back(rest);
          while (g.chance(30)) ns.insert(ns.begin() + g.below(ns.size() + 1), 1);
        }
        Push(a.ref.reshape(ToShape(ns)), a, ns, a.ids, kEither, "reshape", fmt::format("reshape(a{},{})", ai, Str(ns)));
        return;
      }
      case 6: {  // clone
        auto q = a.ref.clone();
        if (!q.isCompact() && num > 1) return Bad("clone:compact", "clone is not compact");
        Push(q, a, shape, a.ids, kCopy, "clone", fmt::format("clone(a{})", ai));
        return;
      }
      case 7: {  // expand a scalar
        if (num != 1) return;
        I64 ns = RandDims(3, 60);
        Ids ids(Numel(ns), a.ids[0]);
        log += fmt::format(" [expand(a{},{})]", ai, Str(ns));
        Push(a.ref.expand(ToShape(ns)), a, ns, ids, kCopy, "expand", fmt::format("expand(a{},{})", ai, Str(ns)));
        return;
      }
      case 8: {  // concatenate with arrays equal outside one axis
        if (r == 0) return;
        int64_t axis = g.below(r);
        std::vector<size_t> os;
        for (int t = 0; t < 6; t++) {
          size_t oi = g.below(arrs.size());
          I64 s = arrs[oi].shape();
          if (s.size() != r) continue;
          bool ok = true;
          for (size_t d = 0; d < r; d++) ok &= d == static_cast<size_t>(axis) || s[d] == shape[d];
          if (ok && os.size() < 3) os.push_back(oi);
        }
        if (os.empty()) os.push_back(ai);
        I64 ns = shape;
        std::vector<NdArrayRef> others;
        std::vector<const Arr*> parts = {&a};
        for (auto o : os) {
          ns[axis] += arrs[o].shape()[axis];
          others.push_back(arrs[o].ref);
          parts.push_back(&arrs[o]);
        }
        if (Numel(ns) > 2000) return;
        std::vector<std::string> fresh(Numel(ns));
        int64_t at = 0;
        for (auto* p : parts) {
          I64 s = p->shape();
          I64 idx(r, 0);
          for (size_t k = 0; k < p->ids.size(); k++) {
            I64 dst = idx;
            dst[axis] += at;
            fresh[Flat(ns, dst)] = Val(*p, k);
            Next(s, idx);
          }
          at += s[axis];
        }
        Ids ids(fresh.size(), 0);
        if (Numel(ns) == 0) return;
        Push(a.ref.concatenate(others, axis), a, ns, ids, kCopy, "concatenate", fmt::format("concatenate(a{},{},axis={})", ai, Str(os), axis), &fresh);
        return;
      }
      case 9: {  // pad
        Sizes lo(r), hi(r), in(r);
        I64 ns(r);
        for (size_t d = 0; d < r; d++) {
          lo[d] = g.chance(70) ? g.range(-2, 3) : g.range(-6, 5);
          hi[d] = g.chance(70) ? g.range(-2, 3) : g.range(-6, 5);
          in[d] = g.chance(50) ? 0 : g.range(0, 3);
          int64_t full = shape[d] + in[d] * std::max<int64_t>(shape[d] - 1, 0);
          if (full + lo[d] + hi[d] < 0) { lo[d] = 0; hi[d] = 0; }
          ns[d] = full + lo[d] + hi[d];
        }
        if (Numel(ns) > 2000) return;
        NdArrayRef pv(ty, {});
        std::string pe = RandElem();
        std::memcpy(pv.data(), pe.data(), w);
        std::vector<std::string> fresh(Numel(ns), pe);
        I64 idx(r, 0);
        for (int64_t k = 0; k < num; k++) {
          I64 dst(r);
          bool ok = true;
          for (size_t d = 0; d < r; d++) {
            dst[d] = lo[d] + idx[d] * (in[d] + 1);
            ok &= dst[d] >= 0 && dst[d] < ns[d];
          }
          if (ok) fresh[Flat(ns, dst)] = Val(a, k);
          Next(shape, idx);
        }
        Ids ids(fresh.size(), 0);
        log += fmt::format(" [pad(a{} {},{},{},{})]", ai, Str(shape), Str(lo), Str(hi), Str(in));
        Push(a.ref.pad(pv, lo, hi, in), a, ns, ids, kCopy, "pad", fmt::format("pad(a{},{},{},{})", ai, Str(lo), Str(hi), Str(in)), &fresh);
        return;
      }
      case 10: {  // linear gather
        if (r != 1 || num == 0) return;
        Index ix(g.below(12));
        Ids ids;
        for (auto& x : ix) {
          x = g.below(num);
          ids.push_back(a.ids[x]);
        }
        Push(a.ref.linear_gather(ix), a, {static_cast<int64_t>(ix.size())}, ids, kCopy, "linear_gather", fmt::format("gather(a{},{})", ai, Str(ix)));
        return;
      }
      case 11: {  // scalar view
        if (num == 0) return;
        I64 idx(r);
        for (size_t d = 0; d < r; d++) idx[d] = g.below(shape[d]);
        Push(a.ref.slice_scalar_at(Index(idx.begin(), idx.end())), a, {}, {a.ids[Flat(shape, idx)]}, kView, "slice_scalar_at", fmt::format("scalar(a{},{})", ai, Str(idx)));
        return;
      }
      // ---- writes ----
      case 12: {  // element writes through views
        if (num == 0) return;
        int64_t k = g.below(num);
        std::string v = RandElem();
        I64 idx(r, 0);
        for (int64_t q = 0; q < k; q++) Next(shape, idx);
        auto& ref = arrs[ai].ref;
        int how = g.below(3);
        if (how == 0) std::memcpy(&ref.at(k), v.data(), w);
        if (how == 1) std::memcpy(&ref.at(Index(idx.begin(), idx.end())), v.data(), w);
        if (how == 2) {
          NdArrayRef::Iterator it(ref, Index(idx.begin(), idx.end()));
          std::memcpy(&*it, v.data(), w);
        }
        stores[a.store].elems[a.ids[k]] = v;
        log += fmt::format(" write{}(a{},{})", how, ai, k);
        CheckStore(a.store, "write");
        Count("writes");
        return;
      }
      case 13: {  // linear scatter
        if (r != 1 || num == 0) return;
        size_t m = g.below(num) + 1;
        NdArrayRef nv(ty, {static_cast<int64_t>(m)});
        Index ix(m);
        std::vector<std::string> vals;
        for (size_t q = 0; q < m; q++) {
          ix[q] = g.below(num);
          vals.push_back(RandElem());
          std::memcpy(static_cast<char*>(nv.data()) + q * w, vals.back().data(), w);
        }
        if (g.chance(40)) {  // values through a reversed view
          nv = nv.reverse({0});
          std::reverse(vals.begin(), vals.end());
        }
        log += fmt::format(" scatter(a{},{})", ai, Str(ix));
        arrs[ai].ref.linear_scatter(nv, ix);
        for (size_t q = 0; q < m; q++) stores[a.store].elems[a.ids[ix[q]]] = vals[q];
        CheckStore(a.store, "linear_scatter");
        Count("writes");
        return;
      }
      case 14:
      case 15: {  // update_slice
        if (num == 0) return;
        I64 start(r), ns(r);
        for (size_t d = 0; d < r; d++) {
          start[d] = g.below(shape[d]);
          ns[d] = 1 + g.below(shape[d] - start[d]);
          if (g.chance(3)) ns[d] = 0;
        }
        NdArrayRef nv(ty, ToShape(ns));
        std::vector<std::string> vals;
        for (int64_t q = 0, m = Numel(ns); q < m; q++) {
          vals.push_back(RandElem());
          std::memcpy(static_cast<char*>(nv.data()) + q * w, vals.back().data(), w);
        }
        if (g.chance(40) && r > 0 && Numel(ns) > 0) {
          nv = nv.transpose().clone().transpose();
        }
        // an array with repeated elements is first given memory of its own
        bool dup = false;
        for (size_t d = 0; d < r; d++) dup |= shape[d] != 1 && a.ref.strides()[d] == 0;
        log += fmt::format(" update_slice(a{},{}@{})", ai, Str(ns), Str(start));
        arrs[ai].ref.update_slice(nv, Index(start.begin(), start.end()));
        Arr& t = arrs[ai];
        if (dup && Numel(ns) > 0) {
          if (t.ref.buf() == a.ref.buf()) return Bad("update_slice:broadcast", "wrote into a broadcast array in place");
          stores.push_back({});
          for (int64_t k = 0; k < num; k++) stores.back().elems.push_back(Val(a, k));
          t.store = static_cast<int>(stores.size()) - 1;
          std::iota(t.ids.begin(), t.ids.end(), 0);
        }
        I64 idx(r, 0);
        for (size_t q = 0; q < vals.size(); q++) {
          I64 dst(r);
          for (size_t d = 0; d < r; d++) dst[d] = start[d] + idx[d];
          stores[t.store].elems[t.ids[Flat(shape, dst)]] = vals[q];
          Next(ns, idx);
        }
        CheckStore(t.store, "update_slice");
        CheckStore(a.store, "update_slice:others");
        Count("writes");
        return;
      }
      case 16: {  // copy_slice: a row-major run of elements into another array
        size_t bi = g.below(arrs.size());
        Arr b = arrs[bi];
        if (num == 0 || b.ids.empty() || a.store == b.store || !Injective(b)) return;
        int64_t sa = g.below(num), sb = g.below(b.ids.size());
        int64_t m = g.below(std::min<int64_t>(num - sa, static_cast<int64_t>(b.ids.size()) - sb) + 1);
        auto unf = [](const I64& s, int64_t k) {
          I64 i(s.size(), 0);
          for (int64_t q = 0; q < k; q++) Next(s, i);
          return Index(i.begin(), i.end());
        };
        log += fmt::format(" copy_slice(a{}<-a{},{},{},{})", bi, ai, sa, sb, m);
        arrs[bi].ref.copy_slice(a.ref, unf(shape, sa), unf(b.shape(), sb), m);
        for (int64_t q = 0; q < m; q++) stores[b.store].elems[b.ids[sb + q]] = Val(a, sa + q);
        CheckStore(b.store, "copy_slice");
        Count("writes");
        return;
      }
      case 17: {  // views as another element type
        if (num == 0) return;
        if (w <= 16) {
          auto q = a.ref.as(w == 1   ? makePtType(PT_I8)
                            : w == 2 ? makePtType(PT_U16)
                            : w == 4 ? makePtType(PT_I32)
                            : w == 8 ? makePtType(PT_U64)
                                     : makePtType(PT_U128));
          for (int64_t k = 0; k < num; k++) {
            if (std::memcmp(&q.at(k), Val(a, k).data(), w) != 0) return Bad("as", fmt::format("element {}", k));
          }
        }
        if (w >= 8 && r > 0) {  // the first half of every element
          auto nt = w == 8 ? makeType<RingTy>(FM32) : w == 16 ? makeType<RingTy>(FM64) : makeType<RingTy>(FM128);
          auto q = a.ref.as(nt, true);
          if (q.numel() != num || q.elsize() != w / 2) return Bad("as:force", "shape");
          I64 idx(r, 0);
          for (int64_t k = 0; k < num; k++) {
            if (std::memcmp(&q.at(Index(idx.begin(), idx.end())), Val(a, k).data(), w / 2) != 0) return Bad("as:force", fmt::format("element {}", k));
            if (std::memcmp(&q.at(k), Val(a, k).data(), w / 2) != 0) return Bad("as:force", fmt::format("flat element {}", k));
            Next(shape, idx);
          }
        }
        Count("retyped views");
        return;
      }
    }
  }
};

void Views(Case& c) {
  Sim s(c);
  s.NewBase();
  int len = static_cast<int>(c.rng.range(6, 26));
  for (int i = 0; i < len && !s.failed; i++) {
    if (c.rng.chance(8)) s.NewBase();
    else s.Step();
    Describe(c, s.log);
    if (s.arrs.size() > 14) s.arrs.erase(s.arrs.begin() + c.rng.below(s.arrs.size()));
  }
  Count("element reads compared", s.n);
}

void Helpers(Case& c) {
  auto& g = c.rng;
  Shape sh = RandShape(g, 5, 400, false);
  I64 shape(sh.begin(), sh.end());
  Describe(c, Str(shape));
  const int64_t num = Numel(shape);
  if (sh.numel() != num || sh.ndim() != static_cast<int64_t>(shape.size()) || sh.isEmpty() || sh.isScalar() != shape.empty())
    return Fail(c, "shape:queries", Str(shape));
  auto cs = makeCompactStrides(sh);
  I64 idx(shape.size(), 0), bumped(shape.size(), 0);
  for (int64_t k = 0; k < num; k++) {
    Index ix(idx.begin(), idx.end());
    if (!ix.inBounds(sh)) return Fail(c, "shape:inBounds", Str(idx));
    if (flattenIndex(ix, sh) != k) return Fail(c, "shape:flattenIndex", fmt::format("{} of {}", Str(idx), Str(shape)));
    if (unflattenIndex(k, sh) != ix) return Fail(c, "shape:unflattenIndex", fmt::format("{} of {}", k, Str(shape)));
    if (static_cast<int64_t>(calcFlattenOffset(ix, sh, cs)) != k) return Fail(c, "shape:compactStrides", fmt::format("{} of {}", Str(idx), Str(shape)));
    if (static_cast<int64_t>(calcFlattenOffset(ix, sh, {})) != k) return Fail(c, "shape:defaultStrides", fmt::format("{} of {}", Str(idx), Str(shape)));
    if (bumped != idx) return Fail(c, "shape:bumpIndices", fmt::format("{} want {}", Str(bumped), Str(idx)));
    bool more = bumpIndices(sh, absl::MakeSpan(bumped));
    if (more != (k + 1 < num)) return Fail(c, "shape:bumpIndices_end", fmt::format("{} of {}", k, Str(shape)));
    Next(shape, idx);
  }
  for (int t = 0; t < 4 && !shape.empty(); t++) {
    Index ix(shape.size());
    bool in = true;
    for (size_t d = 0; d < shape.size(); d++) {
      ix[d] = g.range(-2, shape[d] + 1);
      in &= ix[d] >= 0 && ix[d] < shape[d];
    }
    if (ix.inBounds(sh) != in) return Fail(c, "shape:inBounds", fmt::format("{} in {}", Str(ix), Str(shape)));
    Index longer = ix;
    longer.push_back(0);
    if (longer.inBounds(sh)) return Fail(c, "shape:inBounds_rank", Str(longer));
  }
  for (size_t d = 0; d < shape.size(); d++) {
    Shape e = sh;
    e[d] = 0;
    if (!e.isEmpty() || e.numel() != 0) return Fail(c, "shape:isEmpty", Str(e));
  }
  Count("shapes", 1);
  Count("indices", num);
  Cover(fmt::format("shape/{}", Str(shape)));
}

template <typename T>
void PtView(Case& c, PtType pt) {
  auto& g = c.rng;
  Shape sh = RandShape(g, 4, 200);
  I64 shape(sh.begin(), sh.end());
  int64_t num = Numel(shape);
  size_t r = shape.size();
  I64 str(r, 0);
  int64_t span = 1, base = 0;
  bool gaps = g.chance(60);
  std::vector<size_t> order(r);
  std::iota(order.rbegin(), order.rend(), 0);
  if (g.chance(50)) {
    for (size_t i = r; i > 1; i--) std::swap(order[i - 1], order[g.below(i)]);
  }
  for (auto d : order) {
    if (shape[d] == 1) { str[d] = g.chance(30) ? span : 0; continue; }
    if (gaps && g.chance(15)) { str[d] = 0; continue; }
    int64_t s = span + (gaps ? g.range(0, 2) : 0);
    str[d] = s;
    span = s * std::max<int64_t>(shape[d] - 1, 0) + span;
    if (gaps && g.chance(20)) {
      base += s * std::max<int64_t>(shape[d] - 1, 0);
      str[d] = -s;
    }
  }
  if (num == 0) span = base = 0;
  Describe(c, fmt::format("pt {} {} strides {}", static_cast<int>(pt), Str(shape), Str(str)));
  std::unique_ptr<T[]> p(new T[std::max<int64_t>(span, 1)]);
  for (int64_t k = 0; k < span; k++) {
    uint128_t q = g.u128();
    if constexpr (std::is_same_v<T, bool>) p[k] = q & 1;
    else std::memcpy(static_cast<void*>(&p[k]), &q, sizeof(T));
  }
  PtBufferView bv(p.get() + base, pt, sh, Strides(str.begin(), str.end()));
  auto a = convertToNdArray(bv);
  if (a.shape() != sh || a.eltype() != makePtType(pt)) return Fail(c, "ptview:type", c.desc);
  I64 idx(r, 0);
  for (int64_t k = 0; k < num; k++) {
    int64_t off = base;
    for (size_t d = 0; d < r; d++) off += idx[d] * str[d];
    Index ix(idx.begin(), idx.end());
    if (std::memcmp(&bv.get<T>(ix), &p[off], sizeof(T)) != 0) return Fail(c, "ptview:get_index", fmt::format("{}", Str(idx)));
    if (std::memcmp(&bv.get<T>(static_cast<size_t>(k)), &p[off], sizeof(T)) != 0) return Fail(c, "ptview:get_flat", fmt::format("{}", k));
    if (std::memcmp(&a.at(k), &p[off], sizeof(T)) != 0) return Fail(c, "ptview:convert", fmt::format("{}", k));
    Next(shape, idx);
  }
  // writes through the view, without aliasing strides
  bool alias = false;
  for (size_t d = 0; d < r; d++) alias |= shape[d] != 1 && str[d] == 0;
  if (num > 0 && !alias) {
    std::vector<T> exp(p.get(), p.get() + span);
    I64 q(r, 0);
    for (int64_t k = 0; k < num; k++) {
      int64_t off = base;
      for (size_t d = 0; d < r; d++) off += q[d] * str[d];
      T v{};
      uint128_t x = g.u128();
      if constexpr (std::is_same_v<T, bool>) v = x & 1;
      else std::memcpy(static_cast<void*>(&v), &x, sizeof(T));
      if (g.chance(50)) bv.set<T>(static_cast<size_t>(k), v);
      else bv.set<T>(Index(q.begin(), q.end()), v);
      T got = p[off];
      if (std::memcmp(&got, &v, sizeof(T)) != 0) return Fail(c, "ptview:set", fmt::format("{}", k));
      exp[off] = v;
      Next(shape, q);
    }
    for (int64_t k = 0; k < span; k++) {
      T e = exp[k];
      if (std::memcmp(&e, &p[k], sizeof(T)) != 0) return Fail(c, "ptview:set_stray", fmt::format("{}", k));
    }
  }
  Count("buffer views");
  Cover(fmt::format("pt/{}/{}/{}", static_cast<int>(pt), r, bv.isCompact()));
}

void PtViews(Case& c) {
  switch (c.rng.below(14)) {
    case 0: return PtView<int8_t>(c, PT_I8);
    case 1: return PtView<uint8_t>(c, PT_U8);
    case 2: return PtView<int16_t>(c, PT_I16);
    case 3: return PtView<uint16_t>(c, PT_U16);
    case 4: return PtView<int32_t>(c, PT_I32);
    case 5: return PtView<uint32_t>(c, PT_U32);
    case 6: return PtView<int64_t>(c, PT_I64);
    case 7: return PtView<uint64_t>(c, PT_U64);
    case 8: return PtView<float>(c, PT_F32);
    case 9: return PtView<double>(c, PT_F64);
    case 10: return PtView<int64_t>(c, PT_I64);
    case 11: return PtView<bool>(c, PT_I1);
    case 12: {
      // packed bits
      auto& g = c.rng;
      Shape sh = RandShape(g, 3, 150);
      int64_t num = sh.numel();
      std::vector<uint8_t> bits((num + 7) / 8);
      for (auto& b : bits) b = g.u64();
      std::unique_ptr<uint8_t[]> p(new uint8_t[std::max<size_t>(bits.size(), 1)]);
      std::copy(bits.begin(), bits.end(), p.get());
      Describe(c, fmt::format("bitset {}", Str(sh)));
      PtBufferView bv(p.get(), PT_I1, sh, makeCompactStrides(sh), true);
      auto a = convertToNdArray(bv);
      for (int64_t k = 0; k < num; k++) {
        bool want = (bits[k / 8] >> (k % 8)) & 1;
        if (bv.getBit(k) != want || a.at<bool>(k) != want) return Fail(c, "ptview:bitset", fmt::format("{}", k));
      }
      Count("buffer views");
      Cover(fmt::format("pt/bitset/{}", num % 8));
      return;
    }
    default: {
      // scalars and containers
      auto& g = c.rng;
      float f = g.real();
      int64_t i = g.u64();
      bool b = g.chance(50);
      std::vector<int32_t> v(g.below(9));
      for (auto& x : v) x = g.u64();
      if (convertToNdArray(PtBufferView(f)).at<float>(0) != f) return Fail(c, "ptview:scalar", "float");
      if (convertToNdArray(PtBufferView(i)).at<int64_t>(0) != i) return Fail(c, "ptview:scalar", "int");
      if (convertToNdArray(PtBufferView(b)).at<bool>(0) != b) return Fail(c, "ptview:scalar", "bool");
      auto a = convertToNdArray(PtBufferView(v));
      if (a.shape() != Shape{static_cast<int64_t>(v.size())}) return Fail(c, "ptview:container", "shape");
      for (size_t k = 0; k < v.size(); k++) {
        if (a.at<int32_t>(k) != v[k]) return Fail(c, "ptview:container", "value");
      }
      Count("buffer views");
      Cover("pt/scalar");
      return;
    }
  }
}

// Packing independent arrays into one call and unpacking them again.
void Simd(Case& c) {
  auto& g = c.rng;
  size_t n = 1 + g.below(9);
  auto ty = makeType<RingTy>(FM64);
  std::vector<NdArrayRef> xs, ys;
  std::vector<std::vector<uint128_t>> mx, my;
  std::string d;
  for (size_t i = 0; i < n; i++) {
    Shape sh = RandShape(g, 3, 30);
    for (int q = 0; q < 2; q++) {
      std::vector<uint128_t> v(sh.numel());
      for (auto& x : v) x = g.u64();
      auto a = MakeRing(ty, sh, v);
      if (g.chance(50)) a = a.transpose().clone().transpose();
      (q ? ys : xs).push_back(a);
      (q ? my : mx).push_back(v);
    }
    d += Str(sh);
  }
  Describe(c, d);
  auto add = [&](const NdArrayRef& a, const NdArrayRef& b) {
    NdArrayRef r(ty, a.shape());
    for (int64_t k = 0; k < a.numel(); k++) r.at<uint64_t>(k) = a.at<uint64_t>(k) * 3 + b.at<uint64_t>(k);
    return r;
  };
  std::vector<NdArrayRef> out;
  vmap(xs.begin(), xs.end(), ys.begin(), ys.end(), std::back_inserter(out), add);
  if (out.size() != n) return Fail(c, "simd:vmap2", "count");
  for (size_t i = 0; i < n; i++) {
    auto got = ReadRing(out[i]);
    if (out[i].shape() != xs[i].shape()) return Fail(c, "simd:vmap2", "shape");
    for (size_t k = 0; k < got.size(); k++) {
      if (got[k] != static_cast<uint64_t>(mx[i][k] * 3 + my[i][k])) return Fail(c, "simd:vmap2", fmt::format("array {} element {}", i, k));
    }
  }
  out.clear();
  vmap(xs.begin(), xs.end(), std::back_inserter(out), [&](const NdArrayRef& a) {
    NdArrayRef r(ty, a.shape());
    for (int64_t k = 0; k < a.numel(); k++) r.at<uint64_t>(k) = a.at<uint64_t>(k) + 7;
    return r;
  });
  for (size_t i = 0; i < n; i++) {
    auto got = ReadRing(out[i]);
    for (size_t k = 0; k < got.size(); k++) {
      if (got[k] != static_cast<uint64_t>(mx[i][k] + 7)) return Fail(c, "simd:vmap1", fmt::format("array {} element {}", i, k));
    }
  }
  // tree reduction: every operand used exactly once
  Shape sh = RandShape(g, 2, 12);
  std::vector<NdArrayRef> zs;
  std::vector<uint64_t> sum(sh.numel(), 0);
  for (size_t i = 0; i < n; i++) {
    std::vector<uint128_t> v(sh.numel());
    for (size_t k = 0; k < v.size(); k++) {
      v[k] = g.u64() >> 1;
      sum[k] += static_cast<uint64_t>(v[k]);
    }
    zs.push_back(MakeRing(ty, sh, v));
  }
  auto r = vreduce(zs.begin(), zs.end(), [&](const NdArrayRef& a, const NdArrayRef& b) {
    NdArrayRef q(ty, a.shape());
    for (int64_t k = 0; k < a.numel(); k++) q.at<uint64_t>(k) = a.at<uint64_t>(k) + b.at<uint64_t>(k);
    return q;
  });
  auto got = ReadRing(r);
  for (size_t k = 0; k < got.size(); k++) {
    if (got[k] != sum[k]) return Fail(c, "simd:vreduce", fmt::format("{} arrays element {}", n, k));
  }
  // containers
  std::vector<std::vector<int>> cs(n), co;
  for (auto& v : cs) {
    v.resize(g.below(6));
    for (auto& x : v) x = static_cast<int>(g.below(1000));
  }
  vmap(cs.begin(), cs.end(), std::back_inserter(co), [](const std::vector<int>& v) {
    auto q = v;
    for (auto& x : q) x = x * 2 + 1;
    return q;
  });
  for (size_t i = 0; i < n; i++) {
    if (co[i].size() != cs[i].size()) return Fail(c, "simd:container", "size");
    for (size_t k = 0; k < cs[i].size(); k++) {
      if (co[i][k] != cs[i][k] * 2 + 1) return Fail(c, "simd:container", "value");
    }
  }
  Count("packed calls", 3);
  Cover(fmt::format("simd/{}", n));
}

// maxBitWidth: the widest element, through any strides.
void BitWidths(Case& c) {
  auto& g = c.rng;
  Shape sh = RandShape(g, 3, 60, false);
  std::vector<uint128_t> v(sh.numel());
  size_t top = g.below(65);
  size_t want = 0;
  for (auto& x : v) {
    x = g.u64() & Mask(g.below(top + 1));
    size_t b = 0;
    while (b < 64 && (static_cast<uint64_t>(x) >> b) != 0) b++;
    want = std::max(want, b);
  }
  auto a = MakeRing(makeType<RingTy>(FM64), sh, v);
  if (g.chance(40)) a = a.transpose();
  if (g.chance(30) && sh.size() < 3) {
    Shape bs = a.shape();
    bs.insert(bs.begin(), 3);
    a = a.broadcast_to(bs, {});
  }
  Describe(c, fmt::format("{} strides {}", Str(a.shape()), Str(a.strides())));
  size_t got = maxBitWidth<uint64_t>(a);
  if (got != want) return Fail(c, "view:maxBitWidth", fmt::format("{} want {}", got, want));
  Count("bit widths");
  Cover(fmt::format("mbw/{}", want));
}
}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv,
              {{"views", 8000, 150000, Views},
               {"shape", 1500, 20000, Helpers},
               {"ptview", 2500, 30000, PtViews},
               {"simd", 1200, 10000, Simd},
               {"maxbits", 1000, 10000, BitWidths}});
}
