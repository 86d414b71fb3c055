// The tensor-level API: C20 sorting, shuffling, permuting, ranking; C21 data
// movement, indexing, reductions, windows and control flow; C22 products;
// C31 grouping; hlo element-wise functions for C19; C27 the shared cipher.
#include <algorithm>
#include <map>
#include <numeric>
#include <set>

#include "tv.h"

#include "libspu/kernel/hal/complex.h"
#include "libspu/kernel/hal/constants.h"
#include "libspu/kernel/hal/permute.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/shape_ops.h"
#include "libspu/kernel/hlo/basic_binary.h"
#include "libspu/kernel/hlo/basic_ternary.h"
#include "libspu/kernel/hlo/basic_unary.h"
#include "libspu/kernel/hlo/casting.h"
#include "libspu/kernel/hlo/const.h"
#include "libspu/kernel/hlo/control_flow.h"
#include "libspu/kernel/hlo/convolution.h"
#include "libspu/kernel/hlo/geometrical.h"
#include "libspu/kernel/hlo/group_by_agg.h"
#include "libspu/kernel/hlo/indexing.h"
#include "libspu/kernel/hlo/permute.h"
#include "libspu/kernel/hlo/rank.h"
#include "libspu/kernel/hlo/reduce.h"
#include "libspu/kernel/hlo/select_and_scatter.h"
#include "libspu/kernel/hlo/shift.h"
#include "libspu/kernel/hlo/shuffle.h"
#include "libspu/kernel/hlo/soprf.h"
#include "libspu/kernel/hlo/sort.h"
#include "libspu/kernel/hlo/utils.h"
using namespace spu;
using namespace vh;
namespace hal = spu::kernel::hal;
namespace hlo = spu::kernel::hlo;

namespace {
using Ctx = SPUContext;
using Idx = std::vector<int64_t>;
bool HasPerm(const Proto& p) { return p.kind == SEMI2K || p.kind == ABY3 || p.kind == CHEETAH; }

std::vector<Idx> Lines(const Shape& s, int64_t dim) {  // flat indices of each vector along dim
  std::map<Idx, Idx> m;
  for (int64_t k = 0; k < Numel(s); k++) {
    auto id = Unravel(s, k);
    Idx key(id.begin(), id.end());
    key[dim] = 0;
    m[key].push_back(k);
  }
  std::vector<Idx> r;
  for (auto& e : m) r.push_back(e.second);
  return r;
}
Shape RankSh(Gen& G, int maxr, int64_t cap) {
  for (;;) {
    auto s = RandShape(G.g, maxr, cap, false);
    if (!s.isScalar()) return s;
  }
}
void Same(Operand& o, const Operand& like) { o.vis = like.vis, o.owner = like.owner, o.as_bool = o.vis == 2 && o.as_bool; }
DataType IdxType(const Gen& G) { return G.e.f == FM32 ? DT_I32 : DT_I64; }

// ---- C20 --------------------------------------------------------------------
struct Keys {
  std::vector<Operand> in;
  int nk;
  int64_t valid = -1;
  bool desc, uns = false;
};
Keys MakeKeys(Gen& G, const Shape& s, bool perm_ok) {
  auto& g = G.g;
  Keys K;
  K.nk = 1 + static_cast<int>(g.chance(35)) + static_cast<int>(g.chance(15));
  K.desc = g.chance(50);
  if (g.chance(30)) K.valid = g.range(2, 12);
  for (int i = 0; i < K.nk; i++) {
    auto dt = g.chance(25) ? G.Flt() : g.pick(kSgn);
    bool uns = dt == DT_U8 || dt == DT_U16 || dt == DT_U32 || dt == DT_U64;
    const int style = static_cast<int>(g.below(3));
    auto draw = [&]() -> uint128_t {
      if (K.valid > 0) {
        int64_t lim = int64_t(1) << (uns ? K.valid : K.valid - 1);
        return static_cast<uint128_t>(uns ? g.range(0, lim - 1) : g.range(-lim, lim - 1));
      }
      if (style == 0) return static_cast<uint128_t>(uns ? g.range(0, 3) : g.range(-2, 2));
      if (style == 1) return static_cast<uint128_t>(uns ? g.range(0, 300) : g.range(-300, 300));
      return uns ? RingVal(g, G.cmp) & Mask(G.cmp - 1) : G.Small();
    };
    K.in.push_back(G.Op(s, dt, draw));
    if (!perm_ok && K.in.back().vis == 1 && G.e.p.kind == SWIFT) K.in.back().vis = 2;
  }
  return K;
}
// is row a strictly before row b
bool Before(const Gen& G, const Keys& K, const std::vector<Vec>& v, int64_t a, int64_t b) {
  for (int i = 0; i < K.nk; i++) {
    auto x = G.e.Sg(v[i][a]), y = G.e.Sg(v[i][b]);
    if (x != y) return K.desc ? x > y : x < y;
  }
  return false;
}

TStep SortStep(Gen& G) {
  auto& g = G.g;
  const bool perm = HasPerm(G.e.p);
  const int64_t cap = G.e.p.cost >= 20 ? 8 : G.e.p.npc == 1 ? 60 : G.e.p.npc >= 4 ? 12 : 24;
  auto s = RankSh(G, g.chance(70) ? 1 : 3, cap);
  int64_t dim = static_cast<int64_t>(g.below(s.size()));
  auto K = MakeKeys(G, s, perm);
  for (int n = static_cast<int>(g.below(3)); n > 0; n--) {
    auto o = G.Op(s, g.chance(50) ? G.Int() : G.Flt(), [&] { return G.Full(); });
    if (G.e.p.kind == SWIFT && o.vis == 1) o.vis = 2;
    K.in.push_back(o);
  }
  bool pub = true;
  for (int i = 0; i < K.nk; i++) pub = pub && K.in[i].vis == 0;
  const bool stable = (perm || pub) && g.chance(35);
  const bool general = !stable && g.chance(25);
  const bool general_pub = general && pub;
  auto lines = Lines(s, dim);
  TStep t{general ? "sort" : "simple_sort", fmt::format("{} dim {} keys {} {} valid {}{}", s, dim, K.nk, K.desc ? "desc" : "asc", K.valid, stable ? " stable" : ""), K.in, {}, {}, {}};
  const int nk = K.nk;
  const bool desc = K.desc;
  const int64_t valid = K.valid;
  std::vector<DataType> dts;
  for (auto& o : K.in) dts.push_back(o.dt);
  if (general) {
    t.run = [=](Ctx* ctx, const std::vector<Value>& v) {
      auto cmp = [=](absl::Span<const Value> a) {
        Value r = desc ? hal::greater(ctx, a[2 * nk - 2], a[2 * nk - 1]) : hal::less(ctx, a[2 * nk - 2], a[2 * nk - 1]);
        for (int i = nk - 2; i >= 0; i--) {
          auto lt = desc ? hal::greater(ctx, a[2 * i], a[2 * i + 1]) : hal::less(ctx, a[2 * i], a[2 * i + 1]);
          r = hal::bitwise_or(ctx, lt, hal::bitwise_and(ctx, hal::equal(ctx, a[2 * i], a[2 * i + 1]), r));
        }
        return r;
      };
      return hlo::Sort(ctx, v, dim, false, cmp, general_pub ? VIS_PUBLIC : VIS_SECRET);
    };
  } else {
    t.run = [=](Ctx* ctx, const std::vector<Value>& v) {
      return hlo::SimpleSort(ctx, v, dim, desc ? hal::SortDirection::Descending : hal::SortDirection::Ascending, nk, valid, stable);
    };
  }
  std::vector<Vec> iv;
  for (auto& o : K.in) iv.push_back(o.val);
  if (stable) {
    std::vector<Vec> r = iv;
    for (auto& L : lines) {
      auto p = L;
      std::stable_sort(p.begin(), p.end(), [&](int64_t a, int64_t b) { return Before(G, K, iv, a, b); });
      for (size_t q = 0; q < r.size(); q++) for (size_t i = 0; i < L.size(); i++) r[q][L[i]] = iv[q][p[i]];
    }
    for (size_t q = 0; q < r.size(); q++) t.out.push_back(Expect(s, r[q]).D(dts[q]));
    return t;
  }
  for (auto d : dts) t.out.push_back(Expect(s, Vec{}).D(d));
  auto e = G.e;
  t.joint = [=](const std::vector<Vec>& ov) -> std::string {
    auto sg = [&](uint128_t a) { return e.Sg(a); };
    for (auto& L : lines) {
      std::multiset<Vec> a, b;
      for (auto k : L) {
        Vec ra, rb;
        for (size_t q = 0; q < ov.size(); q++) ra.push_back(iv[q][k]), rb.push_back(ov[q][k]);
        a.insert(ra), b.insert(rb);
      }
      if (a != b) return fmt::format("rows of the result are not the rows of the input (line at {})", L[0]);
      for (size_t i = 1; i < L.size(); i++) {
        for (int q = 0; q < nk; q++) {
          auto x = sg(ov[q][L[i - 1]]), y = sg(ov[q][L[i]]);
          if (x == y) continue;
          if (desc ? x < y : x > y) return fmt::format("out of order at {}: {} then {}", i, Hex(ov[q][L[i - 1]]), Hex(ov[q][L[i]]));
          break;
        }
      }
    }
    return "";
  };
  return t;
}

Vec RandPerm(Rng& g, int64_t n) {
  Vec p(n);
  for (int64_t i = 0; i < n; i++) p[i] = i;
  for (int64_t i = n - 1; i > 0; i--) std::swap(p[i], p[g.below(i + 1)]);
  return p;
}

TStep PermStep(Gen& G) {
  auto& g = G.g;
  auto s = RankSh(G, g.chance(60) ? 1 : 3, 40);
  int64_t dim = static_cast<int64_t>(g.below(s.size()));
  std::vector<Operand> in;
  std::vector<DataType> dts;
  for (int n = 1 + static_cast<int>(g.below(3)); n > 0; n--) {
    in.push_back(G.Op(s, g.chance(50) ? G.Int() : G.Flt(), [&] { return G.Full(); }));
    Same(in.back(), in[0]);
    dts.push_back(in.back().dt);
  }
  auto pv = RandPerm(g, s[dim]);
  size_t next = 0;
  auto po = G.Op({s[dim]}, IdxType(G), [&] { return pv[next++]; });
  po.as_bool = false;
  const bool inv = g.chance(50);
  TStep t{inv ? "inv_permute" : "permute", fmt::format("{} dim {}", s, dim), in, {}, {}, {}};
  t.in.push_back(po);
  t.run = [=](Ctx* ctx, const std::vector<Value>& v) {
    std::vector<Value> x(v.begin(), v.end() - 1);
    return inv ? hlo::InvPermute(ctx, x, v.back(), dim) : hlo::Permute(ctx, x, v.back(), dim);
  };
  for (auto& o : in) {
    Vec r = o.val;
    for (auto& L : Lines(s, dim)) for (size_t i = 0; i < L.size(); i++) {
      auto j = static_cast<size_t>(pv[i]);
      if (inv) r[L[j]] = o.val[L[i]];
      else r[L[i]] = o.val[L[j]];
    }
    t.out.push_back(Expect(s, r).D(o.dt));
  }
  return t;
}

TStep GenPermStep(Gen& G) {
  auto& g = G.g;
  Shape s = {1 + static_cast<int64_t>(g.below(16))};
  auto K = MakeKeys(G, s, true);
  K.in.resize(K.nk);
  Idx p(s[0]);
  std::iota(p.begin(), p.end(), 0);
  std::vector<Vec> iv;
  for (auto& o : K.in) iv.push_back(o.val);
  std::stable_sort(p.begin(), p.end(), [&](int64_t a, int64_t b) { return Before(G, K, iv, a, b); });
  Vec r(s[0]);
  for (int64_t i = 0; i < s[0]; i++) r[p[i]] = i;
  const bool desc = K.desc;
  const int64_t valid = K.valid;
  return {"gen_inv_perm", fmt::format("{} keys {} {} valid {}", s, K.nk, desc ? "desc" : "asc", valid), K.in,
          [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
            return {hal::gen_inv_perm_1d(ctx, v, desc ? hal::SortDirection::Descending : hal::SortDirection::Ascending, valid)};
          },
          {Expect(s, r)}, {}};
}

TStep ShuffleStep(Gen& G) {
  auto& g = G.g;
  auto s = RankSh(G, g.chance(60) ? 1 : 3, G.e.p.cost >= 20 ? 8 : 30);
  int64_t dim = static_cast<int64_t>(g.below(s.size()));
  std::vector<Operand> in;
  TStep t{"shuffle", fmt::format("{} dim {}", s, dim), {}, {}, {}, {}};
  for (int n = 1 + static_cast<int>(g.below(3)); n > 0; n--) {
    in.push_back(G.Op(s, g.chance(50) ? G.Int() : G.Flt(), [&] { return G.Full(); }));
    if (G.e.p.kind == SWIFT && in.back().vis == 1) in.back().vis = 2;
    t.out.push_back(Expect(s, Vec{}).D(in.back().dt));
  }
  t.in = in;
  t.run = [=](Ctx* ctx, const std::vector<Value>& v) { return hlo::Shuffle(ctx, v, dim); };
  auto lines = Lines(s, dim);
  t.joint = [=](const std::vector<Vec>& ov) -> std::string {
    for (auto& L : lines) {
      std::multiset<Vec> a, b;
      for (auto k : L) {
        Vec ra, rb;
        for (size_t q = 0; q < ov.size(); q++) ra.push_back(in[q].val[k]), rb.push_back(ov[q][k]);
        a.insert(ra), b.insert(rb);
      }
      if (a != b) return fmt::format("rows of the result are not the rows of the input (line at {})", L[0]);
    }
    return "";
  };
  return t;
}

TStep TopkStep(Gen& G) {
  auto& g = G.g;
  auto s = RankSh(G, g.chance(70) ? 1 : 2, G.e.p.cost >= 20 ? 8 : 24);
  const int64_t W = s[s.size() - 1];
  const bool few = g.chance(50);
  auto x = G.Op(s, g.chance(40) ? G.Flt() : DT_I32, [&] { return few ? static_cast<uint128_t>(g.range(-3, 3)) : G.Small(); });
  if (x.vis == 1) x.vis = 2;  // public or secret
  int64_t lo = g.range(1, W), hi = g.chance(50) ? -1 : g.range(lo, W);
  const bool largest = g.chance(50), only = g.chance(40);
  const int64_t k = hi == -1 ? lo : hi;
  Shape to = s;
  to[to.size() - 1] = k;
  TStep t{"topk", fmt::format("{} {}..{} {}{}", s, lo, hi, largest ? "largest" : "smallest", only ? " values" : ""), {x},
          [=](Ctx* ctx, const std::vector<Value>& v) { return hlo::TopK(ctx, v[0], lo, hi, largest, only); }, {}, {}};
  t.out.push_back(Expect(to, Vec{}).D(x.dt));
  if (!only) t.out.push_back(Expect(to, Vec{}));
  auto e = G.e;
  t.joint = [=](const std::vector<Vec>& ov) -> std::string {
    for (int64_t r = 0; r * W < Numel(s); r++) {
      std::vector<int128_t> a, b;
      for (int64_t i = 0; i < W; i++) a.push_back(e.Sg(x.val[r * W + i]) * (largest ? -1 : 1));
      std::sort(a.begin(), a.end());
      std::set<int64_t> used;
      for (int64_t i = 0; i < k; i++) {
        auto v = ov[0][r * k + i];
        b.push_back(e.Sg(v) * (largest ? -1 : 1));
        if (!only) {
          auto ix = static_cast<int64_t>(e.Sg(ov[1][r * k + i]));
          if (ix < 0 || ix >= W || !used.insert(ix).second) return fmt::format("row {}: index {} at {}", r, ix, i);
          if (x.val[r * W + ix] != v) return fmt::format("row {}: value {} is not the element at index {}", r, Hex(v), ix);
        }
      }
      if (b[lo - 1] != a[lo - 1]) return fmt::format("row {}: place {} has {}", r, lo, Hex(ov[0][r * k + lo - 1]));
      for (int64_t i = 0; i < lo - 1; i++) if (b[i] > b[lo - 1]) return fmt::format("row {}: place {} is past place {}", r, i + 1, lo);
      std::sort(b.begin(), b.end());
      for (int64_t i = 0; i < k; i++) if (a[i] != b[i]) return fmt::format("row {}: the {} selected values are not the extreme ones", r, k);
    }
    return "";
  };
  return t;
}

// Every order of three rows turns up about equally often.
void ShuffleUniform(Case& c, const Proto& p) {
  auto& g = c.rng;
  Env e{p, FM64, 18, {}};
  const bool perm = HasPerm(p);
  const int64_t K = perm ? 30 : 200;
  const int reps = perm ? 20 : 3;
  std::vector<TStep> st;
  Gen G(c, e);
  auto counts = std::make_shared<std::map<Idx, int64_t>>();
  for (int r = 0; r < reps; r++) {
    auto x = G.Op({K, 3}, DT_I32, [] { return 0; });
    for (int64_t i = 0; i < 3 * K; i++) x.val[i] = i % 3;
    x.vis = 2, x.as_bool = false;
    TStep t{"shuffle", "orders of three", {x}, [](Ctx* ctx, const std::vector<Value>& v) { return hlo::Shuffle(ctx, v, 1); }, {Expect({K, 3}, Vec{})}, {}};
    t.joint = [=](const std::vector<Vec>& ov) -> std::string {
      for (int64_t i = 0; i < K; i++) (*counts)[{static_cast<int64_t>(ov[0][3 * i]), static_cast<int64_t>(ov[0][3 * i + 1]), static_cast<int64_t>(ov[0][3 * i + 2])}]++;
      return "";
    };
    st.push_back(t);
  }
  (void)g;
  RunSteps(c, e, "uniform", st);
  int64_t n = 0;
  double chi = 0;
  for (auto& k : *counts) n += k.second;
  if (n < K * reps) return;
  Idx o = {0, 1, 2};
  do {
    double d = static_cast<double>((*counts)[o]) - n / 6.0;
    chi += d * d / (n / 6.0);
  } while (std::next_permutation(o.begin(), o.end()));
  Count("shuffled orders tallied", n);
  if (chi > 60) Fail(c, fmt::format("uniform:{}", p.name), fmt::format("chi-square {} over {} shuffles of three rows", chi, n));  // 5 degrees of freedom: 1e-11
}

// ---- C21 --------------------------------------------------------------------
DataType AnyType(Gen& G) { return G.g.chance(70) ? G.Int() : G.Flt(); }

TStep GeoStep(Gen& G) {
  auto& g = G.g;
  auto s = G.Sh(4, false);
  auto dt = AnyType(G);
  const bool cx = g.chance(25);
  if (cx) dt = DT_F32;
  auto x = G.Op(s, dt, [&] { return G.Full(); }), y = G.Op(s, dt, [&] { return G.Full(); });
  std::function<Value(Ctx*, const Value&, const std::vector<Value>&)> f;
  std::function<uint128_t(const Vec&, const Vec&, const Idx&)> at;  // value of the result at an index
  Shape to = s;
  std::string name, text;
  std::vector<Operand> more;
  const int R = static_cast<int>(s.size());
  switch (g.below(7)) {
    case 0: {
      Axes p(R, 0);
      std::iota(p.begin(), p.end(), 0);
      for (int i = R - 1; i > 0; i--) std::swap(p[i], p[g.below(i + 1)]);
      for (int i = 0; i < R; i++) to[i] = s[p[i]];
      name = "transpose", text = fmt::format("{} to {}", s, to);
      f = [=](Ctx* c, const Value& v, const std::vector<Value>&) { return hlo::Transpose(c, v, p); };
      at = [=](const Vec& v, const Vec&, const Idx& o) {
        Idx i(R);
        for (int d = 0; d < R; d++) i[p[d]] = o[d];
        return v[Ravel(s, i)];
      };
      break;
    }
    case 1: {  // broadcast into chosen dimensions
      to = {};
      Axes dims;
      for (int d = 0; d < R; d++) {
        while (to.size() < 4 && g.chance(25)) to.push_back(1 + static_cast<int64_t>(g.below(3)));
        dims.push_back(static_cast<int64_t>(to.size()));
        to.push_back(s[d] == 1 && g.chance(50) ? 1 + static_cast<int64_t>(g.below(3)) : s[d]);
      }
      while (to.size() < 4 && g.chance(25)) to.push_back(1 + static_cast<int64_t>(g.below(3)));
      if (to.size() == 0) to = {3};
      name = "broadcast", text = fmt::format("{} to {} dims {}", s, to, fmt::join(dims, ","));
      f = [=](Ctx* c, const Value& v, const std::vector<Value>&) { return hlo::Broadcast(c, v, to, dims); };
      at = [=](const Vec& v, const Vec&, const Idx& o) {
        Idx i(R);
        for (int d = 0; d < R; d++) i[d] = s[d] == 1 ? 0 : o[dims[d]];
        return v[Ravel(s, i)];
      };
      break;
    }
    case 2: {
      to = {};
      int64_t n = Numel(s);
      for (int64_t d = 2; n > 1 && to.size() < 4;) {
        if (n % d == 0 && g.chance(60)) to.push_back(d), n /= d;
        else if (n % d != 0 || g.chance(30)) d = d * d > n ? n : d + 1;
      }
      if (n > 1 || g.chance(30)) to.push_back(n);
      if (G.e.p.spdz2k && to.size() == 0) to = {1};
      name = "reshape", text = fmt::format("{} to {}", s, to);
      f = [=](Ctx* c, const Value& v, const std::vector<Value>&) { return hlo::Reshape(c, v, to); };
      at = [=](const Vec& v, const Vec&, const Idx& o) { return v[Ravel(to, o)]; };
      break;
    }
    case 3: {
      if (R == 0) return GeoStep(G);
      int64_t ax = static_cast<int64_t>(g.below(R));
      Shape sb = s;
      sb[ax] = 1 + static_cast<int64_t>(g.below(4));
      auto b = G.Op(sb, dt, [&] { return G.Full(); });
      if (cx) Same(b, x);
      more = {b};
      to[ax] += sb[ax];
      name = "concatenate", text = fmt::format("{} {} axis {}", s, sb, ax);
      f = [=](Ctx* c, const Value& v, const std::vector<Value>& m) { return hlo::Concatenate(c, {v, m[0]}, ax); };
      at = [=](const Vec& v, const Vec& m, const Idx& o) {
        Idx i = o;
        if (o[ax] < s[ax]) return v[Ravel(s, i)];
        i[ax] -= s[ax];
        return m[Ravel(sb, i)];
      };
      break;
    }
    case 4: {
      Index st, en;
      Strides ss;
      for (int d = 0; d < R; d++) {
        int64_t a = static_cast<int64_t>(g.below(s[d])), b = g.range(a + 1, s[d]), k = g.range(1, 3);
        st.push_back(a), en.push_back(b), ss.push_back(k);
        to[d] = (b - a + k - 1) / k;
      }
      name = "slice", text = fmt::format("{} from {} to {} by {}", s, fmt::join(st, ","), fmt::join(en, ","), fmt::join(ss, ","));
      f = [=](Ctx* c, const Value& v, const std::vector<Value>&) { return hlo::Slice(c, v, st, en, ss); };
      at = [=](const Vec& v, const Vec&, const Idx& o) {
        Idx i = o;
        for (int d = 0; d < R; d++) i[d] = st[d] + o[d] * ss[d];
        return v[Ravel(s, i)];
      };
      break;
    }
    case 5: {
      Sizes lo, hi, in;
      for (int d = 0; d < R; d++) {
        lo.push_back(static_cast<int64_t>(g.below(3))), hi.push_back(static_cast<int64_t>(g.below(3))), in.push_back(static_cast<int64_t>(g.below(2)));
        to[d] = s[d] + lo[d] + hi[d] + (s[d] - 1) * in[d];
      }
      if (Numel(to) > 3000) return GeoStep(G);
      auto p = G.Op({}, dt, [&] { return G.Full(); });
      if (cx) Same(p, x);
      more = {p};
      name = "pad", text = fmt::format("{} to {}", s, to);
      f = [=](Ctx* c, const Value& v, const std::vector<Value>& m) { return hlo::Pad(c, v, m[0], lo, hi, in); };
      at = [=](const Vec& v, const Vec& m, const Idx& o) {
        Idx i = o;
        for (int d = 0; d < R; d++) {
          int64_t q = o[d] - lo[d];
          if (q < 0 || q % (in[d] + 1) || q / (in[d] + 1) >= s[d]) return m[0];
          i[d] = q / (in[d] + 1);
        }
        return v[Ravel(s, i)];
      };
      break;
    }
    default: {
      Axes dims;
      for (int d = 0; d < R; d++) if (g.chance(50)) dims.push_back(d);
      name = "reverse", text = fmt::format("{} dims {}", s, fmt::join(dims, ","));
      f = [=](Ctx* c, const Value& v, const std::vector<Value>&) { return hlo::Reverse(c, v, dims); };
      at = [=](const Vec& v, const Vec&, const Idx& o) {
        Idx i = o;
        for (auto d : dims) i[d] = s[d] - 1 - i[d];
        return v[Ravel(s, i)];
      };
    }
  }
  auto want = [&](const Vec& v, const Vec& m) {
    Vec r(Numel(to));
    for (int64_t k = 0; k < Numel(to); k++) r[k] = at(v, m, Unravel(to, k));
    return r;
  };
  const Vec none;
  if (!cx) {
    std::vector<Operand> in = {x};
    in.insert(in.end(), more.begin(), more.end());
    return {name, text, in, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> { return {f(ctx, v[0], std::vector<Value>(v.begin() + 1, v.end()))}; },
            {Expect(to, want(x.val, more.empty() ? none : more[0].val)).D(dt)}, {}};
  }
  // the same on a complex value made of two parts
  Same(y, x);
  std::vector<Operand> in = {x, y};
  Operand m2;
  if (!more.empty()) {
    m2 = more[0];
    for (auto& a : m2.val) a = G.Full() & G.e.M();
    in.push_back(more[0]), in.push_back(m2);
  }
  for (auto& o : in) o.as_bool = false;
  return {name + "-complex", text, in,
          [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
            std::vector<Value> m;
            if (v.size() > 2) m.push_back(hlo::Complex(ctx, v[2], v[3]));
            auto z = f(ctx, hlo::Complex(ctx, v[0], v[1]), m);
            return {hlo::Real(ctx, z), hlo::Imag(ctx, z)};
          },
          {Expect(to, want(x.val, more.empty() ? none : more[0].val)), Expect(to, want(y.val, more.empty() ? none : m2.val))}, {}};
}

TStep IndexStep(Gen& G) {
  auto& g = G.g;
  auto dt = AnyType(G);
  switch (g.below(7)) {
    case 0:
    case 1: {  // dynamic slice
      auto s = RankSh(G, 3, G.e.p.cost >= 20 ? 12 : 36);
      const int R = static_cast<int>(s.size());
      auto x = G.Op(s, dt, [&] { return G.Full(); });
      Sizes sz;
      Idx st;
      std::vector<Operand> in = {x};
      auto it = g.chance(50) || G.e.f == FM32 ? DT_I32 : DT_I64;
      const int kind = static_cast<int>(g.below(3));  // all public, all secret, mixed
      std::string tx;
      for (int d = 0; d < R; d++) {
        sz.push_back(g.range(1, s[d]));
        int64_t a = g.chance(60) ? g.range(0, s[d] - sz[d]) : g.range(-3, s[d] + 3);
        auto o = G.Op({}, it, [&] { return static_cast<uint128_t>(a); });
        o.vis = kind == 0 ? 0 : kind == 1 ? 2 : g.chance(50) ? 0 : 2;
        if (o.vis == 0) o.as_bool = false;
        in.push_back(o);
        tx += fmt::format(" {}{}", o.vis ? "s" : "p", a);
        st.push_back(std::min(std::max<int64_t>(a, 0), s[d] - sz[d]));
      }
      Shape to(sz.begin(), sz.end());
      Vec r(Numel(to));
      for (int64_t k = 0; k < Numel(to); k++) {
        auto i = Unravel(to, k);
        for (int d = 0; d < R; d++) i[d] += st[d];
        r[k] = x.val[Ravel(s, i)];
      }
      return {"dynamic_slice", fmt::format("{} of {} at{}", to, s, tx), in, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        return {hlo::DynamicSlice(ctx, v[0], sz, absl::MakeConstSpan(v).subspan(1))};
      }, {Expect(to, r).D(dt)}, {}};
    }
    case 2: {  // dynamic update
      auto s = RankSh(G, 3, G.e.p.cost >= 20 ? 8 : 24);
      const int R = static_cast<int>(s.size());
      auto x = G.Op(s, dt, [&] { return G.Full(); });
      Shape u;
      Idx st;
      std::string tx;
      auto it = g.chance(50) || G.e.f == FM32 ? DT_I32 : DT_I64;
      std::vector<Operand> at;
      const bool sec = g.chance(60);
      for (int d = 0; d < R; d++) {
        u.push_back(g.range(1, sec ? std::min<int64_t>(s[d], 2) : s[d]));
        int64_t a = g.chance(60) ? g.range(0, s[d] - u[d]) : g.range(-3, s[d] + 3);
        auto o = G.Op({}, it, [&] { return static_cast<uint128_t>(a); });
        o.vis = !sec ? 0 : d == 0 || g.chance(70) ? 2 : 0;
        if (o.vis == 0) o.as_bool = false;
        at.push_back(o);
        tx += fmt::format(" {}{}", o.vis ? "s" : "p", a);
        st.push_back(std::min(std::max<int64_t>(a, 0), s[d] - u[d]));
      }
      auto y = G.Op(u, dt, [&] { return G.Full(); });
      std::vector<Operand> in = {x, y};
      in.insert(in.end(), at.begin(), at.end());
      Vec r = x.val;
      for (int64_t k = 0; k < Numel(u); k++) {
        auto i = Unravel(u, k);
        for (int d = 0; d < R; d++) i[d] += st[d];
        r[Ravel(s, i)] = y.val[k];
      }
      return {"dynamic_update", fmt::format("{} in {} at{}", u, s, tx), in, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        return {hlo::DynamicUpdateSlice(ctx, v[0], v[1], absl::MakeConstSpan(v).subspan(2)), v[0]};
      }, {Expect(s, r).D(dt), Expect(s, x.val).D(dt)}, {}};
    }
    case 3: {  // gather
      auto s = RankSh(G, 3, 40);
      const int R = static_cast<int>(s.size());
      hlo::GatherConfig cfg;
      std::vector<int64_t> dims(R);
      std::iota(dims.begin(), dims.end(), 0);
      for (int i = R - 1; i > 0; i--) std::swap(dims[i], dims[g.below(i + 1)]);
      const int nidx = 1 + static_cast<int>(g.below(R));
      for (int i = 0; i < nidx; i++) cfg.startIndexMap.push_back(dims[i]);
      for (int d = 0; d < R; d++) {
        bool mapped = std::find(dims.begin(), dims.begin() + nidx, d) != dims.begin() + nidx;
        bool col = mapped ? g.chance(50) : s[d] == 1 && g.chance(30);
        cfg.sliceSizes.push_back(col ? 1 : mapped || g.chance(40) ? g.range(1, s[d]) : s[d]);
        if (col) cfg.collapsedSliceDims.push_back(d);
      }
      Shape batch = RandShape(g, 2, 12, false);
      cfg.indexVectorDim = static_cast<int64_t>(g.below(batch.size() + 1));
      Shape is = batch;
      const bool implicit = nidx == 1 && cfg.indexVectorDim == static_cast<int64_t>(batch.size()) && batch.size() > 0 && g.chance(60);
      if (!implicit) is.insert(is.begin() + cfg.indexVectorDim, nidx);
      Shape off;
      Axes offd;
      for (int d = 0; d < R; d++) if (std::find(cfg.collapsedSliceDims.begin(), cfg.collapsedSliceDims.end(), d) == cfg.collapsedSliceDims.end()) off.push_back(cfg.sliceSizes[d]), offd.push_back(d);
      // interleave batch and offset dimensions
      Shape to;
      std::vector<int> src;  // >= 0 offset number, < 0 batch number
      size_t bi = 0, oi = 0;
      while (bi < batch.size() || oi < off.size()) {
        if (oi < off.size() && (bi == batch.size() || g.chance(50))) {
          cfg.offsetDims.push_back(static_cast<int64_t>(to.size()));
          src.push_back(static_cast<int>(oi));
          to.push_back(off[oi++]);
        } else {
          src.push_back(-1 - static_cast<int>(bi));
          to.push_back(batch[bi++]);
        }
      }
      Operand ix;
      ix.shape = is, ix.dt = DT_I64, ix.vis = 0;
      if (G.e.f == FM32) ix.dt = DT_I32;
      for (int64_t k = 0; k < Numel(is); k++) ix.val.push_back(static_cast<uint128_t>(g.range(-1, 5)) & G.e.M());
      auto x = G.Op(s, dt, [&] { return G.Full(); });
      Vec r(Numel(to));
      for (int64_t k = 0; k < Numel(to); k++) {
        auto o = Unravel(to, k);
        Idx b(batch.size()), w(R, 0), st(R, 0);
        for (size_t d = 0; d < src.size(); d++) if (src[d] < 0) b[-1 - src[d]] = o[d]; else w[offd[src[d]]] = o[d];
        for (int q = 0; q < nidx; q++) {
          Idx i = b;
          if (!implicit) i.insert(i.begin() + cfg.indexVectorDim, q);
          st[cfg.startIndexMap[q]] = static_cast<int64_t>(G.e.Sg(ix.val[Ravel(is, i)]));
        }
        for (int d = 0; d < R; d++) st[d] = std::min(std::max<int64_t>(st[d], 0), s[d] - cfg.sliceSizes[d]) + w[d];
        r[k] = x.val[Ravel(s, st)];
      }
      return {"gather", fmt::format("{} idx {} slices {} offset {} collapsed {} map {} ivd {}", s, is, fmt::join(cfg.sliceSizes, ","), fmt::join(cfg.offsetDims, ","), fmt::join(cfg.collapsedSliceDims, ","), fmt::join(cfg.startIndexMap, ","), cfg.indexVectorDim),
              {x, ix}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> { return {hlo::Gather(ctx, v[0], v[1], cfg, to)}; }, {Expect(to, r).D(dt)}, {}};
    }
    case 4: {
      int64_t n = 1 + static_cast<int64_t>(g.below(30));
      auto x = G.Op({n}, dt, [&] { return G.Full(); });
      std::vector<uint8_t> m(n);
      Vec r;
      for (int64_t i = 0; i < n; i++) if ((m[i] = static_cast<uint8_t>(g.chance(50) ? 0 : g.range(1, 255)))) r.push_back(x.val[i]);
      Shape to = {static_cast<int64_t>(r.size())};
      return {"filter", fmt::format("{} of {}", r.size(), n), {x}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> { return {hlo::FilterByMask(ctx, v[0], m)}; }, {Expect(to, r).D(dt)}, {}};
    }
    case 5: {
      int64_t n = 1 + static_cast<int64_t>(g.below(30));
      auto x = G.Op({n}, dt, [&] { return G.Full(); });
      Index ix;
      Vec r;
      for (int64_t i = g.range(1, 20); i > 0; i--) ix.push_back(static_cast<int64_t>(g.below(n))), r.push_back(x.val[ix.back()]);
      return {"linear_gather", fmt::format("{} of {}", ix.size(), n), {x}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> { return {hlo::LinearGather(ctx, v[0], ix)}; }, {Expect({static_cast<int64_t>(r.size())}, r).D(dt)}, {}};
    }
    default: {
      int64_t n = 1 + static_cast<int64_t>(g.below(30)), m = 1 + static_cast<int64_t>(g.below(n));
      auto x = G.Op({n}, dt, [&] { return G.Full(); }), y = G.Op({m}, dt, [&] { return G.Full(); });
      auto p = RandPerm(g, n);
      Index ix;
      Vec r = x.val;
      for (int64_t i = 0; i < m; i++) ix.push_back(static_cast<int64_t>(p[i])), r[ix[i]] = y.val[i];
      return {"linear_scatter", fmt::format("{} into {}", m, n), {x, y}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        Value w = v[0].clone();
        hlo::LinearScatterInPlace(ctx, w, v[1], ix);
        return {w, v[0]};
      }, {Expect({n}, r).D(dt), Expect({n}, x.val).D(dt)}, {}};
    }
  }
}

// a reduction over ring values: 0 add, 1 max, 2 min, 3 bitwise and
struct Red {
  int kind;
  uint128_t init;
  std::function<Value(Ctx*, const Value&, const Value&)> run;
  uint128_t Do(const Env& e, uint128_t a, uint128_t b) const {
    return (kind == 0 ? a + b : kind == 1 ? (e.Sg(a) > e.Sg(b) ? a : b) : kind == 2 ? (e.Sg(a) < e.Sg(b) ? a : b) : a & b) & e.M();
  }
  uint128_t Val(Gen& G) const { return kind == 1 || kind == 2 ? G.Small() : G.Full(); }
};
Red MakeRed(Gen& G) {
  Red r;
  r.kind = static_cast<int>(G.g.below(4));
  const uint128_t low = (uint128_t(0) - (uint128_t(1) << G.cmp)) & G.e.M();
  r.init = r.kind == 0 ? 0 : r.kind == 1 ? low : r.kind == 2 ? (uint128_t(1) << G.cmp) : G.e.M();
  const int k = r.kind;
  r.run = [k](Ctx* c, const Value& a, const Value& b) { return k == 0 ? hal::add(c, a, b) : k == 1 ? hal::max(c, a, b) : k == 2 ? hal::min(c, a, b) : hal::bitwise_and(c, a, b); };
  return r;
}
const char* kRed[] = {"add", "max", "min", "and"};

Operand Scalar(Gen& G, DataType dt, uint128_t v) {
  auto o = G.Op({}, dt, [&] { return v; });
  o.vis = G.g.chance(70) ? 0 : 2;
  o.as_bool = false;
  return o;
}

TStep ReduceStep(Gen& G) {
  auto& g = G.g;
  auto R0 = MakeRed(G);
  auto dt = R0.kind == 3 ? DT_I64 : R0.kind == 0 ? AnyType(G) : g.chance(50) ? G.Flt() : DT_I32;
  if (R0.kind == 3 && G.e.f == FM32) dt = DT_I32;
  if (R0.kind == 0 && dt == DT_I1) dt = DT_I8;
  auto val = [&] { return R0.Val(G); };
  Env e = G.e;
  switch (g.below(3)) {
    case 0: {  // reduce over axes, optionally two operands at once
      auto s = RankSh(G, 3, G.e.p.cost >= 20 ? 12 : 40);
      Axes dims;
      for (size_t d = 0; d < s.size(); d++) if (g.chance(50)) dims.push_back(static_cast<int64_t>(d));
      if (dims.empty()) dims.push_back(0);
      Shape to = s;
      for (auto d : dims) to[d] = 1;
      const bool two = g.chance(30), ign = g.chance(40);
      auto R1 = MakeRed(G);
      if (R1.kind == 3) R1 = R0;
      std::vector<Operand> in = {G.Op(s, dt, val), Scalar(G, dt, R0.init)};
      std::vector<Red> rs = {R0};
      if (R0.kind == 0 && !ign) in[1].val[0] = G.Full() & G.e.M();
      if (two) {
        auto d2 = R1.kind == 0 ? DT_I32 : g.chance(50) ? DT_F32 : DT_I32;
        if (R1.kind == 3) d2 = dt;
        in.push_back(G.Op(s, d2, [&] { return R1.Val(G); }));
        in.push_back(Scalar(G, d2, R1.init));
        rs.push_back(R1);
      }
      std::vector<Expect> out;
      for (size_t q = 0; q < rs.size(); q++) {
        Vec r(Numel(to), in[2 * q + 1].val[0]);
        for (int64_t k = 0; k < Numel(s); k++) {
          auto i = Unravel(s, k);
          for (auto d : dims) i[d] = 0;
          auto& a = r[Ravel(to, i)];
          a = rs[q].Do(e, a, in[2 * q].val[k]);
        }
        out.push_back(Expect(to, r).D(in[2 * q].dt));
      }
      return {"reduce", fmt::format("{} {} dims {}{}", kRed[R0.kind], s, fmt::join(dims, ","), two ? " two" : ""), in, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        std::vector<Value> x, i;
        for (size_t q = 0; q < v.size(); q += 2) x.push_back(v[q]), i.push_back(v[q + 1]);
        auto fn = [&](absl::Span<const Value> a, absl::Span<const Value> b) {
          std::vector<Value> z;
          for (size_t q = 0; q < a.size(); q++) z.push_back(rs[q].run(ctx, a[q], b[q]));
          return z;
        };
        return hlo::Reduce(ctx, x, i, dims, fn, ign);
      }, out, {}};
    }
    case 1: {  // windows
      auto s = RankSh(G, 3, G.e.p.cost >= 20 ? 10 : 30);
      const size_t R = s.size();
      hlo::ReduceWindowConfig cfg;
      std::vector<std::pair<int64_t, int64_t>> pad;
      Shape to;
      const bool dil = g.chance(35), padd = g.chance(50), ign = g.chance(30);
      for (size_t d = 0; d < R; d++) {
        int64_t bd = dil ? g.range(1, 2) : 1, wd = dil ? g.range(1, 2) : 1;
        pad.push_back(padd ? std::make_pair(g.range(0, 2), g.range(0, 2)) : std::make_pair<int64_t, int64_t>(0, 0));
        int64_t n = (s[d] - 1) * bd + 1 + pad[d].first + pad[d].second;
        int64_t w = g.range(1, std::min<int64_t>(3, (n - 1) / wd + 1)), st = g.range(1, 3);
        cfg.window_shape.push_back(w), cfg.window_strides.push_back(st), cfg.window_dilations.push_back(wd), cfg.base_dilations.push_back(bd);
        to.push_back((n - ((w - 1) * wd + 1)) / st + 1);
      }
      auto x = G.Op(s, dt, val);
      auto i0 = Scalar(G, dt, R0.init);
      Vec r(Numel(to));
      for (int64_t k = 0; k < Numel(to); k++) {
        auto o = Unravel(to, k);
        uint128_t a = R0.init;
        Shape ws = cfg.window_shape;
        for (int64_t q = 0; q < Numel(ws); q++) {
          auto w = Unravel(ws, q);
          Idx i(R);
          bool in = true;
          for (size_t d = 0; d < R; d++) {
            int64_t pos = o[d] * cfg.window_strides[d] + w[d] * cfg.window_dilations[d] - pad[d].first;
            if (pos < 0 || pos % cfg.base_dilations[d] || pos / cfg.base_dilations[d] >= s[d]) in = false;
            else i[d] = pos / cfg.base_dilations[d];
          }
          if (in) a = R0.Do(e, a, x.val[Ravel(s, i)]);
        }
        r[k] = a;
      }
      return {"reduce_window", fmt::format("{} {} window {} stride {} dil {}/{} to {}", kRed[R0.kind], s, cfg.window_shape, fmt::join(cfg.window_strides, ","), fmt::join(cfg.window_dilations, ","), fmt::join(cfg.base_dilations, ","), to),
              {x, i0}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        auto c2 = cfg;
        c2.window_padding = pad;
        auto fn = [&](absl::Span<const Value> a, absl::Span<const Value> b) { return std::vector<Value>{R0.run(ctx, a[0], b[0])}; };
        return hlo::ReduceWindow(ctx, {v[0]}, {v[1]}, to, c2, fn, ign);
      }, {Expect(to, r).D(dt)}, {}};
    }
    default: {
      auto s = RankSh(G, 3, 40);
      int64_t ax = static_cast<int64_t>(g.below(s.size()));
      Shape to = s;
      to[ax] = 1;
      auto x = G.Op(s, dt, val);
      Vec r(Numel(to), R0.init);
      for (int64_t k = 0; k < Numel(s); k++) {
        auto i = Unravel(s, k);
        i[ax] = 0;
        r[Ravel(to, i)] = R0.Do(e, r[Ravel(to, i)], x.val[k]);
      }
      return {"tree_reduce", fmt::format("{} {} axis {}", kRed[R0.kind], s, ax), {x}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        return hlo::TreeReduce(ctx, {v[0]}, ax, [&](absl::Span<const Value> a, absl::Span<const Value> b) { return std::vector<Value>{R0.run(ctx, a[0], b[0])}; });
      }, {Expect(to, r).D(dt)}, {}};
    }
  }
}

// Pooling: argmax over windows and the two ways back.
TStep PoolStep(Gen& G) {
  auto& g = G.g;
  auto dt = g.chance(50) ? DT_F32 : DT_I32;
  Env e = G.e;
  const bool fast = g.chance(35);
  Shape W, N, B;
  Strides st;
  const int R = fast ? 4 : 1 + static_cast<int>(g.below(3));
  const int64_t lim = G.e.p.cost >= 20 ? 2 : 3;
  for (int d = 0; d < R; d++) {
    W.push_back(fast ? (d == 1 || d == 2 ? 2 : 1) : g.range(1, lim));
    st.push_back(fast && (d == 0 || d == 3) ? 1 : g.range(1, 3));
    N.push_back(g.range(1, lim));
    B.push_back((N[d] - 1) * st[d] + W[d]);
  }
  Shape base = B;
  const int what = static_cast<int>(g.below(3));
  if (what == 0) for (int d = 0; d < R; d++) if (!fast || d == 1 || d == 2) base[d] += static_cast<int64_t>(g.below(st[d]));  // the tail is not sampled
  std::vector<std::pair<int64_t, int64_t>> nopad(R, {0, 0});
  const int64_t wn = Numel(W), nn = Numel(N);
  auto sample = [=](const Shape& bs, int64_t n, int64_t w) {
    auto i = Unravel(N, n), k = Unravel(W, w);
    for (int d = 0; d < R; d++) i[d] = i[d] * st[d] + k[d];
    return Ravel(bs, i);
  };
  std::string tx = fmt::format("base {} window {} stride {}", base, W, fmt::join(st, ","));
  const bool ties = g.chance(30) && what == 0;
  auto x = G.Op(base, dt, [&] { return ties ? static_cast<uint128_t>(g.range(-1, 1)) : G.Small(); });
  if (!ties) {  // distinct values
    std::set<uint128_t> seen;
    for (auto& a : x.val) while (!seen.insert(a).second) a = (a + 1) & G.e.M();
  }
  if (what == 0) {
    if (x.vis == 1) x.vis = 2;
    hlo::ReduceWindowConfig cfg;
    cfg.window_shape = W, cfg.window_strides = st, cfg.window_dilations = Sizes(R, 1), cfg.base_dilations = Sizes(R, 1);
    Shape oh = N;
    oh.push_back(wn);
    TStep t{fast ? "argmax-2x2" : "argmax", tx, {x}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
      auto c2 = cfg;
      c2.window_padding = nopad;
      auto r = hlo::ArgMax(ctx, v[0], N, c2);
      return {r.first, r.second};
    }, {Expect(N, Vec{}).D(dt), Expect(oh, Vec{})}, {}};
    t.joint = [=](const std::vector<Vec>& ov) -> std::string {
      for (int64_t n = 0; n < nn; n++) {
        int128_t best = 0;
        int64_t hot = -1;
        for (int64_t w = 0; w < wn; w++) {
          auto q = e.Sg(x.val[sample(base, n, w)]);
          if (w == 0 || q > best) best = q;
          auto h = ov[1][n * wn + w];
          if (h > 1) return fmt::format("window {}: position flag {} is {}", n, w, Hex(h));
          if (h == 1 && hot >= 0) return fmt::format("window {}: two positions selected", n);
          if (h == 1) hot = w;
        }
        if (e.Sg(ov[0][n]) != best) return fmt::format("window {}: maximum {}", n, Hex(ov[0][n]));
        if (hot < 0) return fmt::format("window {}: no position selected", n);
        if (e.Sg(x.val[sample(base, n, hot)]) != best) return fmt::format("window {}: position {} does not hold the maximum", n, hot);
      }
      return "";
    };
    return t;
  }
  auto src = G.Op(N, dt, [&] { return G.Full(); });
  Vec r(Numel(B), 0);
  if (what == 1) {
    for (int64_t n = 0; n < nn; n++) {
      int64_t best = 0;
      for (int64_t w = 1; w < wn; w++) if (e.Sg(x.val[sample(B, n, w)]) > e.Sg(x.val[sample(B, n, best)])) best = w;
      r[sample(B, n, best)] += src.val[n];
    }
    auto i0 = Scalar(G, dt, 0);
    return {"select_and_scatter", tx, {x, src, i0}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
      return {hlo::SelectAndScatter(ctx, v[0], v[1], v[2], W, st, nopad, [&](const Value& a, const Value& b) { return hal::greater_equal(ctx, a, b); }, [&](const Value& a, const Value& b) { return hal::add(ctx, a, b); })};
    }, {Expect(B, r).D(dt)}, {}};
  }
  Shape oh = N;
  oh.push_back(wn);
  auto hot = G.Op(oh, DT_I1, [] { return 0; });
  for (int64_t n = 0; n < nn; n++) {
    auto w = static_cast<int64_t>(g.below(wn));
    hot.val[n * wn + w] = 1;
    r[sample(B, n, w)] += src.val[n];
  }
  return {"maxpool_scatter", tx, {hot, src}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
    return {hlo::MaxPoolScatter(ctx, v[0], v[1], W, B, st, nopad)};
  }, {Expect(B, r).D(dt)}, {}};
}

TStep FlowStep(Gen& G) {
  auto& g = G.g;
  auto s = G.Sh(2, false);
  auto dt = g.chance(50) ? G.Flt() : DT_I32;
  auto x = G.Op(s, dt, [&] { return G.Full(); }), y = G.Op(s, dt, [&] { return G.Full(); });
  Env e = G.e;
  switch (g.below(4)) {
    case 0: {
      bool b = g.chance(50);
      auto p = Scalar(G, DT_I1, b);
      p.vis = g.chance(30) ? 0 : 2;
      return {"if", b ? "true" : "false", {p, x, y}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        return hlo::IfElse(ctx, hal::broadcast_to(ctx, v[0], v[0].isPublic() ? Shape{} : s), [&] { return std::vector<Value>{hal::add(ctx, v[1], v[2]), v[1]}; }, [&] { return std::vector<Value>{hal::sub(ctx, v[1], v[2]), v[2]}; });
      }, {Expect(s, Map2(x.val, y.val, [b](auto a, auto c) { return b ? a + c : a - c; })).D(dt), Expect(s, b ? x.val : y.val).D(dt)}, {}};
    }
    case 1: {
      int64_t n = g.range(1, 4), k = g.range(-2, n + 1);
      auto p = Scalar(G, DT_I32, static_cast<uint128_t>(k));
      p.vis = g.chance(30) ? 0 : 2;
      int64_t take = k < 0 || k >= n ? n - 1 : k;
      return {"case", fmt::format("{} of {}", k, n), {p, x, y}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        std::vector<hlo::BranchFcnT> br;
        for (int64_t i = 0; i < n; i++) br.push_back([=, &v] {
          auto z = v[1];
          for (int64_t q = 0; q < i; q++) z = hal::add(ctx, z, v[2]);
          return std::vector<Value>{z, v[2]};
        });
        return hlo::Case(ctx, v[0], br);
      }, {Expect(s, Map2(x.val, y.val, [take](auto a, auto c) { return a + static_cast<uint128_t>(take) * c; })).D(dt), Expect(s, y.val).D(dt)}, {}};
    }
    case 2: {
      int64_t n = g.range(0, 5);
      auto i0 = Scalar(G, DT_I32, 0);
      i0.vis = 0;
      return {"while", fmt::format("{} times", n), {i0, x, y}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        return hlo::While(ctx, v, [&](absl::Span<const Value> a) { return hal::less(ctx, a[0], hal::constant(ctx, static_cast<int32_t>(n), DT_I32)); },
                          [&](absl::Span<const Value> a) { return std::vector<Value>{hal::add(ctx, a[0], hal::constant(ctx, static_cast<int32_t>(1), DT_I32)), hal::add(ctx, a[1], a[2]), a[2]}; });
      }, {Expect({}, Vec{static_cast<uint128_t>(n)}), Expect(s, Map2(x.val, y.val, [n](auto a, auto c) { return a + static_cast<uint128_t>(n) * c; })).D(dt), Expect(s, y.val).D(dt)}, {}};
    }
    default: {  // every window of an array
      auto b = RankSh(G, 3, 30);
      Shape W, to;
      Strides st;
      for (auto d : b) W.push_back(g.range(1, std::min<int64_t>(d, 3))), st.push_back(g.range(1, 3));
      std::vector<std::pair<int64_t, int64_t>> pd;
      auto z = G.Op(b, dt, [&] { return G.Full(); });
      const bool pad = g.chance(40) && z.vis != 1;
      for (size_t d = 0; d < b.size(); d++) pd.push_back(pad ? std::make_pair(g.range(0, 2), g.range(0, 2)) : std::make_pair(static_cast<int64_t>(0), static_cast<int64_t>(0)));
      for (size_t d = 0; d < b.size(); d++) to.push_back((b[d] + pd[d].first + pd[d].second - W[d]) / st[d] + 1);
      Shape N = to;
      to.insert(to.end(), W.begin(), W.end());
      auto ini = G.Op({}, dt, [&] { return G.Full(); });
      if (ini.vis == 1 || z.vis != 2) ini.vis = 0;
      Vec r(Numel(to));
      for (int64_t k = 0; k < Numel(to); k++) {
        auto o = Unravel(to, k);
        Idx i(b.size());
        bool in = true;
        for (size_t d = 0; d < b.size(); d++) i[d] = o[d] * st[d] + o[d + b.size()] - pd[d].first, in = in && i[d] >= 0 && i[d] < b[d];
        r[k] = in ? z.val[Ravel(b, i)] : ini.val[0];
      }
      return {"expand_window", fmt::format("{} window {} stride {}{}", b, W, fmt::join(st, ","), pad ? " padded" : ""), {z, ini}, RUN(spu::kernel::expandWindow(ctx, v[0], W, st, pd, v[1])), {Expect(to, r).D(dt)}, {}};
    }
  }
}

// ---- C22 --------------------------------------------------------------------
TStep DotStep(Gen& G) {
  auto& g = G.g;
  auto D = [&](int64_t m) { return 1 + static_cast<int64_t>(g.below(m)); };
  const int what = static_cast<int>(g.below(3));
  int mode = static_cast<int>(g.below(3));  // integers, mixed, fixed point
  // mixed convolution goes through fixed point
  const bool half = what == 2 && mode == 1;
  if (G.e.f == FM32 && G.e.p.kind != REF2K && (mode == 2 || half)) mode = 0;
  auto dx = mode == 2 ? G.Flt() : G.Int(), dy = mode == 0 ? dx : G.Flt();
  auto val = [&]() -> uint128_t {
    if (mode != 2 && !half) return G.Full();
    return static_cast<uint128_t>(static_cast<int128_t>(std::llround(g.uniform(-2, 2) * std::ldexp(1.0, static_cast<int>(G.e.fxp)))));
  };
  Shape sx, sy, to;
  std::vector<std::tuple<int64_t, int64_t, int64_t>> terms;  // result, left, right
  std::function<Value(Ctx*, const Value&, const Value&)> f;
  std::string name, text;
  const int64_t b = G.e.p.cost >= 20 ? 3 : 6;
  switch (what) {
    case 0: {
      int64_t m = D(b), k = D(b + 2), n = D(b);
      sx = {m, k}, sy = {k, n}, to = {m, n};
      for (int64_t i = 0; i < m; i++) for (int64_t j = 0; j < n; j++) for (int64_t q = 0; q < k; q++) terms.emplace_back(i * n + j, i * k + q, q * n + j);
      name = "dot", text = fmt::format("{} {}", sx, sy);
      f = [](Ctx* c, const Value& x, const Value& y) { return hlo::Dot(c, x, y); };
      break;
    }
    case 1: {
      int64_t B = D(3), m = D(b), k = D(b), n = D(b);
      sx = {B, m, k}, sy = {B, k, n}, to = {B, m, n};
      for (int64_t a = 0; a < B; a++) for (int64_t i = 0; i < m; i++) for (int64_t j = 0; j < n; j++) for (int64_t q = 0; q < k; q++) terms.emplace_back((a * m + i) * n + j, (a * m + i) * k + q, (a * k + q) * n + j);
      name = "dot_general", text = fmt::format("{} {}", sx, sy);
      f = [](Ctx* c, const Value& x, const Value& y) { return hlo::DotGeneral(c, x, y); };
      break;
    }
    default: {
      int64_t N = D(2), C = D(2), O = D(3), h = D(3), w = D(3), sh = D(2), sw = D(2);
      int64_t H = h + static_cast<int64_t>(g.below(4)), W = w + static_cast<int64_t>(g.below(4));
      int64_t hh = (H - h) / sh + 1, ww = (W - w) / sw + 1;
      sx = {N, H, W, C}, sy = {h, w, C, O}, to = {N, hh, ww, O};
      for (int64_t n = 0; n < N; n++) for (int64_t i = 0; i < hh; i++) for (int64_t j = 0; j < ww; j++) for (int64_t o = 0; o < O; o++)
        for (int64_t a = 0; a < h; a++) for (int64_t q = 0; q < w; q++) for (int64_t c = 0; c < C; c++)
          terms.emplace_back(((n * hh + i) * ww + j) * O + o, ((n * H + i * sh + a) * W + j * sw + q) * C + c, ((a * w + q) * C + c) * O + o);
      name = "convolution", text = fmt::format("{} {} stride {},{}", sx, sy, sh, sw);
      hlo::ConvolutionConfig cfg;
      cfg.window_strides = {sh, sw};
      f = [=](Ctx* c, const Value& x, const Value& y) { return hlo::Convolution2D(c, x, y, cfg, to); };
    }
  }
  auto x = G.Op(sx, dx, val), y = G.Op(sy, dy, val);
  if (mode == 1 && g.chance(50)) std::swap(x.dt, y.dt);
  if (mode == 1 && half) for (auto& q : (isFixedPoint(x.dt) ? y : x).val) q = static_cast<uint128_t>(static_cast<int128_t>(g.range(-3, 3)));
  auto dt = std::max(x.dt, y.dt);
  Vec r(Numel(to), 0);
  for (auto& [o, a, c] : terms) r[o] += x.val[a] * y.val[c];
  TStep t{name, text, {x, y}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> { return {f(ctx, v[0], v[1])}; }, {}, {}};
  if (mode == 0 || (mode == 1 && !half)) {
    t.out.push_back(Expect(to, r).D(dt));
    return t;
  }
  Env e = G.e;
  t.text += " fxp";
  const int64_t down = mode == 2 ? static_cast<int64_t>(e.fxp) : 0;
  const size_t B = G.B;
  t.out.push_back(Expect(to, [=](const Vec& v) -> std::string {
    int slips = 0;
    for (size_t i = 0; i < v.size(); i++) {
      auto d = e.Sg(v[i]) - (e.Sg(r[i] & e.M()) >> down);
      if (d < 0) d = -d;
      if (d <= 2) continue;
      // probabilistic truncation slips by 2^(B-fxp) once in a very long while
      auto slip = int128_t(1) << (B - e.fxp);
      if (d >= slip - 2 && d <= slip + 2 && ++slips == 1) continue;
      return fmt::format("element {}: got {} for the sum of products {}", i, Hex(v[i]), Hex(r[i] & e.M()));
    }
    return "";
  }).D(dt));
  return t;
}

// ---- element-wise (C19) -----------------------------------------------------
TStep PointStep(Gen& G) {
  auto& g = G.g;
  auto sh = G.Sh(2);
  Env e = G.e;
  const int64_t f = static_cast<int64_t>(e.fxp);
  auto S = [e](uint128_t a) { return e.Sg(a); };
  auto fx = [&]() -> uint128_t {  // halves and whole numbers often
    if (g.chance(40)) return static_cast<uint128_t>(g.range(-9, 9)) << (f - 1);
    if (g.chance(50)) return static_cast<uint128_t>(g.range(-(int64_t(6) << f), int64_t(6) << f));
    return static_cast<uint128_t>(S(G.Small()) / 4);
  };
  switch (g.below(10)) {
    case 0: {
      auto x = G.Op(sh, G.Flt(), fx);
      return {"round-away", "", {x}, RUN(hlo::Round_AFZ(ctx, v[0])), {Expect(sh, Map(x.val, [&](auto a) {
        auto s = S(a);
        int128_t m = s < 0 ? -s : s;
        m = (m + (int128_t(1) << (f - 1))) >> f;
        return static_cast<uint128_t>(s < 0 ? -m : m) << f;
      })).D(x.dt)}, {}};
    }
    case 1: {
      auto x = G.Op(sh, G.Flt(), fx);
      return {"round-even", "", {x}, RUN(hlo::Round_RNTE(ctx, v[0])), {Expect(sh, Map(x.val, [&](auto a) {
        auto s = S(a);
        int128_t q = s >> f, rem = s - q * (int128_t(1) << f), half = int128_t(1) << (f - 1);
        if (rem > half || (rem == half && (q & 1))) q++;
        return static_cast<uint128_t>(q) << f;
      })).D(x.dt)}, {}};
    }
    case 2: {
      const bool ig = g.chance(40), fl = g.chance(50);
      auto x = G.Op(sh, fl ? G.Flt() : DT_I32, [&] { return g.chance(30) ? 0 : G.Small(); });
      return {"sign", ig ? "no zero" : "", {x}, RUN(hlo::Sign(ctx, v[0], ig)), {Expect(sh, Map(x.val, [&](auto a) {
        auto s = S(a);
        int128_t r = s < 0 ? -1 : s > 0 || ig ? 1 : 0;
        return static_cast<uint128_t>(r) << (fl ? f : 0);
      })).D(x.dt)}, {}};
    }
    case 3: {
      auto dt = g.pick(std::vector<DataType>{DT_I8, DT_U8, DT_I16, DT_U16, DT_I32, DT_U32, DT_I64, DT_U64});
      size_t w = getWidth(dt);
      if (w > G.B) dt = DT_I32, w = 32;
      if (Numel(sh) == 0) sh = {3};
      auto x = G.Op(sh, dt, [&] { return RingVal(g, w); });
      return {"popcount", fmt::format("{}", dt), {x}, RUN(hlo::Popcnt(ctx, v[0])), {Expect(sh, Map(x.val, [&](auto a) {
        uint128_t n = 0;
        for (size_t k = 0; k < w; k++) n += (a >> k) & 1;
        return n;
      })).D(dt)}, {}};
    }
    case 4: {
      const bool b = g.chance(50);
      auto x = G.Op(sh, b ? DT_I1 : g.pick(kSgn), [&] { return b ? uint128_t(g.below(2)) : G.Full(); });
      return {"not", b ? "logical" : "bitwise", {x}, RUN(hlo::Not(ctx, v[0])), {Expect(sh, Map(x.val, [&](auto a) { return b ? 1 - a : ~a; })).D(x.dt)}, {}};
    }
    case 5: {
      if (G.e.f != FM64) return PointStep(G);
      auto x = G.Op(sh, DT_I32, [&] { return static_cast<uint128_t>(g.range(-500, 500)); });
      auto y = G.Op(sh, DT_I32, [&] { auto q = g.range(1, 60); return static_cast<uint128_t>(g.chance(50) ? q : -q); });
      return {"remainder", "", {x, y}, RUN(hlo::Remainder(ctx, v[0], v[1])), {Expect(sh, Map2(x.val, y.val, [&](auto a, auto b) { return static_cast<uint128_t>(S(a) % S(b)); })).D(DT_I32)}, {}};
    }
    case 6:
    case 7: {  // shifts, the amount may be secret
      const int k = static_cast<int>(g.below(3));
      auto dt = g.pick(std::vector<DataType>{DT_I8, DT_U8, DT_I16, DT_I32, DT_U32});
      const int64_t w = static_cast<int64_t>(getWidth(dt));
      if (Numel(sh) > 12) sh = {3};
      auto x = G.Op(sh, dt, [&] { return G.Full(); });
      auto y = G.Op(sh, dt, [&] { return static_cast<uint128_t>(g.range(0, w - 1)); });
      if (y.vis != 0 && w > 16 && G.e.p.cost >= 20) y.vis = 0, y.as_bool = false;
      Vec r = Map2(x.val, y.val, [&](auto a, auto n) { return k == 0 ? a << n : k == 1 ? a >> n : static_cast<uint128_t>(S(a) >> n); });
      return {k == 0 ? "shift-left" : k == 1 ? "shift-right" : "shift-arith", fmt::format("{}", dt), {x, y},
              [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> { return {k == 0 ? hlo::Lshift(ctx, v[0], v[1]) : k == 1 ? hlo::Rshift(ctx, v[0], v[1]) : hlo::ARshift(ctx, v[0], v[1])}; },
              {Expect(sh, r).D(dt)}, {}};
    }
    case 8: {
      auto a = G.Int(), b = G.Int();
      auto x = G.Op(sh, a, [&] { return G.Full(); });
      auto vis = x.vis == 2 ? (g.chance(50) ? VIS_PUBLIC : VIS_SECRET) : VIS_SECRET;
      return {"cast", fmt::format("{} to {} {}", a, b, vis), {x}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        auto r = hlo::Cast(ctx, v[0], vis, b);
        if (r.vtype() != vis) SPU_THROW("cast to {} gives {}", vis, r.vtype());
        return {r};
      }, {Expect(sh, x.val).D(b)}, {}};
    }
    default: {
      auto dt = g.chance(50) ? G.Flt() : DT_I32;
      auto p = G.Op(sh, DT_I1, [&] { return g.below(2); });
      auto x = G.Op(sh, dt, [&] { return G.Full(); }), y = G.Op(sh, dt, [&] { return G.Full(); });
      Vec r;
      for (size_t i = 0; i < x.val.size(); i++) r.push_back(p.val[i] ? x.val[i] : y.val[i]);
      if (dt == DT_I32 || G.e.p.spdz2k) return {"select", "", {p, x, y}, RUN(hlo::Select(ctx, v[0], v[1], v[2])), {Expect(sh, r).D(dt)}, {}};
      auto x2 = G.Op(sh, dt, [&] { return G.Full(); }), y2 = x2;
      x.as_bool = y.as_bool = x2.as_bool = y2.as_bool = false;
      x.dt = y.dt = x2.dt = y2.dt = DT_F32;
      Same(x2, x), Same(y2, y);
      for (auto& a : y2.val) a = G.Full() & G.e.M();
      Vec r2;
      for (size_t i = 0; i < x.val.size(); i++) r2.push_back(p.val[i] ? x2.val[i] : y2.val[i]);
      return {"select-complex", "", {p, x, x2, y, y2}, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
        auto z = hlo::Select(ctx, v[0], hlo::Complex(ctx, v[1], v[2]), hlo::Complex(ctx, v[3], v[4]));
        return {hlo::Real(ctx, z), hlo::Imag(ctx, z)};
      }, {Expect(sh, r), Expect(sh, r2)}, {}};
    }
  }
}

// ---- C31 --------------------------------------------------------------------
TStep GroupStep(Gen& G) {
  auto& g = G.g;
  const int64_t n = 1 + static_cast<int64_t>(g.below(20));
  const int nk = 1 + static_cast<int>(g.below(3)), np = 1 + static_cast<int>(g.below(2));
  const bool avg = g.chance(40) && G.e.f == FM64, drop = avg && g.chance(50);
  std::vector<Operand> in;
  for (int i = 0; i < nk; i++) {
    auto o = G.Op({n}, IdxType(G), [&] { return static_cast<uint128_t>(g.range(-2, 2)); });
    if (g.chance(20)) for (auto& a : o.val) a = G.Small() & G.e.M();
    o.as_bool = false;
    if (i == 0) o.vis = static_cast<int>(g.below(2));
    else o.vis = in[0].vis, o.owner = in[0].owner;
    in.push_back(o);
  }
  const bool fl = avg || g.chance(30);
  for (int i = 0; i < np; i++) {
    auto o = G.Op({n}, fl ? DT_F32 : DT_I32, [&] { return avg ? static_cast<uint128_t>(static_cast<int128_t>(std::llround(g.uniform(-100, 100) * std::ldexp(1.0, static_cast<int>(G.e.fxp))))) : G.Full(); });
    if (i) Same(o, in[nk]);
    in.push_back(o);
  }
  std::map<std::vector<int128_t>, std::pair<int64_t, Vec>> groups;
  for (int64_t i = 0; i < n; i++) {
    std::vector<int128_t> k;
    for (int q = 0; q < nk; q++) k.push_back(G.e.Sg(in[q].val[i]));
    auto& gr = groups[k];
    gr.first++;
    gr.second.resize(np, 0);
    for (int q = 0; q < np; q++) gr.second[q] += in[nk + q].val[i];
  }
  const int64_t ng = static_cast<int64_t>(groups.size());
  TStep t{avg ? "group-avg" : "group-sum", fmt::format("{} rows {} keys {} groups{}", n, nk, ng, drop ? " drop" : ""), in, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
    hlo::GroupByAggOptions o;
    o.unsafe_output_order_drop_rest = drop;
    return hlo::GroupByAgg(ctx, absl::MakeConstSpan(v).subspan(0, nk), absl::MakeConstSpan(v).subspan(nk), avg ? hlo::AggFunc::Avg : hlo::AggFunc::Sum, {}, o);
  }, {}, {}};
  Shape to = {drop ? ng : n};
  for (int q = 0; q < nk + np; q++) t.out.push_back(Expect(to, Vec{}));
  Env e = G.e;
  t.joint = [=](const std::vector<Vec>& ov) -> std::string {
    int64_t i = 0;
    for (auto& [k, gr] : groups) {
      for (int q = 0; q < nk; q++) if (e.Sg(ov[q][i]) != k[q]) return fmt::format("group {}: key {} is {}", i, q, Hex(ov[q][i]));
      for (int q = 0; q < np; q++) {
        auto got = ov[nk + q][i];
        if (!avg && got != (gr.second[q] & e.M())) return fmt::format("group {}: sum {} is {} want {}", i, q, Hex(got), Hex(gr.second[q] & e.M()));
        if (avg) {
          double want = e.Dec(gr.second[q] & e.M()) / static_cast<double>(gr.first);
          if (!(std::abs(e.Dec(got) - want) <= 1e-3 * (std::abs(want) + 1) + std::abs(want) * gr.first * 2e-4 + 64 * std::ldexp(1.0, -static_cast<int>(e.fxp)) * (std::abs(want) * gr.first + 1))) return fmt::format("group {}: average {} is {} want {}", i, q, e.Dec(got), want);
        }
      }
      i++;
    }
    return "";
  };
  return t;
}

// ---- C27: the shared cipher --------------------------------------------------
TStep PrfStep(Gen& G) {
  auto& g = G.g;
  auto s = RankSh(G, 2, 16);
  const int n = g.chance(50) ? 1 : 1 + static_cast<int>(g.below(3));
  const bool multi = n > 1 || g.chance(50);
  std::vector<Operand> in;
  for (int i = 0; i < n; i++) {
    in.push_back(G.Op(s, IdxType(G), [&] { return static_cast<uint128_t>(g.range(-2, 2)); }));
    if (g.chance(30)) for (auto& a : in.back().val) a = G.Full() & G.e.M();
  }
  TStep t{multi ? "soprf-multi" : "soprf", fmt::format("{} inputs {}", s, n), in, [=](Ctx* ctx, const std::vector<Value>& v) -> std::vector<Value> {
    return {multi ? hlo::SoPrf(ctx, absl::MakeSpan(v)) : hlo::SoPrf(ctx, v[0])};
  }, {Expect(s, Vec{})}, {}};
  t.joint = [=](const std::vector<Vec>& ov) -> std::string {
    std::map<Vec, uint128_t> f;
    std::map<uint128_t, Vec> inv;
    for (int64_t k = 0; k < Numel(s); k++) {
      Vec x;
      for (auto& o : in) x.push_back(o.val[k]);
      auto y = ov[0][k];
      if (f.count(x) && f[x] != y) return fmt::format("element {}: the same input has two images", k);
      if (inv.count(y) && inv[y] != x) return fmt::format("element {}: two inputs share the image {}", k, Hex(y));
      f[x] = y, inv[y] = x;
    }
    return "";
  };
  return t;
}

using Maker = std::function<TStep(Gen&)>;
void Run(Case& c, const Proto& p, const std::string& tag, int n, const Maker& mk) {
  auto& g = c.rng;
  Env e{p, FM64, 18, {}};
  e.f = g.pick(FieldsOf(p));
  if (tag == "prf" && e.f == FM32) e.f = FM64;
  e.fxp = e.f == FM32 ? 8 : e.f == FM64 ? 18 : static_cast<size_t>(g.pick(std::vector<int>{18, 26, 40}));
  const bool par = g.chance(20), novec = g.chance(20);
  const bool pattern = tag.compare(0, 4, "pat-") == 0;
  int method = static_cast<int>(g.below(4));
  // quick sort opens the comparisons of a shuffled array and works from those
  if (pattern) method = HasPerm(p) && g.chance(50) ? RuntimeConfig::SORT_RADIX : RuntimeConfig::SORT_NETWORK;
  const int64_t thr = g.pick(std::vector<int64_t>{1, 4, 32});
  e.tweak = [=](MpcOpt& o) {
    o.cfg.experimental_enable_intra_op_par = par;
    o.cfg.experimental_disable_vectorization = novec;
    o.cfg.sort_method = static_cast<RuntimeConfig::SortMethod>(method);
    o.cfg.quick_sort_threshold = thr;
  };
  Gen G(c, e);
  std::vector<TStep> st;
  for (int i = 0; i < n; i++) {
    auto s = mk(G);
    if (tag == "sort") s.text += fmt::format(" method {} thr {}", method, thr);
    if (p.kind == SWIFT) for (auto& o : s.in) if (o.vis == 1) o.vis = 2;  // no common type for values of different owners
    st.push_back(std::move(s));
  }
  if (pattern) return RunPattern(c, e, "pat", st);
  RunSteps(c, e, tag, st);
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<Group> gs;
  for (auto& p : Protos()) {
    if (p.spdz2k) continue;
    const bool slow = p.cost >= 20;
    auto add = [&](const std::string& tag, uint64_t q, int n, const Maker& mk) {
      gs.push_back({tag + "-" + p.name, q, q * 20, [p, tag, n, mk](Case& c) { Run(c, p, tag, n, mk); }});
    };
    const uint64_t q = p.npc == 1 ? 500 : slow ? 60 : 160;
    const int n = slow ? 1 : 2;
    add("sort", q, n, [p](Gen& G) {
      uint64_t k = G.g.below(100);
      if (k < 50) return SortStep(G);
      if (k < 65 && G.e.f != FM32) return TopkStep(G);  // the 32 bit ring has no room for its I64 counters
      if (!HasPerm(p) || k < 75) return ShuffleStep(G);
      return k < 90 ? PermStep(G) : GenPermStep(G);
    });
    add("move", 2 * q, n + 1, [](Gen& G) {
      uint64_t k = G.g.below(100);
      if (G.e.f == FM32) return k < 45 ? GeoStep(G) : k < 80 ? ReduceStep(G) : FlowStep(G);  // I64 positions do not fit
      return k < 30 ? GeoStep(G) : k < 55 ? IndexStep(G) : k < 75 ? ReduceStep(G) : k < 88 ? PoolStep(G) : FlowStep(G);
    });
    add("dot", 5 * q, n, DotStep);
    add("pw", q, n, PointStep);
    if (p.npc > 1) {
      add("pat-sort", q / 3, 1, [](Gen& G) { return G.g.chance(75) ? SortStep(G) : ShuffleStep(G); });
      add("pat-move", q / 2, n, [](Gen& G) {
        uint64_t k = G.g.below(100);
        if (G.e.f == FM32) return k < 30 ? GeoStep(G) : k < 80 ? ReduceStep(G) : FlowStep(G);
        return k < 15 ? GeoStep(G) : k < 45 ? IndexStep(G) : k < 65 ? ReduceStep(G) : k < 85 ? PoolStep(G) : FlowStep(G);
      });
      add("pat-dot", q / 2, n, DotStep);
      add("pat-pw", q / 2, n, PointStep);
    }
    if (HasPerm(p)) add("agg", 3 * q, n, GroupStep);
    if (p.kind == SEMI2K) add("prf", slow ? 20 : 40, 1, PrfStep);
    if (!slow && p.kind != SECURENN) gs.push_back({std::string("uniform-") + p.name, 2, 10, [p](Case& c) { ShuffleUniform(c, p); }});
  }
  return vh::Main(argc, argv, gs);
}
