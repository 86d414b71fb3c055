// C04: local kernels (ring arithmetic, matrix product, Mersenne-prime field,
// permutations, tiling) against plain integer models, on operands of any
// layout.
#include <numeric>

#include "arr.h"

#include "libspu/core/parallel_utils.h"
#include "libspu/core/value.h"
#include "libspu/core/xt_helper.h"
#include "libspu/mpc/utils/gfmp.h"
#include "libspu/mpc/utils/gfmp_ops.h"
#include "libspu/mpc/utils/linalg.h"
#include "libspu/mpc/utils/permute.h"
#include "libspu/mpc/utils/ring_ops.h"
#include "libspu/mpc/utils/tiling_util.h"

using namespace spu;
using namespace spu::mpc;
using vh::Case;
using vh::Count;
using vh::Cover;
using vh::Describe;
using vh::Fail;
using vh::Rng;
using V = std::vector<uint128_t>;

namespace {
const FieldType kFields[] = {FM32, FM64, FM128};

// ---------------------------------------------------------------- matmul
int64_t Dim(Rng& g, bool big) {
  if (g.chance(4)) return 0;
  if (g.chance(25)) return 1;
  if (big) return g.range(1, 150);
  return g.range(1, 14);
}
template <typename T>
T MatVal(Rng& g) {
  if constexpr (std::is_floating_point_v<T>) return static_cast<T>(g.range(-100, 100));
  else if constexpr (std::is_signed_v<T>) return static_cast<T>(g.range(-2000, 2000));
  else return static_cast<T>(vh::RingVal(g, sizeof(T) * 8));
}
template <typename T>
struct Mat {
  std::vector<T> mem;
  int64_t ld, id, base;
  T* p() { return mem.data() + base; }
};
template <typename T>
Mat<T> MakeMat(Rng& g, int64_t r, int64_t c, bool overlap) {
  Mat<T> m;
  int64_t a = 1 + (g.chance(35) ? g.range(1, 4) : 0);
  if (g.chance(50)) {  // row major
    m.id = a;
    m.ld = a * std::max<int64_t>(c, 1) + (g.chance(40) ? g.range(0, 5) : 0);
  } else {
    m.ld = a;
    m.id = a * std::max<int64_t>(r, 1) + (g.chance(40) ? g.range(0, 5) : 0);
  }
  if (overlap && g.chance(12)) m.ld = 0;
  if (overlap && g.chance(12)) m.id = 0;
  if (g.chance(8)) m.ld = -m.ld;
  if (g.chance(8)) m.id = -m.id;
  int64_t lo = 0, hi = 0;
  auto add = [&](int64_t n, int64_t s) { if (n > 0) ((n - 1) * s < 0 ? lo : hi) += (n - 1) * s; };
  add(r, m.ld);
  add(c, m.id);
  m.base = -lo;
  m.mem.resize(r == 0 || c == 0 ? 1 : hi - lo + 1);
  for (auto& v : m.mem) v = MatVal<T>(g);
  return m;
}
template <typename T>
void MatmulCase(Case& c, const char* nm) {
  auto& g = c.rng;
  bool big = g.chance(c.thorough ? 15 : 6);
  int64_t M = Dim(g, big), N = Dim(g, big), K = Dim(g, big);
  if (g.chance(15)) K = g.range(1, big ? 700 : 40);
  auto a = MakeMat<T>(g, M, K, true);
  auto b = MakeMat<T>(g, K, N, true);
  auto o = MakeMat<T>(g, M, N, false);
  Describe(c, fmt::format("matmul<{}> {}x{}x{} A({},{}) B({},{}) C({},{})", nm, M, K, N, a.ld, a.id, b.ld, b.id, o.ld, o.id));
  auto want = o.mem;
  for (int64_t i = 0; i < M; i++) {
    for (int64_t j = 0; j < N; j++) {
      T s = 0;
      for (int64_t k = 0; k < K; k++) s += static_cast<T>(a.p()[i * a.ld + k * a.id] * b.p()[k * b.ld + j * b.id]);
      want[o.base + i * o.ld + j * o.id] = s;
    }
  }
  auto am = a.mem, bm = b.mem;
  linalg::matmul<T>(M, N, K, a.p(), a.ld, a.id, b.p(), b.ld, b.id, o.p(), o.ld, o.id);
  if (o.mem != want) {
    size_t i = 0;
    while (o.mem[i] == want[i]) i++;
    return Fail(c, "matmul", fmt::format("memory cell {} differs (base {}): an entry of C is wrong or a cell outside C was written", i, o.base));
  }
  if (am != a.mem || bm != b.mem) return Fail(c, "matmul:operand", "operand changed");
  Count("matrix products");
  Count("matrix entries", M * N);
  auto cls = [](int64_t n) { return n == 0 ? "0" : n == 1 ? "1" : n < 16 ? "s" : "l"; };
  auto sc = [](int64_t n) { return n == 0 ? "0" : n < 0 ? "-" : n == 1 ? "1" : "+"; };
  Cover(fmt::format("mm/{}/{}{}{}/{}{}{}{}{}{}", nm, cls(M), cls(K), cls(N), sc(a.ld), sc(a.id), sc(b.ld), sc(b.id), sc(o.ld), sc(o.id)));
}
void Matmul(Case& c) {
  switch (c.rng.below(8)) {
    case 0: return MatmulCase<uint32_t>(c, "u32");
    case 1: return MatmulCase<uint64_t>(c, "u64");
    case 2: return MatmulCase<uint128_t>(c, "u128");
    case 3: return MatmulCase<int64_t>(c, "i64");
    case 4: return MatmulCase<int32_t>(c, "i32");
    case 5: return MatmulCase<double>(c, "f64");
    case 6: return MatmulCase<float>(c, "f32");
    default: return MatmulCase<uint64_t>(c, "u64");
  }
}

// ---------------------------------------------------------------- ring ops
struct Op {
  const char* name;
  int nargs;
};
V Vals(Rng& g, size_t n, size_t k) {
  V v(n);
  for (auto& x : v) x = vh::RingVal(g, k);
  return v;
}
NdArrayRef Fresh(Rng& g, FieldType f, const Shape& sh, bool overlap) {
  return vh::RandView(g, makeType<RingTy>(f), sh, overlap);
}
// A view filled with interesting values (re-read, since it may overlap).
NdArrayRef Filled(Rng& g, FieldType f, const Shape& sh, bool overlap, V* out) {
  auto a = Fresh(g, f, sh, overlap);
  vh::WriteRing(a, Vals(g, a.numel(), vh::FieldBits(f)));
  *out = vh::ReadRing(a);
  return a;
}
Shape KShape(Rng& g, bool large) {
  if (large) {
    if (g.chance(50)) return {g.range(49000, 120000)};
    return {g.range(2, 5), g.range(20000, 40000)};
  }
  return vh::RandShape(g, 4, 60);
}
std::string ShapeStr(const Shape& s) { return vh::Str(std::vector<int64_t>(s.begin(), s.end())); }

bool Same(Case& c, const std::string& key, const V& got, const V& want, size_t k, const std::string& how) {
  if (got.size() != want.size()) {
    Fail(c, "ring:" + key, fmt::format("{} elements, want {}; {}", got.size(), want.size(), how));
    return false;
  }
  for (size_t i = 0; i < got.size(); i++) {
    if (got[i] != (want[i] & vh::Mask(k))) {
      Fail(c, "ring:" + key, fmt::format("element {} is {} want {}; {}", i, vh::Hex(got[i]), vh::Hex(want[i] & vh::Mask(k)), how));
      return false;
    }
  }
  Count("ring elements", got.size());
  return true;
}

void RingOps(Case& c) {
  auto& g = c.rng;
  FieldType f = kFields[g.below(3)];
  const size_t k = vh::FieldBits(f);
  bool large = g.chance(c.thorough ? 3 : 1);
  static const char* ops[] = {"neg", "not", "add", "sub", "mul", "muls", "and", "xor", "equal", "arshift", "rshift", "lshift",
                              "bitrev", "bitmask", "assign", "mmul", "sum", "select", "cast_boolean", "all_equal", "zeros", "ones", "set_value"};
  std::string op = ops[g.below(sizeof(ops) / sizeof(*ops))];
  Shape sh = KShape(g, large);
  bool inplace = g.chance(40);
  V x, y;
  auto ax = Filled(g, f, sh, !inplace, &x);
  auto ay = Filled(g, f, sh, true, &y);
  const size_t n = x.size();
  Describe(c, fmt::format("{}{} {} x{} y{}", op, inplace ? "_" : "", vh::FieldName(f), vh::Layout(ax), vh::Layout(ay)));
  auto out0 = vh::Outside(ax);
  auto full = [](const NdArrayRef& a) {
    const auto* p = static_cast<const uint8_t*>(static_cast<const void*>(a.buf()->data<uint8_t>()));
    return std::vector<uint8_t>(p, p + a.buf()->size());
  };
  auto fx = full(ax), fy = full(ay);
  V want(n);
  NdArrayRef r = ax;
  std::string arg;
  bool is_inplace = inplace;
  auto bin = [&](auto fn, auto fn_, auto model) {
    for (size_t i = 0; i < n; i++) want[i] = model(x[i], y[i]);
    if (inplace) fn_(r, ay);
    else r = fn(ax, ay);
  };
  if (op == "neg" || op == "not") {
    for (size_t i = 0; i < n; i++) want[i] = op == "neg" ? uint128_t(0) - x[i] : ~x[i];
    if (inplace) (op == "neg" ? ring_neg_ : ring_not_)(r);
    else r = (op == "neg" ? ring_neg : ring_not)(ax);
  } else if (op == "add") {
    bin([](auto& a, auto& b) { return ring_add(a, b); }, [](auto& a, auto& b) { ring_add_(a, b); }, [](uint128_t a, uint128_t b) { return a + b; });
  } else if (op == "sub") {
    bin([](auto& a, auto& b) { return ring_sub(a, b); }, [](auto& a, auto& b) { ring_sub_(a, b); }, [](uint128_t a, uint128_t b) { return a - b; });
  } else if (op == "mul") {
    bin([](auto& a, auto& b) { return ring_mul(a, b); }, [](auto& a, auto& b) { ring_mul_(a, b); }, [](uint128_t a, uint128_t b) { return a * b; });
  } else if (op == "and") {
    bin([](auto& a, auto& b) { return ring_and(a, b); }, [](auto& a, auto& b) { ring_and_(a, b); }, [](uint128_t a, uint128_t b) { return a & b; });
  } else if (op == "xor") {
    bin([](auto& a, auto& b) { return ring_xor(a, b); }, [](auto& a, auto& b) { ring_xor_(a, b); }, [](uint128_t a, uint128_t b) { return a ^ b; });
  } else if (op == "equal") {
    // make some elements equal
    for (size_t i = 0; i < n; i++) if (g.chance(50)) y[i] = x[i];
    vh::WriteRing(ay, y);
    y = vh::ReadRing(ay);
    fy = full(ay);
    bin([](auto& a, auto& b) { return ring_equal(a, b); }, [](auto& a, auto& b) { ring_equal_(a, b); }, [](uint128_t a, uint128_t b) { return uint128_t(a == b); });
  } else if (op == "muls") {
    uint128_t s = vh::RingVal(g, g.chance(30) ? 128 : k);
    arg = vh::Hex(s);
    for (size_t i = 0; i < n; i++) want[i] = x[i] * s;
    if (inplace) ring_mul_(r, s);
    else if (g.chance(30)) { ax = Filled(g, f, sh, false, &x); fx = full(ax); out0 = vh::Outside(ax); for (size_t i = 0; i < n; i++) want[i] = x[i] * s; NdArrayRef t = ax; r = ring_mul(std::move(t), s); is_inplace = true; }
    else r = ring_mul(ax, s);
  } else if (op == "arshift" || op == "rshift" || op == "lshift") {
    Sizes bits;
    bool splat = g.chance(60) || n == 0;
    for (size_t i = 0; i < (splat ? 1 : n); i++) bits.push_back(g.chance(20) ? 0 : g.chance(20) ? k - 1 : g.below(k));
    arg = fmt::format("bits {}", vh::Str(std::vector<int64_t>(bits.begin(), bits.begin() + std::min<size_t>(bits.size(), 8))));
    for (size_t i = 0; i < n; i++) {
      size_t b = splat ? bits[0] : bits[i];
      want[i] = op == "lshift" ? x[i] << b : op == "rshift" ? x[i] >> b : static_cast<uint128_t>(vh::Signed(x[i], k) >> b);
    }
    if (inplace) (op == "lshift" ? ring_lshift_ : op == "rshift" ? ring_rshift_ : ring_arshift_)(r, bits);
    else r = (op == "lshift" ? ring_lshift : op == "rshift" ? ring_rshift : ring_arshift)(ax, bits);
  } else if (op == "bitrev") {
    size_t e = g.below(k + 1), s = g.below(e + 1);
    if (g.chance(20)) e = k;
    if (g.chance(20)) s = 0;
    arg = fmt::format("[{}, {})", s, e);
    for (size_t i = 0; i < n; i++) {
      uint128_t v = 0;
      for (size_t b = 0; b < k; b++) {
        size_t src = b >= s && b < e ? s + e - 1 - b : b;
        if ((x[i] >> src) & 1) v |= uint128_t(1) << b;
      }
      want[i] = v;
    }
    if (inplace) ring_bitrev_(r, s, e);
    else r = ring_bitrev(ax, s, e);
  } else if (op == "bitmask") {
    size_t lo = g.below(k), hi = lo + 1 + g.below(k - lo);
    if (g.chance(20)) { lo = 0; hi = k; }
    if (g.chance(10)) hi = k;
    arg = fmt::format("[{}, {})", lo, hi);
    for (size_t i = 0; i < n; i++) want[i] = x[i] & vh::Mask(hi) & ~vh::Mask(lo);
    if (inplace) ring_bitmask_(r, lo, hi);
    else r = ring_bitmask(ax, lo, hi);
  } else if (op == "assign") {
    if (!inplace) ax = Filled(g, f, sh, false, &x), r = ax, out0 = vh::Outside(ax);
    is_inplace = true;
    ring_assign(r, ay);
    want = y;
  } else if (op == "mmul") {
    int64_t M = large ? 60 : Dim(g, false), K = large ? 130 : Dim(g, false), N = large ? 70 : Dim(g, false);
    V a, b;
    auto A = Filled(g, f, {M, K}, true, &a);
    auto B = Filled(g, f, {K, N}, true, &b);
    Describe(c, fmt::format("mmul{} {} A{} B{}", inplace ? "_" : "", vh::FieldName(f), vh::Layout(A), vh::Layout(B)));
    want.assign(M * N, 0);
    for (int64_t i = 0; i < M; i++)
      for (int64_t j = 0; j < N; j++)
        for (int64_t q = 0; q < K; q++) want[i * N + j] += a[i * K + q] * b[q * N + j];
    if (inplace) {
      r = Fresh(g, f, {M, N}, false);
      ax = r;
      out0 = vh::Outside(r);
      ring_mmul_(r, A, B);
    } else {
      r = ring_mmul(A, B);
    }
    if (r.shape() != Shape{M, N}) return Fail(c, "ring:mmul:shape", ShapeStr(r.shape()));
    if (vh::ReadRing(A) != a || vh::ReadRing(B) != b) return Fail(c, "ring:operand", "mmul changed an operand");
    sh = {M, N};
  } else if (op == "sum") {
    is_inplace = false;
    size_t m = g.range(1, 6);
    std::vector<NdArrayRef> as;
    for (size_t q = 0; q < m; q++) {
      V t;
      as.push_back(Filled(g, f, sh, true, &t));
      for (size_t i = 0; i < t.size(); i++) want[i] += t[i];
    }
    arg = fmt::format("{} arrays", m);
    auto a0 = vh::ReadRing(as[0]);
    r = ring_sum(as);
    if (vh::ReadRing(as[0]) != a0) return Fail(c, "ring:operand", "sum changed its first operand");
  } else if (op == "select") {
    is_inplace = false;
    std::vector<uint8_t> s(n);
    for (size_t i = 0; i < n; i++) {
      s[i] = g.chance(50) ? 0 : g.chance(80) ? 1 : 1 + g.below(255);
      want[i] = s[i] ? y[i] : x[i];
    }
    r = ring_select(s, ax, ay);
  } else if (op == "cast_boolean") {
    auto b = ring_cast_boolean(ax);
    if (b.size() != n) return Fail(c, "ring:cast_boolean", "size");
    for (size_t i = 0; i < n; i++) if (b[i] != (x[i] & 1)) return Fail(c, "ring:cast_boolean", fmt::format("element {}", i));
    Count("ring elements", n);
    Cover(fmt::format("ring/{}/{}", op, vh::FieldName(f)));
    return;
  } else if (op == "all_equal") {
    uint128_t err = g.chance(50) ? 0 : g.below(5);
    const bool far = g.chance(40);  // elements as integers: the distance may need the whole width
    // near the ends of the range a small step must not wrap
    for (auto& v : x) v = static_cast<uint128_t>(static_cast<int128_t>(g.range(-1000000, 1000000))) & vh::Mask(k);
    vh::WriteRing(ax, x);
    x = vh::ReadRing(ax);
    y = x;
    bool eq = true;
    for (auto& v : y) v = (v + g.range(0, err) * (g.chance(50) ? 1 : -1)) & vh::Mask(k);
    if (n > 0 && g.chance(50)) {
      size_t i = g.chance(40) ? n - 1 : g.below(n);
      y[i] = (x[i] + (g.chance(50) ? static_cast<int64_t>(err) + 1 : -static_cast<int64_t>(err) - 1)) & vh::Mask(k);
    }
    if (far && n > 0)
      for (size_t i = 0; i < n; i++)
        if (g.chance(50)) y[i] = g.chance(50) ? (x[i] ^ (uint128_t(1) << (k - 1))) : vh::RingVal(g, k);
    auto yy = vh::MakeRing(makeType<RingTy>(f), sh, y);
    for (size_t i = 0; i < n; i++) {
      auto sx = vh::Signed(x[i], k), sy = vh::Signed(y[i], k);
      uint128_t d = sx > sy ? static_cast<uint128_t>(sx) - static_cast<uint128_t>(sy) : static_cast<uint128_t>(sy) - static_cast<uint128_t>(sx);
      if (d > err) eq = false;
    }
    bool got = ring_all_equal(ax, yy, static_cast<size_t>(err));
    if (got != eq) return Fail(c, "ring:all_equal", fmt::format("returned {}", got));
    Count("ring comparisons");
    Cover(fmt::format("ring/{}/{}/{}", op, vh::FieldName(f), eq));
    return;
  } else if (op == "zeros" || op == "ones") {
    is_inplace = false;
    r = (op == "zeros" ? ring_zeros : ring_ones)(f, sh);
    int64_t m = 1;
    for (auto d : sh) m *= d;
    want.assign(m, op == "ones");
  } else {
    if (!inplace) ax = Filled(g, f, sh, false, &x), r = ax, out0 = vh::Outside(ax);
    is_inplace = true;
    uint128_t v = vh::RingVal(g, k);
    want.assign(n, v);
    DISPATCH_ALL_FIELDS(f, [&]() { ring_set_value(r, static_cast<ring2k_t>(v)); });
  }
  std::string how = op + (inplace ? "_ " : " ") + arg;
  if (r.shape() != sh) return Fail(c, "ring:shape", how + " " + ShapeStr(r.shape()));
  if (op != "assign" && r.eltype() != makeType<RingTy>(f)) return Fail(c, "ring:type", how + " " + r.eltype().toString());
  if (!Same(c, op, vh::ReadRing(r), want, k, how)) return;
  if (is_inplace) {
    if (vh::Outside(ax) != out0) return Fail(c, "ring:outside", how + ": wrote outside the destination view");
  } else if (op != "mmul" && full(ax) != fx) {
    return Fail(c, "ring:operand", how + ": changed its first operand");
  }
  if (full(ay) != fy) return Fail(c, "ring:operand", how + ": changed its second operand");
  Cover(fmt::format("ring/{}{}/{}/{}d/{}", op, inplace ? "_" : "", vh::FieldName(f), sh.size(), n == 0 ? "empty" : large ? "large" : "small"));
}

// ---------------------------------------------------------------- random
void RingRand(Case& c) {
  auto& g = c.rng;
  FieldType f = kFields[g.below(3)];
  const size_t k = vh::FieldBits(f);
  Shape sh = KShape(g, false);
  const int64_t n = sh.numel();
  Describe(c, fmt::format("rand {} {}", vh::FieldName(f), ShapeStr(sh)));
  vmon::SetThread(0, g.u64());
  switch (g.below(5)) {
    case 0: {  // deterministic in (seed, counter); consecutive draws are a stream
      uint128_t seed = g.u128();
      uint64_t c0 = g.below(1000), a = c0, b = c0;
      auto r1 = vh::ReadRing(ring_rand(f, sh, seed, &a));
      auto r2 = vh::ReadRing(ring_rand(f, sh, seed, &b));
      if (r1 != r2 || a != b) return Fail(c, "rand:deterministic", "same seed and counter, different output");
      if (n > 0 && a <= c0) return Fail(c, "rand:counter", "the counter did not advance");
      auto r3 = vh::ReadRing(ring_rand(f, sh, seed, &a));
      auto r4 = vh::ReadRing(ring_rand(f, sh, seed + 1, &b));
      if (n * k >= 128 && (r3 == r1 || r4 == r1)) return Fail(c, "rand:repeat", "a later draw repeats an earlier one");
      if (n * k >= 256) {
        // no block of the second draw repeats one of the first
        std::set<uint128_t> seen;
        auto blocks = [&](const V& v) {
          V o;
          const size_t per = 128 / k;
          for (size_t i = 0; i + per <= v.size(); i += per) {
            uint128_t w = 0;
            for (size_t j = 0; j < per; j++) w |= per == 1 ? v[i] : v[i + j] << (j * k);
            o.push_back(w);
          }
          return o;
        };
        for (auto w : blocks(r1)) if (!seen.insert(w).second) return Fail(c, "rand:repeat", "a block repeats in one draw");
        for (auto w : blocks(r3)) if (!seen.insert(w).second) return Fail(c, "rand:repeat", "a block repeats in the next draw");
      }
      break;
    }
    case 1: {
      if (f == FM32 && false) break;
      uint128_t lo = vh::RingVal(g, k - 2) & vh::Mask(k - 2), w = g.chance(30) ? 0 : g.chance(50) ? g.below(5) : vh::RingVal(g, k - 2);
      auto r = vh::ReadRing(ring_rand_range(f, sh, lo, lo + w));
      for (auto v : r) if (v < lo || v > lo + w) return Fail(c, "rand:range", fmt::format("{} not in [{}, {}]", vh::Hex(v), vh::Hex(lo), vh::Hex(lo + w)));
      if (static_cast<int64_t>(r.size()) != n) return Fail(c, "rand:range", "size");
      if (w <= 1) {
        std::set<uint128_t> s;
        for (int t = 0; t < 40; t++) for (auto v : vh::ReadRing(ring_rand_range(f, {4}, lo, lo + w))) s.insert(v);
        if (s.size() != static_cast<size_t>(w + 1)) return Fail(c, "rand:range", "an end of the range is never drawn");
      }
      break;
    }
    case 2: {
      auto r = vh::ReadRing(ring_randbit(f, sh));
      for (auto v : r) if (v > 1) return Fail(c, "rand:bit", vh::Hex(v));
      auto t = vh::ReadRing(ring_randbit(f, {400}));
      int64_t ones = 0;
      for (auto v : t) ones += static_cast<int64_t>(v);
      if (ones < 100 || ones > 300) return Fail(c, "rand:bit", fmt::format("{} ones of 400", ones));
      break;
    }
    case 3: {
      V x;
      auto a = Filled(g, f, sh, true, &x);
      size_t m = g.range(2, 6);
      bool add = g.chance(50);
      auto s = add ? ring_rand_additive_splits(a, m) : ring_rand_boolean_splits(a, m);
      if (s.size() != m) return Fail(c, "rand:splits", "count");
      V sum(n);
      for (size_t q = 0; q < m; q++) {
        auto v = vh::ReadRing(s[q]);
        if (static_cast<int64_t>(v.size()) != n) return Fail(c, "rand:splits", "size");
        for (int64_t i = 0; i < n; i++) sum[i] = add ? sum[i] + v[i] : sum[i] ^ v[i];
        if (n * k >= 128 && v == x) return Fail(c, "rand:splits", "a share equals the value");
        for (size_t p = 1; p < q; p++) if (n * k >= 128 && vh::ReadRing(s[p]) == v) return Fail(c, "rand:splits", "two shares are equal");
      }
      if (!Same(c, "splits", sum.empty() ? sum : [&] { for (auto& v : sum) v &= vh::Mask(k); return sum; }(), x, k, add ? "additive" : "boolean")) return;
      if (vh::ReadRing(a) != x) return Fail(c, "rand:splits", "changed the value");
      break;
    }
    default: {
      auto a = vh::ReadRing(ring_rand(f, sh)), b = vh::ReadRing(ring_rand(f, sh));
      if (static_cast<int64_t>(a.size()) != n) return Fail(c, "rand:size", "");
      if (n * k >= 128 && a == b) return Fail(c, "rand:repeat", "two draws are equal");
      // every bit position takes both values
      auto t = vh::ReadRing(ring_rand(f, {256}));
      for (size_t b2 = 0; b2 < k; b2++) {
        int ones = 0;
        for (auto v : t) ones += static_cast<int>((v >> b2) & 1);
        if (ones < 50 || ones > 206) return Fail(c, "rand:bias", fmt::format("bit {}: {} ones of 256", b2, ones));
      }
    }
  }
  Count("random draws");
  Cover(fmt::format("rand/{}/{}d/{}", vh::FieldName(f), sh.size(), c.index % 5));
}

// ---------------------------------------------------------------- GF(2^p - 1)
uint128_t MulModRef(uint128_t x, uint128_t y, uint128_t p, int e) {
  // double and add, no wide product
  uint128_t r = 0;
  x %= p;
  for (int i = e; i >= 0; i--) {
    r = (r << 1) % p;  // r < 2^127, so the shift fits
    if ((y >> i) & 1) r = (r + x) % p;
  }
  return r;
}
template <typename T>
T GfVal(Rng& g, T p) {
  switch (g.below(6)) {
    case 0: return static_cast<T>(g.below(3));
    case 1: return static_cast<T>(p - 1 - g.below(3));
    case 2: return static_cast<T>((static_cast<T>(1) << g.below(ScalarTypeToPrime<T>::exp)) % p);
    default: return static_cast<T>(g.u128() % p);
  }
}
template <typename T>
void GfScalar(Case& c, const char* nm) {
  auto& g = c.rng;
  const T p = ScalarTypeToPrime<T>::prime;
  const int e = static_cast<int>(ScalarTypeToPrime<T>::exp);
  if (p != static_cast<T>((static_cast<T>(1) << e) - 1)) return Fail(c, "gf:prime", nm);
  for (int t = 0; t < 60; t++) {
    T x = GfVal(g, p), y = GfVal(g, p);
    Describe(c, fmt::format("{} x={} y={}", nm, vh::Hex(x), vh::Hex(y)));
    auto chk = [&](const char* what, T got, uint128_t want) {
      if (got != static_cast<T>(want)) {
        Fail(c, fmt::format("gf:{}", what), fmt::format("{} x={} y={}: {} want {}", nm, vh::Hex(x), vh::Hex(y), vh::Hex(got), vh::Hex(want)));
        return false;
      }
      return true;
    };
    if (!chk("mul", mul_mod(x, y), MulModRef(x, y, p, e))) return;
    if (!chk("add", add_mod(x, y), (static_cast<uint128_t>(x) + y) % p)) return;
    T ai = add_inv(x);
    if (!chk("addinv", static_cast<T>((static_cast<uint128_t>(ai) + x) % p), 0)) return;
    if (x != 0) {
      T iv = mul_inv(x);
      if (iv >= p) return Fail(c, "gf:inv", fmt::format("{} inverse of {} is {}, not reduced", nm, vh::Hex(x), vh::Hex(iv)));
      if (!chk("inv", static_cast<T>(MulModRef(x, iv, p, e)), 1)) return;
    }
    T raw = static_cast<T>(vh::RingVal(g, sizeof(T) * 8));
    if (!chk("mod", mod_p(raw), static_cast<uint128_t>(raw) % p)) return;
    T ex = g.chance(40) ? static_cast<T>(g.below(9)) : GfVal(g, p);
    uint128_t r = 1 % p, b = x;
    for (T q = ex; q; q >>= 1) {
      if (q & 1) r = MulModRef(r, b, p, e);
      b = MulModRef(b, b, p, e);
    }
    if (!chk("exp", exp_mod(x, ex), r)) return;
    // wide product
    T u = static_cast<T>(vh::RingVal(g, sizeof(T) * 8)), v = static_cast<T>(vh::RingVal(g, sizeof(T) * 8)), hi = 0;
    T lo = mul(u, v, &hi);
    // schoolbook on halves
    const int h = sizeof(T) * 4;
    const uint128_t hm = vh::Mask(h);
    uint128_t a0 = u & hm, a1 = static_cast<uint128_t>(u) >> h, b0 = v & hm, b1 = static_cast<uint128_t>(v) >> h;
    uint128_t p00 = a0 * b0, p01 = a0 * b1, p10 = a1 * b0, p11 = a1 * b1;
    uint128_t mid = (p00 >> h) + (p01 & hm) + (p10 & hm);
    uint128_t wlo = (p00 & hm) | (mid << h), whi = p11 + (p01 >> h) + (p10 >> h) + (mid >> h);
    if (lo != static_cast<T>(wlo) || hi != static_cast<T>(whi)) return Fail(c, "gf:wide", fmt::format("{} {} * {} = {}:{}", nm, vh::Hex(u), vh::Hex(v), vh::Hex(hi), vh::Hex(lo)));
    if (mul(u, v, static_cast<T*>(nullptr)) != lo) return Fail(c, "gf:wide", "low half differs without a high half");
  }
  Count("field scalar checks", 60 * 7);
  Cover(fmt::format("gf/{}/{}", nm, c.index % 50));
}
void Gf(Case& c) {
  auto& g = c.rng;
  switch (g.below(4)) {
    case 0: return GfScalar<uint32_t>(c, "u32");
    case 1: return GfScalar<uint64_t>(c, "u64");
    case 2: return GfScalar<uint128_t>(c, "u128");
    default: break;
  }
  FieldType f = kFields[g.below(3)];
  const int e = f == FM32 ? 31 : f == FM64 ? 61 : 127;
  const uint128_t p = vh::Mask(e);
  Shape sh = KShape(g, g.chance(2));
  auto ty = makeType<GfmpTy>(f);
  bool inplace = g.chance(40);
  int op = g.below(7);
  if (op == 6 && sh.numel() > 1000) op = 0;
  auto fill = [&](bool overlap, bool canon) {
    auto a = vh::RandView(g, ty, sh, overlap);
    V v(a.numel());
    for (auto& q : v) q = canon ? g.chance(30) ? g.below(3) : g.chance(30) ? p - 1 - g.below(3) : g.u128() % p : vh::RingVal(g, vh::FieldBits(f));
    vh::WriteRing(a, v);
    return a;
  };
  static const char* names[] = {"mod", "mul", "div", "add", "sub", "exp", "rand"};
  Describe(c, fmt::format("gfmp_{}{} {} {}", names[op], inplace ? "_" : "", vh::FieldName(f), ShapeStr(sh)));
  if (op == 6) {
    uint128_t seed = g.u128();
    uint64_t a = g.below(100), b = a, c0 = a;
    auto r1 = gfmp_rand(f, sh, seed, &a), r2 = gfmp_rand(f, sh, seed, &b);
    auto v1 = vh::ReadRing(r1);
    if (v1 != vh::ReadRing(r2) || a != b) return Fail(c, "gf:rand", "not deterministic");
    if (sh.numel() > 0 && a == c0) return Fail(c, "gf:rand", "counter");
    for (auto v : v1) if (v >= p) return Fail(c, "gf:rand", "not reduced: " + vh::Hex(v));
    for (auto v : vh::ReadRing(gfmp_zeros(f, sh))) if (v) return Fail(c, "gf:zeros", vh::Hex(v));
    if (static_cast<int64_t>(v1.size()) != sh.numel() || r1.eltype() != ty) return Fail(c, "gf:rand", "shape/type");
    Count("field draws");
    Cover(fmt::format("gfa/rand/{}", vh::FieldName(f)));
    return;
  }
  auto ax = fill(!inplace, op != 0), ay = fill(true, true);
  auto x = vh::ReadRing(ax), y = vh::ReadRing(ay);
  if (op == 2) {
    for (auto& v : y) if (v == 0) v = 1;
    vh::WriteRing(ay, y);
    y = vh::ReadRing(ay);
  }
  V want(x.size());
  for (size_t i = 0; i < x.size(); i++) {
    switch (op) {
      case 0: want[i] = x[i] % p; break;
      case 1: want[i] = MulModRef(x[i], y[i], p, e); break;
      case 3: want[i] = (x[i] + y[i]) % p; break;
      case 4: want[i] = (x[i] + (p - y[i])) % p; break;
      case 5: {
        uint128_t r = 1, b = x[i];
        for (auto q = y[i]; q; q >>= 1) {
          if (q & 1) r = MulModRef(r, b, p, e);
          b = MulModRef(b, b, p, e);
        }
        want[i] = r;
        break;
      }
      default: break;
    }
    if (op == 5 && x.size() > 200 && i > 200) { want.resize(x.size()); }
  }
  auto out0 = vh::Outside(ax);
  NdArrayRef r = ax;
  switch (op) {
    case 0: if (inplace) gfmp_mod_(r); else r = gfmp_mod(ax); break;
    case 1: if (inplace) gfmp_mul_mod_(r, ay); else r = gfmp_mul_mod(ax, ay); break;
    case 2: if (inplace) gfmp_div_mod_(r, ay); else r = gfmp_div_mod(ax, ay); break;
    case 3: if (inplace) gfmp_add_mod_(r, ay); else r = gfmp_add_mod(ax, ay); break;
    case 4: if (inplace) gfmp_sub_mod_(r, ay); else r = gfmp_sub_mod(ax, ay); break;
    default: if (inplace) gfmp_exp_mod_(r, ay); else r = gfmp_exp_mod(ax, ay); break;
  }
  auto got = vh::ReadRing(r);
  if (r.shape() != sh || r.eltype() != ty) return Fail(c, "gf:shape", "result type or shape");
  if (got.size() != x.size()) return Fail(c, "gf:shape", "size");
  for (size_t i = 0; i < got.size(); i++) {
    uint128_t q = got[i];
    if (q >= p) return Fail(c, fmt::format("gf:arr:{}", names[op]), fmt::format("element {} = {} is not reduced", i, vh::Hex(q)));
    bool ok = op == 2 ? MulModRef(q, y[i], p, e) == x[i] : q == want[i];
    if (!ok) return Fail(c, fmt::format("gf:arr:{}", names[op]), fmt::format("element {}: x={} y={} got {}", i, vh::Hex(x[i]), vh::Hex(y[i]), vh::Hex(q)));
  }
  if (inplace ? vh::Outside(ax) != out0 : vh::ReadRing(ax) != x) return Fail(c, "gf:operand", "wrote an operand or outside the destination");
  if (vh::ReadRing(ay) != y) return Fail(c, "gf:operand", "changed the second operand");
  Count("field array elements", got.size());
  Cover(fmt::format("gfa/{}{}/{}/{}d", names[op], inplace ? "_" : "", vh::FieldName(f), sh.size()));
}

// ---------------------------------------------------------------- permutations
void Perm(Case& c) {
  auto& g = c.rng;
  FieldType f = kFields[g.below(3)], pf = kFields[g.below(3)];
  int64_t n = g.chance(5) ? 0 : g.chance(15) ? 1 : g.chance(3) ? g.range(40000, 110000) : g.range(2, 60);
  Describe(c, fmt::format("perm n={} {} pv {}", n, vh::FieldName(f), vh::FieldName(pf)));
  V x;
  auto ax = Filled(g, f, {n}, true, &x);
  if (g.chance(40)) {  // many ties
    for (auto& v : x) v = (uint128_t(0) - g.below(3) + g.below(2)) & vh::Mask(vh::FieldBits(f));
    vh::WriteRing(ax, x);
    x = vh::ReadRing(ax);
  }
  uint128_t seed = g.u128();
  uint64_t ctr = g.below(50), ctr2 = ctr, ctr0 = ctr;
  Index pv = genRandomPerm(n, seed, &ctr), pv2 = genRandomPerm(n, seed, &ctr2);
  std::vector<char> seen(n, 0);
  if (static_cast<int64_t>(pv.size()) != n) return Fail(c, "perm:random", "size");
  for (auto v : pv) {
    if (v < 0 || v >= n || seen[v]) return Fail(c, "perm:random", "not a permutation");
    seen[v] = 1;
  }
  if (pv != pv2 || ctr != ctr2) return Fail(c, "perm:random", "not deterministic in seed and counter");
  if (n > 0 && ctr <= ctr0) return Fail(c, "perm:random", "the counter did not advance");
  if (n >= 40) {
    Index pv3 = genRandomPerm(n, seed, &ctr);
    if (pv3 == pv) return Fail(c, "perm:random", "the next permutation repeats");
  }
  auto apv = vh::RandView(g, makeType<RingTy>(pf), {n}, false);
  V pvv(pv.begin(), pv.end());
  vh::WriteRing(apv, pvv);
  V fwd(n), inv(n), ip(n);
  for (int64_t i = 0; i < n; i++) {
    fwd[i] = x[pv[i]];
    inv[pv[i]] = x[i];
    ip[pv[i]] = i;
  }
  auto chk = [&](const char* what, const NdArrayRef& r, const V& want, const NdArrayRef& like) {
    if (r.shape() != Shape{n} || r.eltype() != like.eltype() || vh::ReadRing(r) != want) {
      Fail(c, fmt::format("perm:{}", what), vh::Layout(ax));
      return false;
    }
    return true;
  };
  if (!chk("apply", applyPerm(ax, pv), fwd, ax)) return;
  if (!chk("apply", applyPerm(ax, apv), fwd, ax)) return;
  if (!chk("applyinv", applyInvPerm(ax, pv), inv, ax)) return;
  if (!chk("applyinv", applyInvPerm(ax, apv), inv, ax)) return;
  if (!chk("inverse", genInversePerm(apv), ip, apv)) return;
  if (ring2pv(apv) != pv) return Fail(c, "perm:ring2pv", vh::Layout(apv));
  auto sp = genPermBySort(ax);
  std::vector<int64_t> ref(n);
  std::iota(ref.begin(), ref.end(), 0);
  std::stable_sort(ref.begin(), ref.end(), [&](int64_t a, int64_t b) { return vh::Signed(x[a], vh::FieldBits(f)) < vh::Signed(x[b], vh::FieldBits(f)); });
  if (std::vector<int64_t>(sp.begin(), sp.end()) != ref) return Fail(c, "perm:bysort", "not the stable order of the signed values");
  Count("permutation checks", 8);
  Cover(fmt::format("perm/{}/{}/{}", vh::FieldName(f), vh::FieldName(pf), n == 0 ? 0 : n == 1 ? 1 : n < 10 ? 2 : n < 100 ? 3 : 4));
}

// ---------------------------------------------------------------- tiling
void Tiled(Case& c) {
  auto& g = c.rng;
  vh::MpcOpt o;
  o.cfg.protocol = ProtocolKind::REF2K;
  o.cfg.field = FM64;
  o.cfg.experimental_enable_intra_op_par = g.chance(85);
  o.npc = 1;
  Shape sh;
  switch (g.below(6)) {
    case 0: sh = {g.range(50001, 160000)}; break;
    case 1: sh = {g.range(2, 4), g.range(30000, 60000)}; break;
    case 2: sh = {g.range(3, 200), g.range(3, 400), g.range(1, 12)}; break;
    case 3: sh = {2, g.range(2, 5), g.range(10000, 26000)}; break;
    case 4: sh = {g.range(1, 3), 50000 + g.range(-1, 1), g.range(1, 2)}; break;
    default: sh = {g.range(1, 30), 1, g.range(1, 60), g.range(20, 90)};
  }
  V x, y;
  auto ax = Filled(g, FM64, sh, true, &x), ay = Filled(g, FM64, sh, true, &y);
  bool two = g.chance(50);
  Describe(c, fmt::format("tiled{} par={} x{} y{}", two ? 2 : 1, o.cfg.experimental_enable_intra_op_par, vh::Layout(ax), vh::Layout(ay)));
  int tiles = 0;
  std::mutex mu;
  int64_t seen = 0;
  int throw_at = g.chance(25) ? static_cast<int>(g.range(1, 4)) : 0;
  auto r = vh::RunMpc(o, [&](SPUContext* ctx, size_t) {
    auto note = [&](const Value& v) {
      std::lock_guard<std::mutex> l(mu);
      tiles++;
      seen += v.numel();
      if (tiles == throw_at) throw std::runtime_error("planned failure of a tile");
    };
    Value out;
    const Value vx(ax, DT_INVALID), vy(ay, DT_INVALID);
    const int64_t three = 3, five = 5;
    if (two) {
      out = tiled([&](SPUContext*, const Value& a, const Value& b, int64_t s) {
        note(a);
        NdArrayRef t = ring_mul(ring_sub(a.data(), b.data()), static_cast<uint128_t>(s));
        return Value(t, DT_INVALID); }, ctx, vx, vy, three);
    } else {
      out = tiled([&](SPUContext*, const Value& a, int64_t s) {
        note(a);
        NdArrayRef t = ring_mul(a.data(), static_cast<uint128_t>(s));
        return Value(t, DT_INVALID); }, ctx, vx, five);
    }
    return out.data();
  });
  if (throw_at != 0 && tiles >= throw_at) {
    if (r.err[0].find("planned failure") == std::string::npos) return Fail(c, "tiled:exception", "the failure of a tile was not reported: " + r.err[0]);
    Count("failing tiles reported");
    Cover(fmt::format("tiled/throw/{}/{}", two, std::min(tiles, 9)));
    return;
  }
  if (!vh::CheckOk(c, r, "tiled")) return;
  V want(x.size());
  for (size_t i = 0; i < x.size(); i++) want[i] = two ? (x[i] - y[i]) * 3 : x[i] * 5;
  if (r.out[0]->shape() != sh) return Fail(c, "tiled:shape", ShapeStr(r.out[0]->shape()));
  if (!Same(c, "tiled", vh::ReadRing(*r.out[0]), want, 64, fmt::format("{} tiles", tiles))) return;
  if (seen != static_cast<int64_t>(x.size())) return Fail(c, "tiled:cover", "tiles overlap or miss elements");
  Count("tiled evaluations");
  Count("tiles", tiles);
  Cover(fmt::format("tiled/{}/{}d/{}", two, sh.size(), std::min(tiles, 9)));
}
}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"matmul", 6000, 60000, Matmul}, {"ring", 12000, 150000, RingOps}, {"ringrand", 1200, 12000, RingRand}, {"gf", 2400, 30000, Gf}, {"perm", 1500, 15000, Perm}, {"tiled", 120, 1200, Tiled}});
}
