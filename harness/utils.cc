// C26: bit utilities, boolean circuits, share packing.  C27: LowMC, switching
// networks.  C06: cost expressions.  Everything here is local; the oracles are
// bit-by-bit restatements of the documented meaning.
#include <cmath>
#include <unordered_map>

#include "arr.h"
#include "mpc.h"

#include "libspu/core/bit_utils.h"
#include "libspu/core/cexpr.h"
#include "libspu/core/vectorize.h"
#include "libspu/mpc/cheetah/ot/ot_util.h"
#include "libspu/mpc/utils/circuits.h"
#include "libspu/mpc/utils/lowmc.h"
#include "libspu/mpc/utils/lowmc_utils.h"
#include "libspu/mpc/utils/ring_ops.h"
#include "libspu/mpc/utils/waksman_net.h"

using namespace spu;
using namespace spu::mpc;
using namespace vh;

// ---------------------------------------------------------------- bits ------
static int MBitWidth(uint128_t v) {
  int n = 0;
  while (v) { n++; v >>= 1; }
  return n;
}
// out bit i of the de-interleaved word, blocks of 2^stride bits, width nbits
static uint128_t MDeintl(uint128_t x, int stride, int nbits) {
  uint128_t r = 0;
  const int blk = 1 << stride;
  if (blk * 2 > nbits) return x;
  const int half = nbits / 2;
  for (int i = 0; i < nbits; i++) {
    int b = i / blk, o = i % blk;
    int to = (b % 2 ? half : 0) + (b / 2) * blk + o;
    if ((x >> i) & 1) r |= uint128_t(1) << to;
  }
  return r;
}

template <typename T>
static void BitsT(Case& c, const char* tn) {
  const int W = sizeof(T) * 8;
  for (int it = 0; it < 40; it++) {
    T x = static_cast<T>(RingVal(c.rng, W));
    if (BitWidth<T>(x) != static_cast<size_t>(MBitWidth(x))) {
      Fail(c, std::string("bits:BitWidth:") + tn, Hex(x));
    }
    Count("bit utility results compared");
    if (W < 4) continue;
    int lg = 0;
    while ((1 << lg) < W) lg++;
    int stride = static_cast<int>(c.rng.below(lg));
    int nb = c.rng.chance(40) ? -1 : 1 << c.rng.range(0, lg);
    int n = nb == -1 ? W : nb;
    T in = n < W && c.rng.chance(70) ? static_cast<T>(x & Mask(n)) : x;
    T d = BitDeintl<T>(in, stride, nb);
    T i2 = BitIntl<T>(d, stride, nb);
    if (i2 != in) Fail(c, std::string("bits:intl-inverse:") + tn, fmt::format("stride {} nbits {} {} -> {} -> {}", stride, nb, Hex(in), Hex(d), Hex(i2)));
    if (BitDeintl<T>(BitIntl<T>(in, stride, nb), stride, nb) != in) Fail(c, std::string("bits:deintl-inverse:") + tn, fmt::format("stride {} nbits {} {}", stride, nb, Hex(in)));
    uint128_t want = MDeintl(in & Mask(n), stride, n);
    if ((d & Mask(n)) != want) Fail(c, std::string("bits:deintl:") + tn, fmt::format("stride {} nbits {} {}: {} want {}", stride, nb, Hex(in), Hex(d), Hex(want)));
    // widths that are not a power of two: a lossless rearrangement
    int odd = static_cast<int>(c.rng.range(1, W));
    T y = static_cast<T>(x & Mask(odd));
    if (BitIntl<T>(BitDeintl<T>(y, stride, odd), stride, odd) != y) Fail(c, std::string("bits:odd-width:") + tn, fmt::format("stride {} nbits {} {}", stride, odd, Hex(y)));
    Count("bit utility results compared", 4);
    Cover(fmt::format("bits/{}/{}/{}", tn, stride, nb));
    if constexpr (sizeof(T) == 8) {
      if (detail::BitDeintlWithPdepext(x, stride) != MDeintl(x, stride, 64)) Fail(c, "bits:pext-deintl", fmt::format("stride {} {}", stride, Hex(x)));
      if (detail::BitIntlWithPdepext(detail::BitDeintlWithPdepext(x, stride), stride) != x) Fail(c, "bits:pdep-intl", fmt::format("stride {} {}", stride, Hex(x)));
    }
  }
}

static void BitsCase(Case& c) {
  Describe(c, "bit utilities");
  BitsT<uint8_t>(c, "u8");
  BitsT<uint16_t>(c, "u16");
  BitsT<uint32_t>(c, "u32");
  BitsT<uint64_t>(c, "u64");
  BitsT<uint128_t>(c, "u128");
  for (int it = 0; it < 100; it++) {
    uint64_t n = static_cast<uint64_t>(RingVal(c.rng, 64));
    int f = 0, ce = 0;
    if (n > 1) {
      f = MBitWidth(n) - 1;
      ce = MBitWidth(n - 1);
    }
    if (Log2Floor(n) != f) Fail(c, "bits:Log2Floor", fmt::format("{} -> {} want {}", n, Log2Floor(n), f));
    if (Log2Ceil(n) != ce) Fail(c, "bits:Log2Ceil", fmt::format("{} -> {} want {}", n, Log2Ceil(n), ce));
    Count("bit utility results compared", 2);
  }
}

// ------------------------------------------------------------- circuits -----
template <typename T>
static CircuitBasicBlock<T> ScalarCBB() {
  CircuitBasicBlock<T> b;
  b._xor = [](T const& x, T const& y) -> T { return x ^ y; };
  b._and = [](T const& x, T const& y) -> T { return x & y; };
  b.lshift = [](T const& x, const Sizes& s) -> T { return s[0] >= int64_t(sizeof(T) * 8) ? T(0) : static_cast<T>(x << s[0]); };
  b.rshift = [](T const& x, const Sizes& s) -> T { return s[0] >= int64_t(sizeof(T) * 8) ? T(0) : static_cast<T>(x >> s[0]); };
  b.init_like = [](T const&, uint128_t i) -> T { return static_cast<T>(i); };
  b.set_nbits = [](T&, size_t) {};
  return b;
}
// A word that knows its declared width: set_nbits promises the value fits.
struct Wide {
  uint128_t v = 0;
  size_t bits = 128;
  bool bad = false;
};
static CircuitBasicBlock<Wide> WideCBB() {
  CircuitBasicBlock<Wide> b;
  b._xor = [](Wide const& x, Wide const& y) { return Wide{x.v ^ y.v, std::max(x.bits, y.bits), x.bad || y.bad}; };
  b._and = [](Wide const& x, Wide const& y) { return Wide{x.v & y.v, std::min(x.bits, y.bits), x.bad || y.bad}; };
  b.lshift = [](Wide const& x, const Sizes& s) { return Wide{s[0] >= 128 ? 0 : x.v << s[0], std::min<size_t>(128, x.bits + s[0]), x.bad}; };
  b.rshift = [](Wide const& x, const Sizes& s) { return Wide{s[0] >= 128 ? 0 : x.v >> s[0], x.bits > size_t(s[0]) ? x.bits - s[0] : 0, x.bad}; };
  b.init_like = [](Wide const&, uint128_t i) { return Wide{i, size_t(MBitWidth(i)), false}; };
  b.set_nbits = [](Wide& x, size_t n) {
    if (x.v & ~Mask(n)) x.bad = true;
    x.bits = n;
  };
  return b;
}
template <typename C, typename T = typename C::value_type>
static CircuitBasicBlock<C> VecCBB() {
  CircuitBasicBlock<C> b;
  auto s = ScalarCBB<T>();
  b._xor = [](C const& x, C const& y) { C r; SPU_ENFORCE(x.size() == y.size()); for (size_t i = 0; i < x.size(); i++) r.push_back(x[i] ^ y[i]); return r; };
  b._and = [](C const& x, C const& y) { C r; SPU_ENFORCE(x.size() == y.size()); for (size_t i = 0; i < x.size(); i++) r.push_back(x[i] & y[i]); return r; };
  b.lshift = [s](C const& x, const Sizes& n) { C r; for (auto e : x) r.push_back(s.lshift(e, n)); return r; };
  b.rshift = [s](C const& x, const Sizes& n) { C r; for (auto e : x) r.push_back(s.rshift(e, n)); return r; };
  b.init_like = [](C const& x, uint128_t i) { return C(x.size(), static_cast<T>(i)); };
  b.set_nbits = [](C&, size_t) {};
  return b;
}

template <typename T>
static void CircuitT(Case& c, const char* tn) {
  const size_t W = sizeof(T) * 8;
  for (int it = 0; it < 12; it++) {
    size_t nb = c.rng.chance(40) ? W : c.rng.range(1, W);
    std::vector<T> x, y;
    size_t n = c.rng.range(1, 4);
    for (size_t i = 0; i < n; i++) {
      T a = static_cast<T>(RingVal(c.rng, W) & Mask(nb)), b = static_cast<T>(RingVal(c.rng, W) & Mask(nb));
      if (c.rng.chance(25)) b = static_cast<T>((Mask(nb) - a + c.rng.below(3)) & Mask(nb));
      x.push_back(a);
      y.push_back(b);
    }
    auto sb = ScalarCBB<T>();
    auto vb = VecCBB<std::vector<T>>();
    auto ks = kogge_stone(vb, x, y, nb), sk = sklansky(vb, x, y, nb), co = carry_out(vb, x, y, nb);
    for (size_t i = 0; i < n; i++) {
      uint128_t sum = (static_cast<uint128_t>(x[i]) + y[i]) & Mask(nb);
      bool carry = nb == 128 ? static_cast<uint128_t>(x[i]) + y[i] < x[i] : ((static_cast<uint128_t>(x[i]) + y[i]) >> nb) & 1;
      auto rep = [&](const char* what, uint128_t got, uint128_t want) {
        Fail(c, fmt::format("circuit:{}:{}", what, tn), fmt::format("nbits {} {} {}: {} want {}", nb, Hex(x[i]), Hex(y[i]), Hex(got), Hex(want)));
      };
      if ((ks[i] & Mask(nb)) != sum) rep("kogge_stone-vec", ks[i], sum);
      if ((sk[i] & Mask(nb)) != sum) rep("sklansky-vec", sk[i], sum);
      if (co[i] != carry) rep("carry_out-vec", co[i], carry);
      T v = kogge_stone(sb, x[i], y[i], nb);
      if ((v & Mask(nb)) != sum) rep("kogge_stone", v, sum);
      v = sklansky(sb, x[i], y[i], nb);
      if ((v & Mask(nb)) != sum) rep("sklansky", v, sum);
      v = carry_out(sb, x[i], y[i], nb);
      if (v != carry) rep("carry_out", v, carry);
      size_t ne = std::max<size_t>(2, nb & ~size_t(1));
      T z = static_cast<T>(x[i] & Mask(ne));
      v = odd_even_split(sb, z, ne);
      uint128_t want = 0;
      for (size_t k = 0; k < ne; k++) {
        if ((z >> k) & 1) want |= uint128_t(1) << (k % 2 ? ne / 2 + k / 2 : k / 2);
      }
      if (v != want) rep("odd_even_split", v, want);
      if constexpr (sizeof(T) == 16) {
        auto wb = WideCBB();
        Wide r = carry_out(wb, Wide{x[i], nb}, Wide{y[i], nb}, nb);
        if (r.v != carry) rep("carry_out-declared-width", r.v, carry);
        if (r.bad) rep("carry_out-width-promise", r.v, carry);
      }
      Count("circuit results compared", 8);
    }
    Cover(fmt::format("circuit/{}/{}", tn, nb));
  }
}
static void CircuitCase(Case& c) {
  Describe(c, "adder circuits");
  CircuitT<uint32_t>(c, "u32");
  CircuitT<uint64_t>(c, "u64");
  CircuitT<uint128_t>(c, "u128");
  // grouped evaluation = element-wise evaluation
  std::vector<std::vector<int64_t>> a(c.rng.range(1, 9)), b;
  for (auto& v : a) v.resize(c.rng.below(4));
  for (auto& v : a) for (auto& e : v) e = c.rng.range(-50, 50);
  b = a;
  for (auto& v : b) for (auto& e : v) e = c.rng.range(-50, 50);
  std::vector<std::vector<int64_t>> r;
  size_t calls = 0;
  auto op = [&](const std::vector<int64_t>& p, const std::vector<int64_t>& q) {
    calls++;
    std::vector<int64_t> o;
    for (size_t i = 0; i < p.size(); i++) o.push_back(p[i] * 3 - q[i]);
    return o;
  };
  vmap(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r), op);
  if (calls != 1 || r.size() != a.size()) Fail(c, "vmap:calls", fmt::format("{} calls, {} of {} results", calls, r.size(), a.size()));
  for (size_t i = 0; i < std::min(r.size(), a.size()); i++) {
    for (size_t k = 0; k < a[i].size(); k++) {
      if (r[i].size() != a[i].size() || r[i][k] != a[i][k] * 3 - b[i][k]) { Fail(c, "vmap:binary", fmt::format("group {}", i)); break; }
    }
  }
  r.clear();
  vmap(a.begin(), a.end(), std::back_inserter(r), [](const std::vector<int64_t>& p) {
    std::vector<int64_t> o;
    for (auto e : p) o.push_back(7 - e);
    return o;
  });
  for (size_t i = 0; i < a.size(); i++) {
    for (size_t k = 0; k < a[i].size(); k++) {
      if (r.size() != a.size() || r[i].size() != a[i].size() || r[i][k] != 7 - a[i][k]) { Fail(c, "vmap:unary", fmt::format("group {}", i)); break; }
    }
  }
  // reduction: each operand used exactly once, associative operations agree
  size_t m = c.rng.range(1, 20), w = c.rng.range(1, 3);
  std::vector<std::vector<uint64_t>> ops(m, std::vector<uint64_t>(w));
  for (auto& v : ops) for (auto& e : v) e = c.rng.u64();
  size_t steps = 0;
  auto red = vreduce(ops.begin(), ops.end(), [&](const std::vector<uint64_t>& p, const std::vector<uint64_t>& q) {
    steps++;
    std::vector<uint64_t> o;
    for (size_t i = 0; i < p.size(); i++) o.push_back(p[i] + q[i]);
    return o;
  });
  for (size_t k = 0; k < w; k++) {
    uint64_t s = 0;
    for (auto& v : ops) s += v[k];
    if (red.size() != w || red[k] != s) { Fail(c, "vreduce", fmt::format("{} operands of {}", m, w)); break; }
  }
  if (steps > static_cast<size_t>(MBitWidth(m))) Fail(c, "vreduce:rounds", fmt::format("{} operands took {} rounds", m, steps));
  Count("grouped evaluations compared", 3);
  Cover(fmt::format("vmap/{}/{}", a.size(), m));
}

// -------------------------------------------------------------- packing -----
template <typename T>
static void PackT(Case& c, const char* tn) {
  const size_t W = sizeof(T) * 8;
  namespace ch = spu::mpc::cheetah;
  for (int it = 0; it < 10; it++) {
    size_t bw = c.rng.range(1, W), n = c.rng.range(1, 70);
    std::vector<T> in(n);
    for (auto& v : in) v = static_cast<T>(RingVal(c.rng, W));
    size_t packed = (n * bw + W - 1) / W;
    size_t extra = c.rng.chance(30) ? c.rng.range(1, 3) : 0;
    std::vector<T> z(packed + extra, static_cast<T>(0x5a));
    size_t used = ch::ZipArray<T>(absl::MakeConstSpan(in), bw, absl::MakeSpan(z));
    if (used != packed) Fail(c, std::string("pack:used:") + tn, fmt::format("{} elements of {} bits: {} words want {}", n, bw, used, packed));
    for (size_t i = packed; i < z.size(); i++) {
      if (z[i] != static_cast<T>(0x5a)) { Fail(c, std::string("pack:overrun:") + tn, fmt::format("word {}", i)); break; }
    }
    for (size_t k = 0; k < n * bw; k++) {
      bool want = (in[k / bw] >> (k % bw)) & 1, got = (z[k / W] >> (k % W)) & 1;
      if (want != got) { Fail(c, std::string("pack:bit:") + tn, fmt::format("{} elements of {} bits: bit {}", n, bw, k)); break; }
    }
    std::vector<T> u(c.rng.chance(70) ? n : c.rng.range(1, n), static_cast<T>(0x77));
    std::vector<T> zz(z.begin(), z.begin() + packed);
    ch::UnzipArray<T>(absl::MakeConstSpan(zz), bw, absl::MakeSpan(u));
    for (size_t i = 0; i < u.size(); i++) {
      if (u[i] != (in[i] & static_cast<T>(Mask(bw)))) { Fail(c, std::string("pack:unzip:") + tn, fmt::format("{} elements of {} bits: element {} {} want {}", n, bw, i, Hex(u[i]), Hex(in[i] & static_cast<T>(Mask(bw))))); break; }
    }
    std::vector<uint8_t> by(c.rng.range(1, 50));
    for (auto& v : by) v = static_cast<uint8_t>(c.rng.u64());
    std::vector<T> pk((by.size() + sizeof(T) - 1) / sizeof(T));
    size_t np = ch::PackU8Array<T>(absl::MakeConstSpan(by), absl::MakeSpan(pk));
    bool ok = np == pk.size();
    for (size_t i = 0; i < pk.size() && ok; i++) {
      T want = 0;
      for (size_t k = i * sizeof(T); k < std::min(by.size(), (i + 1) * sizeof(T)); k++) want = static_cast<T>((static_cast<uint128_t>(want) << 8) | by[k]);
      ok = pk[i] == want;
    }
    if (!ok) Fail(c, std::string("pack:bytes:") + tn, fmt::format("{} bytes", by.size()));
    if (ch::makeBitsMask<T>(bw) != static_cast<T>(Mask(bw)) || ch::makeBitsMask<T>(0) != static_cast<T>(Mask(W))) Fail(c, std::string("pack:mask:") + tn, fmt::format("{}", bw));
    Count("packings compared", 4);
    Cover(fmt::format("pack/{}/{}", tn, bw));
  }
}
static void PackCase(Case& c) {
  namespace ch = spu::mpc::cheetah;
  Describe(c, "share packing");
  PackT<uint8_t>(c, "u8");
  PackT<uint16_t>(c, "u16");
  PackT<uint32_t>(c, "u32");
  PackT<uint64_t>(c, "u64");
  PackT<uint128_t>(c, "u128");
  for (size_t len = 1; len <= 8; len++) {
    std::vector<uint8_t> b(len), o(len, 9);
    for (auto& v : b) v = static_cast<uint8_t>(c.rng.u64());
    uint8_t want = 0;
    for (auto v : b) want = static_cast<uint8_t>((want << 1) | (v & 1));
    uint8_t got = ch::BoolToU8(absl::MakeConstSpan(b));
    if (got != want) Fail(c, "pack:BoolToU8", fmt::format("{} bits", len));
    ch::U8ToBool(absl::MakeSpan(o), got);
    for (size_t i = 0; i < len; i++) {
      if (o[i] != ((got >> i) & 1)) { Fail(c, "pack:U8ToBool", fmt::format("{} bits", len)); break; }
    }
    Count("packings compared", 2);
  }
  // bit-matrix transposition
  uint64_t nr = 8 * c.rng.range(1, 20), nc = 8 * c.rng.range(1, 20);
  std::vector<uint8_t> m(nr * nc / 8), t(nr * nc / 8, 0xee);
  for (auto& v : m) v = static_cast<uint8_t>(c.rng.u64());
  ch::SseTranspose(t.data(), m.data(), nr, nc);
  for (uint64_t i = 0; i < nr; i++) {
    for (uint64_t j = 0; j < nc; j++) {
      bool a = (m[(i * nc + j) / 8] >> ((i * nc + j) % 8)) & 1, b = (t[(j * nr + i) / 8] >> ((j * nr + i) % 8)) & 1;
      if (a != b) { Fail(c, "pack:transpose", fmt::format("{} x {} at {},{}", nr, nc, i, j)); i = nr; break; }
    }
  }
  Count("packings compared");
  Cover(fmt::format("transpose/{}/{}", nr % 16, nc % 16));
}
static void OpenCase(Case& c) {
  namespace ch = spu::mpc::cheetah;
  FieldType f = c.rng.pick(std::vector<FieldType>{FM32, FM64, FM128});
  const size_t W = FieldBits(f);
  size_t nb = c.rng.chance(20) ? 0 : c.rng.range(1, W), n = c.rng.range(1, 40), B = nb == 0 ? W : nb;
  bool add = c.rng.chance(50);
  Shape sh = c.rng.chance(50) || n % 2 ? Shape{int64_t(n)} : Shape{int64_t(n / 2), 2};
  std::vector<uint128_t> x(n), s0(n), s1(n);
  for (size_t i = 0; i < n; i++) {
    x[i] = RingVal(c.rng, B);
    s0[i] = c.rng.u128() & Mask(B);
    s1[i] = add ? (x[i] - s0[i]) & Mask(B) : x[i] ^ s0[i];
  }
  Describe(c, fmt::format("OpenShare {} {} nbits {} n {}", FieldName(f), add ? "add" : "xor", nb, n));
  MpcOpt o;
  o.seed = c.seed;
  o.jitter = c.rng.u64();
  auto r = RunLink(o, [&](const std::shared_ptr<yacl::link::Context>& l, size_t rank) {
    auto conn = std::make_shared<Communicator>(l);
    auto shr = MakeRing(makeType<RingTy>(f), sh, rank == 0 ? s0 : s1);
    auto out = ch::OpenShare(shr, add ? ReduceOp::ADD : ReduceOp::XOR, nb, conn);
    SPU_ENFORCE(out.shape() == sh);
    return ReadRing(out);
  });
  if (!CheckOk(c, r, "pack:open")) return;
  for (auto& p : r.out) {
    for (size_t i = 0; i < n; i++) {
      if ((*p)[i] != x[i]) { Fail(c, fmt::format("pack:open:{}", add ? "add" : "xor"), fmt::format("element {} {} want {}", i, Hex((*p)[i]), Hex(x[i]))); return; }
    }
  }
  Count("opened shares compared", n * 2);
  Cover(fmt::format("open/{}/{}/{}", FieldName(f), add, nb));
}

// ---------------------------------------------------------------- LowMC -----
static int Parity(uint128_t v) {
  int p = 0;
  while (v) { p ^= 1; v &= v - 1; }
  return p;
}
static int BitRank(std::vector<uint128_t> rows, int cols) {
  int rank = 0;
  for (int b = 0; b < cols; b++) {
    size_t k = rank;
    while (k < rows.size() && !((rows[k] >> b) & 1)) k++;
    if (k == rows.size()) continue;
    std::swap(rows[rank], rows[k]);
    for (size_t i = 0; i < rows.size(); i++) {
      if (i != size_t(rank) && ((rows[i] >> b) & 1)) rows[i] ^= rows[rank];
    }
    rank++;
  }
  return rank;
}
static void LowmcCase(Case& c) {
  FieldType f = c.rng.pick(std::vector<FieldType>{FM32, FM64, FM128});
  const size_t W = FieldBits(f);
  int64_t d = c.rng.pick(std::vector<int64_t>{20, 30, 40});
  if (f == FM32 && d == 40) d = 30;
  uint128_t seed = c.rng.u128(), key = c.rng.chance(20) ? c.rng.below(2) : c.rng.u128();
  bool dec = c.rng.chance(60);
  Shape sh = RandShape(c.rng, 3, 12, false);
  Describe(c, fmt::format("LowMC {} d={} key={} decrypt={} shape {}", FieldName(f), d, Hex(key), dec, Str(sh)));
  LowMC m(f, seed, d, 128, dec), m2(f, seed, d, 128, dec);
  m.set_key(key);
  m2.set_key(key);
  auto ty = makeType<RingTy>(f);
  NdArrayRef x = RandView(c.rng, ty, sh, false);
  std::vector<uint128_t> v(sh.numel());
  for (auto& e : v) e = RingVal(c.rng, W);
  WriteRing(x, v);
  // the published parameters
  struct P { int64_t boxes, rounds; };
  P want = f == FM32 ? P{9, 15} : f == FM64 ? (d == 20 ? P{15, 11} : d == 30 ? P{13, 12} : P{13, 13}) : (d == 20 ? P{25, 10} : d == 30 ? P{25, 11} : P{25, 12});
  if (m.rounds() != want.rounds || m.number_of_boxes() != want.boxes || m.data_block_size() != int64_t(W)) {
    Fail(c, "lowmc:parameters", fmt::format("rounds {} boxes {} block {}", m.rounds(), m.number_of_boxes(), m.data_block_size()));
    return;
  }
  std::vector<std::vector<uint128_t>> L, K;
  std::vector<uint128_t> C;
  for (auto& a : m.Lmat()) L.push_back(ReadRing(a));
  for (auto& a : m.Kmat()) K.push_back(ReadRing(a));
  for (auto& a : m.RoundConstants()) C.push_back(ReadRing(a).at(0));
  if (L.size() != size_t(want.rounds) || K.size() != size_t(want.rounds + 1) || C.size() != size_t(want.rounds)) { Fail(c, "lowmc:tables", "wrong number of matrices"); return; }
  for (auto& a : L) {
    if (a.size() != W) { Fail(c, "lowmc:tables", "linear matrix is not square"); return; }
    if (dec && BitRank(a, W) != int(W)) Fail(c, "lowmc:singular-linear", "linear matrix is singular");
  }
  for (auto& a : K) {
    if (a.size() != W) { Fail(c, "lowmc:tables", "key matrix has the wrong height"); return; }
    if (dec && BitRank(a, 128) != int(W)) Fail(c, "lowmc:singular-key", "key matrix loses rank");
  }
  // all matrices are fresh
  for (size_t i = 1; i < L.size(); i++) {
    if (L[i] == L[0]) Fail(c, "lowmc:repeated-matrix", fmt::format("round {}", i));
  }
  static const int S[8] = {0, 1, 3, 6, 7, 4, 5, 2};  // (a,b,c) -> (a^bc, a^b^ac, a^b^c^ab)
  auto dot = [&](const std::vector<uint128_t>& mat, uint128_t y) {
    uint128_t r = 0;
    for (size_t i = 0; i < mat.size(); i++) r |= uint128_t(Parity(mat[i] & y)) << i;
    return r;
  };
  std::vector<uint128_t> rk;
  for (auto& a : K) rk.push_back(dot(a, key));
  auto e1 = m.encrypt(x), e2 = m2.encrypt(x);
  auto g1 = ReadRing(e1), g2 = ReadRing(e2);
  if (ReadRing(x) != v) Fail(c, "lowmc:input-changed", "encrypt changed its plaintext");
  if (e1.shape() != sh || g1 != g2) Fail(c, "lowmc:not-deterministic", "two ciphers from one seed and key differ");
  for (size_t i = 0; i < v.size(); i++) {
    uint128_t s = v[i] ^ rk[0];
    for (int64_t r = 1; r <= want.rounds; r++) {
      uint128_t t = s;
      for (int64_t b = 0; b < want.boxes; b++) {
        t &= ~(uint128_t(7) << (3 * b));
        t |= uint128_t(S[static_cast<int>((s >> (3 * b)) & 7)]) << (3 * b);
      }
      s = dot(L[r - 1], t) ^ C[r - 1] ^ rk[r];
    }
    if (g1[i] != (s & Mask(W))) { Fail(c, "lowmc:encrypt", fmt::format("{} -> {} want {}", Hex(v[i]), Hex(g1[i]), Hex(s))); break; }
  }
  Count("ciphertexts compared", v.size());
  if (dec) {
    auto back = m.decrypt(e1);
    if (ReadRing(e1) != g1) Fail(c, "lowmc:input-changed", "decrypt changed its ciphertext");
    if (ReadRing(back) != v) Fail(c, "lowmc:decrypt", "decrypt(encrypt(x)) != x");
    Count("decryptions compared", v.size());
  }
  LowMC other(f, seed + 1, d, 128, false);
  if (ReadRing(other.Lmat()[0]) == L[0]) Fail(c, "lowmc:seed-ignored", "two seeds give one matrix");
  // dot products between widths
  FieldType tf = c.rng.pick(std::vector<FieldType>{FM32, FM64, FM128});
  std::vector<uint128_t> mat(FieldBits(tf));
  for (auto& e : mat) e = RingVal(c.rng, W);
  NdArrayRef ma = RandView(c.rng, ty, {int64_t(mat.size())}, false);
  WriteRing(ma, mat);
  auto dp = ReadRing(dot_product_gf2(ma, x, tf));
  for (size_t i = 0; i < v.size(); i++) {
    if (dp[i] != dot(mat, v[i])) { Fail(c, "lowmc:dot", fmt::format("{} -> {}", FieldName(f), FieldName(tf))); break; }
  }
  Count("products compared", v.size());
  Cover(fmt::format("lowmc/{}/{}/{}/{}", FieldName(f), d, dec, sh.size()));
  for (int it = 0; it < 10; it++) {
    int64_t n = c.rng.range(1, int64_t(1) << c.rng.range(1, 40));
    if (c.rng.chance(30)) n = (int64_t(1) << c.rng.pick(std::vector<int64_t>{20, 30, 40})) + c.rng.range(-1, 1);
    int64_t w2 = n <= (int64_t(1) << 20) ? 20 : n <= (int64_t(1) << 30) ? 30 : 40, got = -1;
    try { got = get_data_complexity(n); } catch (const std::exception&) {}
    if (got != (n > (int64_t(1) << 40) ? -1 : w2)) Fail(c, "lowmc:complexity", fmt::format("{} -> {}", n, got));
    Count("parameters compared");
  }
}

// -------------------------------------------------------------- Waksman -----
static void WaksmanOne(Case& c, const std::vector<int64_t>& perm) {
  const size_t n = perm.size();
  auto topo = generate_as_waksman_topology(n);
  auto route = get_as_waksman_routing(Index(perm.begin(), perm.end()));
  int lg = MBitWidth(n - 1);
  size_t cols = 2 * lg - 1;
  if (topo.size() != cols || route.size() != cols) { Fail(c, "waksman:columns", fmt::format("{} packets: {} / {} columns", n, topo.size(), route.size())); return; }
  // number of switches: sum of ceil(log2 i)
  size_t sw = 0, want = 0;
  for (size_t i = 2; i <= n; i++) want += MBitWidth(i - 1);
  std::vector<int64_t> at(n);
  for (size_t i = 0; i < n; i++) at[i] = i;  // packet i stands at wire at[i]
  for (size_t k = 0; k < cols; k++) {
    std::vector<bool> is(n, false);
    for (size_t w = 0; w < n; w++) {
      auto [s, x] = topo[k][w];
      if (s < 0 || x < 0 || s >= int64_t(n) || x >= int64_t(n)) { Fail(c, "waksman:topology", fmt::format("wire {} of column {} leads nowhere", w, k)); return; }
      if (s == x) continue;
      // a switch: w is top or bottom; its partner swaps the two ends
      if (!is[w]) {
        if (w + 1 >= n || topo[k][w + 1].first != x || topo[k][w + 1].second != s) { Fail(c, "waksman:switch", fmt::format("n {} column {} wire {} has no partner", n, k, w)); return; }
        if (route[k].find(w) == route[k].end()) { Fail(c, "waksman:unset-switch", fmt::format("n {} column {} wire {}", n, k, w)); return; }
        is[w] = is[w + 1] = true;
        sw++;
      }
    }
    size_t set = route[k].size(), have = 0;
    for (size_t w = 0; w < n; w++) have += is[w];
    if (set != have / 2) { Fail(c, "waksman:extra-setting", fmt::format("n {} column {}: {} settings for {} switches", n, k, set, have / 2)); return; }
    std::vector<bool> hit(n, false);
    for (size_t i = 0; i < n; i++) {
      size_t w = at[i];
      auto [s, x] = topo[k][w];
      int64_t to = s;
      if (s != x) {
        size_t top = (w > 0 && is[w] && route[k].find(w) == route[k].end()) ? w - 1 : w;
        to = route[k].at(top) ? x : s;
      }
      at[i] = to;
      if (hit[to]) { Fail(c, "waksman:collision", fmt::format("n {} column {} wire {}", n, k, to)); return; }
      hit[to] = true;
    }
  }
  if (sw != want) Fail(c, "waksman:switch-count", fmt::format("n {}: {} switches want {}", n, sw, want));
  for (size_t i = 0; i < n; i++) {
    if (at[i] != perm[i]) { Fail(c, "waksman:route", fmt::format("n {} packet {} ends at {} want {}", n, i, at[i], perm[i])); return; }
  }
  Count("permutations routed");
  Cover(fmt::format("waksman/{}", n));
}
static void WaksmanCase(Case& c) {
  const uint64_t k = c.index % 10000000;
  if (k < 7) {  // all permutations of 2..8 packets
    size_t n = k + 2;
    if (n == 8 && !c.thorough) n = 7;
    Describe(c, fmt::format("all permutations of {}", n));
    std::vector<int64_t> p(n);
    for (size_t i = 0; i < n; i++) p[i] = i;
    do WaksmanOne(c, p); while (std::next_permutation(p.begin(), p.end()));
    return;
  }
  size_t n = c.rng.chance(60) ? c.rng.range(2, 40) : c.rng.range(2, c.thorough ? 3000 : 400);
  std::vector<int64_t> p(n);
  for (size_t i = 0; i < n; i++) p[i] = i;
  switch (c.rng.below(4)) {
    case 0: std::reverse(p.begin(), p.end()); break;
    case 1: std::rotate(p.begin(), p.begin() + c.rng.below(n), p.end()); break;
    case 2: for (size_t i = 0; i + 1 < n; i += 2) if (c.rng.chance(50)) std::swap(p[i], p[i + 1]); break;
    default: for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[c.rng.below(i)]);
  }
  Describe(c, fmt::format("permutation {}", Str(p)).substr(0, 400));
  WaksmanOne(c, p);
  // the permutation helpers
  IntegerPermutation ip(Index(p.begin(), p.end()));
  auto inv = ip.inverse();
  for (size_t i = 0; i < n; i++) {
    if (ip[i] != p[i] || inv[p[i]] != int64_t(i)) { Fail(c, "waksman:inverse", fmt::format("at {}", i)); return; }
  }
  if (!ip.is_valid()) Fail(c, "waksman:valid", "permutation reported invalid");
  size_t a = c.rng.below(n), b = c.rng.range(a, n - 1);
  auto sl = ip.slice(a, b);
  if (sl.size() != b - a + 1) Fail(c, "waksman:slice", "wrong size");
  for (size_t i = a; i <= b; i++) {
    if (sl[i] != p[i]) { Fail(c, "waksman:slice", fmt::format("at {}", i)); break; }
  }
  auto dup = p;
  if (n > 2) {
    dup[c.rng.below(n)] = dup[0];
    bool same = dup == p;
    if (IntegerPermutation(Index(dup.begin(), dup.end())).is_valid() != same) Fail(c, "waksman:valid", "non-permutation reported valid");
  }
}

// ---------------------------------------------------------------- costs -----
namespace {
struct MExpr {  // model: value under the bindings
  uint64_t v;
  ce::CExpr e;
};
// A parser of the printed form with ordinary precedence, left associative.
struct Parser {
  const std::string& s;
  size_t p = 0;
  const ce::Params& env;
  bool bad = false;
  uint64_t atom() {
    if (p >= s.size()) { bad = true; return 0; }
    if (s[p] == '(') {
      p++;
      uint64_t v = sum();
      if (p >= s.size() || s[p] != ')') bad = true;
      p++;
      return v;
    }
    if (isdigit(s[p])) {
      uint64_t v = 0;
      while (p < s.size() && isdigit(s[p])) v = v * 10 + (s[p++] - '0');
      return v;
    }
    std::string id;
    while (p < s.size() && isalnum(s[p])) id += s[p++];
    if (id == "log") {
      if (p >= s.size() || s[p] != '(') { bad = true; return 0; }
      uint64_t v = atom();
      return MBitWidth(v == 0 ? 0 : v - 1);
    }
    auto it = env.find(id);
    if (it == env.end()) { bad = true; return 0; }
    return it->second;
  }
  uint64_t prod() {
    uint64_t v = atom();
    while (!bad && p < s.size() && s[p] == '*') { p++; v *= atom(); }
    return v;
  }
  uint64_t sum() {
    uint64_t v = prod();
    while (!bad && p < s.size() && (s[p] == '+' || s[p] == '-')) {
      char o = s[p++];
      uint64_t w = prod();
      v = o == '+' ? v + w : v - w;
    }
    return v;
  }
};
}  // namespace
static void CostExprCase(Case& c) {
  ce::Params env{{"K", c.rng.pick(std::vector<size_t>{32, 64, 128, size_t(1) << c.rng.range(0, 30), size_t(c.rng.range(1, 1 << 20))})},
                 {"N", size_t(c.rng.range(2, 9))},
                 {"m", size_t(c.rng.range(0, 300))}};
  std::function<MExpr(int)> gen = [&](int depth) -> MExpr {
    int k = depth == 0 ? static_cast<int>(c.rng.below(4)) : static_cast<int>(c.rng.below(14));
    switch (k) {
      case 0: { uint64_t v = c.rng.below(200); return {v, ce::Const(v)}; }
      case 1: return {env["K"], ce::K()};
      case 2: return {env["N"], ce::N()};
      case 3: return {env["m"], ce::Variable("m", "m")};
      case 4: {
        if (c.rng.chance(30)) { uint64_t v = c.rng.range(1, 5000); return {uint64_t(MBitWidth(v - 1)), ce::Log(v)}; }
        MExpr a = gen(depth - 1);
        if (a.v == 0 || a.v > (uint64_t(1) << 40)) a = {env["K"], ce::K()};
        return {uint64_t(MBitWidth(a.v - 1)), ce::Log(a.e)};
      }
      case 5: { MExpr a = gen(depth - 1); uint64_t v = c.rng.below(50); return {a.v + v, a.e + v}; }
      case 6: { MExpr a = gen(depth - 1); uint64_t v = c.rng.below(50); return {v - a.v, v - a.e}; }
      case 7: { MExpr a = gen(depth - 1); uint64_t v = c.rng.below(50); return {a.v * v, v * a.e}; }
      case 8: case 9: { MExpr a = gen(depth - 1), b = gen(depth - 1); return {a.v + b.v, a.e + b.e}; }
      case 10: case 11: { MExpr a = gen(depth - 1), b = gen(depth - 1); return {a.v - b.v, a.e - b.e}; }
      default: { MExpr a = gen(depth - 1), b = gen(depth - 1); return {a.v * b.v, a.e * b.e}; }
    }
  };
  for (int it = 0; it < 20; it++) {
    MExpr m = gen(static_cast<int>(c.rng.range(0, 5)));
    std::string txt = m.e->expr();
    Describe(c, txt.substr(0, 600));
    uint64_t got = m.e->eval(env);
    if (got != m.v) { Fail(c, "cexpr:eval", fmt::format("{} = {} want {}", txt, got, m.v)); return; }
    Parser p{txt, 0, env};
    uint64_t back = p.sum();
    if (p.bad || p.p != txt.size()) { Fail(c, "cexpr:print-syntax", txt); return; }
    if (back != m.v) { Fail(c, "cexpr:print", fmt::format("{} reads back as {}, is {}", txt, back, m.v)); return; }
    Count("expressions evaluated and read back");
    Cover(fmt::format("cexpr/{}", std::min<size_t>(txt.size() / 4, 20)));
  }
  auto k2 = ce::K() + ce::Variable("q", "unbound");
  bool threw = false;
  try { k2->eval(env); } catch (const std::exception&) { threw = true; }
  if (!threw) Fail(c, "cexpr:unbound", "an unbound variable evaluated");
}

int main(int argc, char** argv) {
  return Main(argc, argv,
              {{"bits", 1200, 40000, BitsCase},
               {"circuit", 1200, 40000, CircuitCase},
               {"pack", 1200, 40000, PackCase},
               {"open", 600, 20000, OpenCase},
               {"lowmc", 240, 6000, LowmcCase},
               {"waksman", 1500, 40000, WaksmanCase},
               {"cexpr", 3000, 100000, CostExprCase}});
}
