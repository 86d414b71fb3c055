// C10: truncation errs by at most one unit in the last place.
// C11: what travels does not depend on the secrets (programs; see also hal, hlo).
// C17: messages and shares look the same whatever the secrets are.
#include <cmath>

#include "tv.h"

#include "libspu/kernel/hal/fxp_approx.h"
#include "libspu/kernel/hal/fxp_base.h"
#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/utils.h"
using namespace spu;
using namespace vh;
namespace hal = spu::kernel::hal;

namespace {
using Ctx = SPUContext;

// ---- C11: programs ------------------------------------------------------------
void ProgPattern(Case& c, const Proto& p) {
  auto& g = c.rng;
  vmon::g_num_threads = 4;
  FieldType f = g.pick(FieldsOf(p));
  PlanOpt po;
  po.len = p.cost >= 20 ? 5 : 10;
  Plan pl = PlanGen(g, p, f, po).Make();
  Describe(c, pl.text());
  auto key = std::string("pattern:") + p.name;
  auto opt = OptFor(pl, c.seed);
  opt.cfg.experimental_enable_intra_op_par = g.chance(20);
  opt.cfg.experimental_disable_vectorization = g.chance(20);
  Traffic first;
  for (int variant = 0; variant < 3; variant++) {
    const uint64_t vs = g.u64();
    opt.jitter = g.u64();
    auto r = RunMpc(opt, [&](Ctx* ctx, size_t) {
      std::vector<Value> v;
      for (size_t k = 0; k < pl.steps.size(); k++) {
        auto& s = pl.steps[k];
        int from = -1;
        Value kept;
        if (variant && (s.op == "p2s" || s.op == "p2v")) {
          // another secret enters here
          from = std::atoi(s.text.c_str() + 5);
          Rng d(vs + k);
          Vec w;
          for (size_t i = 0; i < pl.nodes[k].val.size(); i++) w.push_back(variant == 1 ? RingVal(d, pl.bits) : 0);
          kept = v[from];
          v[from] = PubValue(f, pl.nodes[from].shape, w);
        }
        v.push_back(s.run(ctx, v));
        if (from >= 0) v[from] = kept;
        // what is opened is public: from here on it is the same in every variant
        if (s.op == "s2p" || s.op == "v2p") v[k] = PubValue(f, pl.nodes[k].shape, pl.nodes[k].val);
      }
      return 0;
    });
    if (!CheckOk(c, r, key)) return;
    Count("messages compared", r.world->num_msgs());
    auto t = TrafficOf(*r.world);
    if (variant == 0) {
      first = t;
      continue;
    }
    auto m = TrafficDiff(first, t);
    if (!m.empty()) {
      Fail(c, key, fmt::format("the messages depend on the secrets: {}", m));
      return;
    }
  }
  for (auto& s : pl.steps) Cover(fmt::format("{}/{}/{}", p.name, FieldName(f), s.op));
}

// ---- C10 ----------------------------------------------------------------------
void TruncCase(Case& c, const Proto& p) {
  auto& g = c.rng;
  FieldType f = g.pick(FieldsOf(p));
  const size_t k = FieldBits(f);
  const bool fast = g.chance(40);  // allow errors of the top bit, with small probability
  // the protocols whose only or chosen truncation has such errors
  const bool msb_err = p.spdz2k || p.kind == SWIFT || (fast && (p.kind == ABY3 || p.kind == SEMI2K));
  const size_t bits = g.chance(30) ? std::min<size_t>(k - 3, g.pick(std::vector<size_t>{8, 18, 26, 40})) : 1 + g.below(k - 3);
  const int64_t n = p.cost >= 20 ? 300 : 4000;
  // |x| < 2^l
  size_t l = k - 2;
  if (msb_err) l = k == 32 ? k - 12 : g.chance(50) ? k - 12 : k - 40;
  Vec x(n);
  SignType sign = g.chance(50) ? SignType::Unknown : g.chance(50) ? SignType::Positive : SignType::Negative;
  const int64_t dense = g.range(0, 3);
  for (auto& v : x) {
    size_t w = dense == 0 ? l : 1 + g.below(l);
    if (g.chance(20)) v = (uint128_t(1) << w) - 1 - g.below(3);
    else if (g.chance(20)) v = (g.u128() & Mask(w)) >> std::min(bits, w) << std::min(bits, w);
    else v = g.u128() & Mask(w);
    v &= Mask(l);
    if (sign == SignType::Negative || (sign == SignType::Unknown && g.chance(50))) v = uint128_t(0) - (v == 0 ? 1 : v);
    v &= Mask(k);
  }
  const bool as_bool = g.chance(15);
  const bool strided = g.chance(20);
  Describe(c, fmt::format("{} {} trunc {} bits |x|<2^{} sign {} {}", p.name, FieldName(f), bits, l, static_cast<int>(sign), fast ? "msb errors allowed" : ""));
  Env e{p, f, 18, {}};
  auto o = EnvOpt(c, e);
  o.cfg.trunc_allow_msb_error = fast;
  o.cfg.experimental_enable_intra_op_par = g.chance(20);
  Operand op;
  op.shape = g.chance(50) ? Shape{n} : Shape{4, n / 4};
  op.val = x;
  op.as_bool = as_bool && !p.spdz2k;
  op.strided = strided && !op.as_bool;
  auto r = RunMpc(o, [&](Ctx* ctx, size_t) {
    auto v = MakeOperand(ctx, f, op);
    auto z = hal::_trunc(ctx, v, bits, sign);
    if (z.shape() != op.shape) SPU_THROW("shape {}", z.shape());
    return ReadRing(hal::reveal(ctx, z.setDtype(DT_I64, true)).data());
  });
  auto key = fmt::format("trunc:{}{}", p.name, fast ? ":fast" : "");
  if (!CheckOk(c, r, key)) return;
  for (size_t q = 1; q < r.out.size(); q++)
    if (*r.out[q] != *r.out[0]) return Fail(c, key + ":parties-differ", "");
  int64_t slips = 0;
  int128_t lo = 0, hi = 0;
  for (int64_t i = 0; i < n; i++) {
    int128_t a = Signed(x[i], k), want = a >> bits, got = Signed((*r.out[0])[i], k);
    int128_t d = Signed(static_cast<uint128_t>(got - want) & Mask(k), k);
    if (d >= -1 && d <= 1) { lo = std::min(lo, d), hi = std::max(hi, d); continue; }
    // a slip of the top bit moves the result by 2^(k - bits)
    int128_t j = Signed(static_cast<uint128_t>(d < 0 ? -d : d), 128);
    const size_t top = k - bits;
    bool slip = msb_err && top < k && ((static_cast<uint128_t>(j) + 1) & Mask(top)) <= 2;
    if (slip) { slips++; continue; }
    return Fail(c, key, fmt::format("{} >> {}: got {} want {} within 1 (element {})", Hex(x[i]), bits, Hex((*r.out[0])[i]), Hex(static_cast<uint128_t>(want) & Mask(k)), i));
  }
  if (std::getenv("MEAS_ALL")) std::fprintf(stderr, "M %s %d %d %d %d..%d slips %ld\n", p.name, (int)k, (int)fast, (int)sign, (int)lo, (int)hi, (long)slips);
  // expected at most n 2^(l + 1 - k)
  const double exp = n * std::ldexp(1.0, static_cast<int>(l) + 1 - static_cast<int>(k));
  if (slips > 12 + 3 * exp) return Fail(c, key + ":slips", fmt::format("{} of {} results are off by the top bit, expected about {:.3g}", slips, n, exp));
  Count("truncations judged", n);
  Cover(fmt::format("{}/{}/{}/{}/{}/{}", p.name, FieldName(f), fast, static_cast<int>(sign), bits, l));
}

// ---- C17 ----------------------------------------------------------------------
struct MaskOp {
  const char* name;
  int arity;
  bool order;  // needs |x| < 2^(k-3)
  std::function<Value(Ctx*, const Value&, const Value&)> run;
};
const std::vector<MaskOp>& MaskOps() {
  using namespace spu::mpc;
#define L [](Ctx * c, const Value& x, const Value& y)
  static const std::vector<MaskOp> t = {
      {"v2s", 1, false, L { return x; }},
      {"mul", 2, false, L { return hal::_mul(c, x, y); }},
      {"square", 1, false, L { return hal::_square(c, x); }},
      {"and", 2, false, L { return hal::_and(c, x, y); }},
      {"xor", 2, false, L { return hal::_xor(c, x, y); }},
      {"a2b", 1, false, L { return hal::_prefer_b(c, x); }},
      {"a2b2a", 1, false, L { return hal::_prefer_a(c, hal::_prefer_b(c, x)); }},
      {"msb", 1, true, L { return hal::_msb(c, x); }},
      {"equal", 2, true, L { return hal::_equal(c, x, y); }},
      {"less", 2, true, L { return hal::_less(c, x, y); }},
      {"rshift", 1, false, L { return hal::_rshift(c, x, {3}); }},
      {"arshift", 1, true, L { return hal::_arshift(c, x, {3}); }},
      {"trunc", 1, true, L { return hal::_trunc(c, x, 7); }},
      {"trunc+", 1, true, L { return hal::_trunc(c, x, 7, SignType::Positive); }},
      {"matmul", 2, false, L { return hal::_mmul(c, spu::mpc::reshape(c, x, {x.numel() / 8, 8}), spu::mpc::reshape(c, y, {8, y.numel() / 8})); }},
      {"mux", 2, true, L { return hal::_mux(c, hal::_less(c, x, y), x, y); }},
      {"mul-bit", 2, true, L { return hal::_mul(c, hal::_less(c, x, y), x); }},
      {"add-bit", 2, true, L { return hal::_add(c, hal::_msb(c, x), y); }},
      {"or", 2, false, L { return hal::_or(c, x, y); }},
      {"lshift-b", 1, false, L { return hal::_xor(c, hal::_lshift(c, hal::_prefer_b(c, x), {5}), x); }},
      {"parity", 1, false, L { return hal::_prefer_a(c, hal::_and(c, x, hal::_constant(c, 1, x.shape()))); }},
      {"deinterleave", 1, false, L { return hal::_bitdeintl(c, x); }},
      {"sum", 1, false, L { return hal::_mul(c, hal::associative_reduce([](Ctx* q, const Value& a, const Value& b) { return hal::_add(q, a, b); }, c, spu::mpc::reshape(c, x, {x.numel() / 4, 4})), hal::_constant(c, 3, {x.numel() / 4})); }},
      {"permute", 2, false, L {
         auto r = spu::mpc::inv_perm_sv(c, x, y);
         return r.has_value() ? r.value() : x;
       }},
      {"shuffle", 1, false, L {
         auto pi = spu::mpc::rand_perm_s(c, x.shape());
         if (!pi.has_value()) return x;
         auto r = spu::mpc::perm_ss(c, x, pi.value());
         return r.has_value() ? r.value() : x;
       }},
  };
#undef L
  return t;
}

using Words = std::vector<uint8_t>;
struct View {
  std::map<std::string, Words> part;  // messages and share components
};
struct BitStat {
  uint64_t n = 0;             // samples of each bit
  std::vector<uint64_t> one;  // per position
};
BitStat Bits(const Words& w) {
  BitStat s;
  const size_t period = w.size() >= 16 * 64 ? 16 : w.size() >= 64 ? 1 : 0;
  if (!period) return s;
  s.one.assign(period * 8, 0);
  s.n = w.size() / period;
  for (size_t i = 0; i < s.n; i++)
    for (size_t b = 0; b < period; b++) {
      uint8_t v = w[i * period + b];
      for (int k = 0; k < 8; k++) s.one[b * 8 + k] += (v >> k) & 1;
    }
  return s;
}
double Z(const BitStat& a, const BitStat& b, size_t k) {
  if (a.n == 0 || a.one.size() != b.one.size()) return 0;
  double pa = double(a.one[k]) / a.n, pb = double(b.one[k]) / b.n, p = (pa + pb) / 2;
  if (p <= 0 || p >= 1) return 0;
  return (pa - pb) / std::sqrt(p * (1 - p) * (1.0 / a.n + 1.0 / b.n));
}
// share of neighbouring words that are equal
double Rep(const Words& w, size_t sz) {
  const size_t n = w.size() / sz;
  if (n < 64) return 0;
  size_t r = 0;
  for (size_t i = 1; i < n; i++) r += std::memcmp(&w[i * sz], &w[(i - 1) * sz], sz) == 0;
  return double(r) / (n - 1);
}
Words Sub(const Words& a, const Words& b, size_t sz, bool x) {
  Words r(a.size());
  for (size_t i = 0; i + sz <= a.size(); i += sz) {
    uint128_t p = 0, q = 0;
    std::memcpy(&p, &a[i], sz), std::memcpy(&q, &b[i], sz);
    p = x ? (p ^ q) : p - q;
    std::memcpy(&r[i], &p, sz);
  }
  return r;
}

void MaskCase(Case& c, const Proto& p) {
  auto& g = c.rng;
  const auto& op = g.pick(MaskOps());
  FieldType f = g.pick(FieldsOf(p));
  const size_t k = FieldBits(f), es = k / 8;
  const int64_t n = p.cost >= 20 ? 128 : 512;
  const int owner = static_cast<int>(g.below(p.npc));
  auto draw = [&] {
    uint128_t v = g.chance(40) ? RingVal(g, k) : g.chance(50) ? g.below(3) : uint128_t(0) - g.below(3);
    if (op.order) v = static_cast<uint128_t>(Signed(v & Mask(k), k) >> 3);
    return v & Mask(k);
  };
  uint128_t sec[2][2];
  for (auto& r : sec) for (auto& v : r) v = draw();
  if (g.chance(60)) sec[1][0] = ~sec[0][0] & Mask(k), sec[1][1] = g.chance(50) ? sec[0][1] : ~sec[0][1] & Mask(k);
  if (op.order) for (auto& r : sec) for (auto& v : r) v = static_cast<uint128_t>(Signed(v, k) >> 2) & Mask(k);
  if (std::string(op.name) == "trunc+") for (auto& r : sec) for (auto& v : r) v &= Mask(k - 4);
  const bool fast = g.chance(30);
  const bool perm = std::string(op.name) == "permute";
  // other forms of the operands: boolean, private
  const bool xb = !perm && g.chance(20), yb = !perm && g.chance(20), yv = perm || (g.chance(20) && p.kind != SWIFT);
  Describe(c, fmt::format("{} {} {} owner {} secrets ({}, {}) against ({}, {}){}", p.name, FieldName(f), op.name, owner, Hex(sec[0][0]), Hex(sec[0][1]), Hex(sec[1][0]), Hex(sec[1][1]), fast ? " fast trunc" : ""));
  Env e{p, f, 18, {}};
  auto key = fmt::format("mask:{}:{}", p.name, op.name);
  const uint64_t seed0 = g.u64();
  int runs = 0;
  bool bad = false;
  // which: 0, 1 the constant secrets, 2 random secrets
  auto once = [&](int which) -> std::vector<View> {
    auto o = EnvOpt(c, e);
    o.seed = Mix(seed0 + 977 * ++runs);
    o.cfg.trunc_allow_msb_error = fast;
    o.record_payload = true;
    Vec a(n, sec[which & 1][0]), b(n, sec[which & 1][1]);
    Rng d(seed0 ^ runs);
    if (which == 2) for (int64_t i = 0; i < n; i++) {
      a[i] = d.u128() & Mask(k), b[i] = d.u128() & Mask(k);
      if (op.order) a[i] >>= 5, b[i] >>= 5;
    }
    if (perm) {
      for (int64_t i = 0; i < n; i++) b[i] = which == 0 ? i : n - 1 - i;
      if (which == 2) for (int64_t i = n - 1; i > 0; i--) std::swap(b[i], b[d.below(i + 1)]);
    }
    auto r = RunMpc(o, [&](Ctx* ctx, size_t) {
      View v;
      auto input = [&](const Vec& x) {
        auto s = hal::_v2s(ctx, hal::_p2v(ctx, PubValue(f, {n}, x), owner));
        return s;
      };
      Value x = input(a), y;
      if (op.arity == 2) y = yv ? hal::_p2v(ctx, PubValue(f, {n}, b), owner) : input(b);
      if (xb) x = hal::_prefer_b(ctx, x);
      if (yb && !yv && op.arity == 2) y = hal::_prefer_b(ctx, y);
      auto keep = [&](const char* nm, const Value& s) {
        auto arr = s.data().clone();
        const size_t w = arr.elsize(), m = static_cast<size_t>(arr.numel());
        const auto* q = static_cast<const uint8_t*>(static_cast<const void*>(arr.data()));
        const size_t part = w % es == 0 ? es : w;
        for (size_t t = 0; t < w / part; t++) {
          Words u;
          for (size_t i = 0; i < m; i++) u.insert(u.end(), q + i * w + t * part, q + i * w + (t + 1) * part);
          v.part[fmt::format("share {}/{}", nm, t)] = u;
        }
      };
      keep("x", x);
      if (op.arity == 2 && !yv) keep("y", y);
      Value z = op.run(ctx, x, op.arity == 2 ? y : x);
      if (std::string(op.name) != "v2s") keep("result", z);
      return v;
    });
    std::vector<View> vs(p.npc);
    if (!CheckOk(c, r, key)) { bad = true; return vs; }
    std::map<std::pair<int, int>, int> seq;
    for (size_t q = 0; q < p.npc; q++) vs[q] = *r.out[q];
    for (auto& m : r.world->TakeLog()) {
      if (m.tag == "ideal-he") continue;  // the stand-in for encryption carries plaintexts
      auto nm = fmt::format("msg {}->{} #{:03} {}", m.src, m.dst, seq[{m.src, m.dst}]++, m.tag);
      Words w(m.payload.begin(), m.payload.end());
      vs[m.src].part[nm] = w;
      vs[m.dst].part[nm] = w;
    }
    Count("messages recorded", r.world->num_msgs());
    return vs;
  };
  auto A = once(0), B = once(1), R = once(2);
  if (bad) return;
  // streams of a party: its parts, and differences of equally long parts
  struct Finding { size_t q; std::string a, b; int how; size_t bit; double z; };
  auto stream = [&](const View& v, const Finding& w) -> Words {
    auto i = v.part.find(w.a);
    if (i == v.part.end()) return {};
    if (w.how == 0) return i->second;
    auto j = v.part.find(w.b);
    if (j == v.part.end() || i->second.size() != j->second.size()) return {};
    return Sub(i->second, j->second, es, w.how == 2);
  };
  std::vector<Finding> sus;
  uint64_t tests = 0;
  auto judge = [&](Finding w) {
    auto a = stream(A[w.q], w), b = stream(B[w.q], w), r = stream(R[w.q], w);
    if (a.size() != b.size() || a.size() < 64) return;
    auto sa = Bits(a), sb = Bits(b);
    for (size_t t = 0; t < sa.one.size(); t++) {
      tests++;
      double z = Z(sa, sb, t);
      if (std::abs(z) > 6.5 && sus.size() < 60) {
        w.bit = t, w.z = z;
        sus.push_back(w);
        break;
      }
    }
    for (size_t sz : {es, size_t(1)}) {
      tests++;
      double da = Rep(a, sz), dr = Rep(r, sz);
      if (std::abs(da - dr) > 0.12 && r.size() == a.size() && sus.size() < 60) {
        w.bit = 1000 + sz, w.z = da - dr;
        sus.push_back(w);
      }
    }
  };
  for (size_t q = 0; q < p.npc; q++) {
    if (static_cast<int>(q) == owner) continue;
    std::vector<std::string> big;
    for (auto& [nm, w] : A[q].part)
      if (w.size() >= 64) {
        judge({q, nm, "", 0, 0, 0});
        if (w.size() == n * es) big.push_back(nm);
      }
    Count("streams judged", A[q].part.size());
    for (size_t t = 0; t < 120 && big.size() > 1; t++) {
      size_t i = g.below(big.size()), j = g.below(big.size());
      if (big.size() <= 15 && t < big.size() * big.size()) i = t / big.size(), j = t % big.size();
      if (i >= j) continue;
      judge({q, big[i], big[j], 1, 0, 0});
      judge({q, big[i], big[j], 2, 0, 0});
      Count("pairs of streams judged");
    }
  }
  Count("statistics", tests);
  if (!sus.empty()) {
    // confirm on fresh runs
    auto A2 = once(0), B2 = once(1), R2 = once(2), A3 = once(0), B3 = once(1);
    if (bad) return;
    for (auto& w : sus) {
      if (w.bit >= 1000) {
        size_t sz = w.bit - 1000;
        double d2 = Rep(stream(A2[w.q], w), sz) - Rep(stream(R2[w.q], w), sz), d3 = Rep(stream(A3[w.q], w), sz) - Rep(stream(R[w.q], w), sz);
        if (std::min(d2, d3) > 0.12 || std::max(d2, d3) < -0.12)
          return Fail(c, key + ":repeats", fmt::format("party {} sees words repeat when the secrets do ({} {}): {:.3f}", w.q, w.a, w.b, w.z));
        continue;
      }
      auto z = [&](const std::vector<View>& u, const std::vector<View>& v) {
        auto s = Bits(stream(u[w.q], w)), t = Bits(stream(v[w.q], w));
        return w.bit < s.one.size() && w.bit < t.one.size() ? Z(s, t, w.bit) : 0;
      };
      double z2 = z(A2, B2), z3 = z(A3, B3);
      if (w.z < 0) z2 = -z2, z3 = -z3;
      if (z2 > 5 && z3 > 5)
        return Fail(c, key, fmt::format("party {} can tell the secrets apart: bit {} of {} {}{}: {:.1f}, {:.1f}, {:.1f} sigma", w.q, w.bit, w.a, w.how == 0 ? "" : w.how == 1 ? "minus " : "xor ", w.b, std::abs(w.z), z2, z3));
    }
  }
  Cover(fmt::format("{}/{}/{}/{}", p.name, FieldName(f), op.name, owner));
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<Group> gs;
  for (auto& p : Protos()) {
    if (p.npc == 1) continue;
    const bool slow = p.cost >= 20;
    uint64_t q = slow ? 50 : 300;
    gs.push_back({std::string("pattern-") + p.name, q, q * 15, [p](Case& c) { ProgPattern(c, p); }});
    gs.push_back({std::string("trunc-") + p.name, slow ? 40UL : 150UL, slow ? 600UL : 3000UL, [p](Case& c) { TruncCase(c, p); }});
    gs.push_back({std::string("mask-") + p.name, slow ? 40UL : 120UL, slow ? 600UL : 3000UL, [p](Case& c) { MaskCase(c, p); }});
  }
  return Main(argc, argv, gs);
}
