// Value-level tests of the kernels above the protocol API: operands with a
// visibility, one call under test, and what it has to produce.
#pragma once
#include <cmath>
#include <set>
#include <algorithm>

#include "prog.h"

#include "libspu/kernel/hal/prot_wrapper.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/kernel/hal/type_cast.h"

namespace vh {
using Vec = std::vector<uint128_t>;

struct Operand {
  spu::Shape shape;
  Vec val;
  spu::DataType dt = spu::DT_I64;
  int vis = 2;  // 0 public, 1 private, 2 secret
  int owner = 0;
  bool as_bool = false;
  bool strided = false;  // hand over a view with gaps
};

// In pattern runs secrets enter without their public value choosing the form of
// the sharing (which it legitimately does in p2s).
inline bool& BlindSecrets() {
  static bool b = false;
  return b;
}
inline spu::Value Share(spu::SPUContext* ctx, const spu::Value& p, int vis, int owner, bool as_bool) {
  namespace hal = spu::kernel::hal;
  if (BlindSecrets() && vis == 2) {
    spu::Value v;
    if (p.dtype() == spu::DT_I1 && !as_bool && ctx->hasKernel("p2b")) {
      auto one = spu::mpc::make_p(ctx, 1, p.shape());
      v = spu::mpc::xor_bp(ctx, spu::mpc::p2b(ctx, one), spu::mpc::xor_pp(ctx, p, one));
    } else {
      v = hal::_v2s(ctx, hal::_p2v(ctx, p, owner));
      if (as_bool) v = hal::_prefer_b(ctx, v);
    }
    return v.setDtype(p.dtype(), true);
  }
  spu::Value v = p;
  if (vis == 1) v = hal::_p2v(ctx, p, owner).setDtype(p.dtype());
  if (vis == 2) {
    v = hal::seal(ctx, p);
    if (as_bool) v = hal::_prefer_b(ctx, v).setDtype(p.dtype());
  }
  return v;
}

inline spu::Value MakeOperand(spu::SPUContext* ctx, spu::FieldType f, const Operand& o) {
  if (o.strided && o.shape.size() >= 1 && o.shape[0] > 0) {
    // every second row of a twice larger array
    spu::Shape big = o.shape;
    big[0] *= 2;
    int64_t row = Numel(o.shape) / o.shape[0];
    Vec v(Numel(big), 0x5a5a5a5a);
    for (int64_t i = 0; i < Numel(o.shape); i++) v[(i / std::max<int64_t>(row, 1)) * 2 * row + i % std::max<int64_t>(row, 1)] = o.val[i];
    spu::Value b = Share(ctx, PubValue(f, big, v, o.dt), o.vis, o.owner, o.as_bool);
    spu::Index st(big.size(), 0), en(big.begin(), big.end());
    spu::Strides ss(big.size(), 1);
    ss[0] = 2;
    return spu::Value(b.data().slice(st, en, ss), o.dt);
  }
  return Share(ctx, PubValue(f, o.shape, o.val, o.dt), o.vis, o.owner, o.as_bool);
}

struct Expect {
  spu::Shape shape;
  Vec val;                               // exact ring values, or
  std::function<std::string(const Vec&)> check;  // a judgement ("" is fine)
  std::optional<spu::DataType> dt;
  Expect(spu::Shape s, Vec v) : shape(std::move(s)), val(std::move(v)) {}
  Expect(spu::Shape s, std::function<std::string(const Vec&)> f) : shape(std::move(s)), check(std::move(f)) {}
  Expect D(spu::DataType d) { dt = d; return *this; }
};

struct TStep {
  std::string name, text;
  std::vector<Operand> in;
  std::function<std::vector<spu::Value>(spu::SPUContext*, const std::vector<spu::Value>&)> run;
  std::vector<Expect> out;
  std::function<std::string(const std::vector<Vec>&)> joint;  // judges all results together
};

struct Env {
  Proto p;
  spu::FieldType f = spu::FM64;
  size_t fxp = 18;
  std::function<void(MpcOpt&)> tweak;
  size_t B() const { return FieldBits(f); }
  uint128_t M() const { return Mask(B()); }
  int128_t Sg(uint128_t v) const { return Signed(v, B()); }
  uint128_t Enc(double v) const { return static_cast<uint128_t>(static_cast<int128_t>(std::llround(v * std::ldexp(1.0, fxp)))) & M(); }
  double Dec(uint128_t v) const { return static_cast<double>(static_cast<long double>(Sg(v)) * std::ldexp(1.0L, -static_cast<int>(fxp))); }
};

inline std::string VisStr(const std::vector<Operand>& in) {
  std::string s;
  for (auto& o : in) s += o.vis == 0 ? 'p' : o.vis == 1 ? 'v' : o.as_bool ? 'b' : 's';
  return s;
}

inline MpcOpt EnvOpt(Case& c, const Env& e) {
  MpcOpt o;
  o.cfg.protocol = e.p.kind;
  o.cfg.field = e.f;
  o.cfg.fxp_fraction_bits = e.fxp;
  o.npc = e.p.npc;
  o.spdz2k = e.p.spdz2k;
  o.seed = c.seed;
  o.jitter = c.rng.u64();
  if (e.tweak) e.tweak(o);
  return o;
}

// Runs the steps over one simulated set of parties and judges each result.
inline void RunSteps(Case& c, const Env& e, const std::string& tag, const std::vector<TStep>& steps) {
  using spu::Value;
  std::string d = fmt::format("{} {} fxp {}:", e.p.name, FieldName(e.f), e.fxp);
  for (auto& s : steps) d += fmt::format(" [{} {} {}]", s.name, VisStr(s.in), s.text);
  Describe(c, d);
  struct Got { spu::Shape shape; spu::DataType dt; Vec val; };
  auto r = RunMpc(EnvOpt(c, e), [&](spu::SPUContext* ctx, size_t) {
    std::vector<std::vector<Got>> got;
    for (auto& s : steps) {
      try {
        std::vector<Value> in;
        for (auto& o : s.in) in.push_back(MakeOperand(ctx, e.f, o));
        std::vector<Got> g;
        for (auto& v : s.run(ctx, in)) {
          Value q = v.isPublic() ? v : spu::kernel::hal::reveal(ctx, v);
          if (q.shape() != v.shape()) SPU_THROW("reveal changes the shape {} to {}", v.shape(), q.shape());
          g.push_back({v.shape(), v.dtype(), ReadRing(q.data())});
        }
        got.push_back(std::move(g));
      } catch (const std::exception& ex) {
        SPU_THROW("in {} {} {}: {}", s.name, VisStr(s.in), s.text, ex.what());
      }
    }
    return got;
  });
  std::string key = fmt::format("{}:{}", tag, e.p.name);
  if (!CheckOk(c, r, steps.size() == 1 ? key + ":" + steps[0].name : key)) return;
  for (size_t q = 0; q < r.out.size(); q++) {
    for (size_t i = 0; i < steps.size(); i++) {
      auto& s = steps[i];
      auto& g = (*r.out[q])[i];
      auto k = key + ":" + s.name;
      if (g.size() != s.out.size()) {
        Fail(c, k + ":count", fmt::format("{} results, expected {}", g.size(), s.out.size()));
        return;
      }
      if (q == 0 && s.joint && g.size() == s.out.size()) {
        std::vector<Vec> all;
        bool shapes = true;
        for (size_t j = 0; j < g.size(); j++) all.push_back(g[j].val), shapes = shapes && g[j].shape == s.out[j].shape;
        auto m = shapes ? s.joint(all) : "";
        if (!m.empty()) {
          Fail(c, k, fmt::format("{} {}: {}", VisStr(s.in), s.text, m));
          return;
        }
      }
      for (size_t j = 0; j < g.size(); j++) {
        auto& x = s.out[j];
        if (g[j].shape != x.shape) {
          Fail(c, k + ":shape", fmt::format("{} {} result {} shape {} expected {}", VisStr(s.in), s.text, j, g[j].shape, x.shape));
          return;
        }
        if (x.dt && g[j].dt != *x.dt) {
          Fail(c, k + ":dtype", fmt::format("{} {} result {} type {} expected {}", VisStr(s.in), s.text, j, g[j].dt, *x.dt));
          return;
        }
        if (q == 0 && x.check) {
          auto m = x.check(g[j].val);
          if (!m.empty()) {
            Fail(c, k, fmt::format("{} {} result {}: {}", VisStr(s.in), s.text, j, m));
            return;
          }
        } else if (q == 0) {
          for (size_t t = 0; t < x.val.size(); t++) {
            if (g[j].val[t] != (x.val[t] & e.M())) {
              std::string ins;
              for (auto& o : s.in) ins += fmt::format(" {}", o.val.size() == x.val.size() ? Hex(o.val[t]) : "-");
              Fail(c, k, fmt::format("{} {} result {} element {}: got {} want {} operands{}", VisStr(s.in), s.text, j, t, Hex(g[j].val[t]), Hex(x.val[t] & e.M()), ins));
              return;
            }
          }
        } else if (g[j].val != (*r.out[0])[i][j].val) {
          Fail(c, k + ":parties-differ", fmt::format("{} {}", VisStr(s.in), s.text));
          return;
        }
        Count("result values judged", x.shape.numel());
      }
      if (q == 0) Cover(fmt::format("{}/{}/{}/{}/{}", e.p.name, s.name, FieldName(e.f), VisStr(s.in), s.in.empty() ? 0 : s.in[0].shape.size()));
    }
  }
}
// Runs the steps on secrets of the same shape but other values: which messages
// travel, and how long they are, must not change.
using Traffic = std::map<std::pair<int, int>, std::vector<std::pair<std::string, size_t>>>;
inline Traffic TrafficOf(vmon::World& w) {
  Traffic r;
  for (auto& m : w.TakeLog()) r[{m.src, m.dst}].push_back({m.tag, m.size});
  for (auto& [k, v] : r) std::sort(v.begin(), v.end());  // worker threads send in any order
  return r;
}
inline std::string TrafficDiff(const Traffic& a, const Traffic& b) {
  std::set<std::pair<int, int>> ks;
  for (auto& [k, v] : a) ks.insert(k);
  for (auto& [k, v] : b) ks.insert(k);
  for (auto& k : ks) {
    auto x = a.count(k) ? a.at(k) : std::vector<std::pair<std::string, size_t>>{}, y = b.count(k) ? b.at(k) : x;
    if (!b.count(k)) y.clear();
    if (x == y) continue;
    std::vector<std::pair<std::string, size_t>> p, q;
    std::set_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(p));
    std::set_difference(y.begin(), y.end(), x.begin(), x.end(), std::back_inserter(q));
    auto one = [](auto& v) { return v.empty() ? std::string("nothing") : fmt::format("'{}' of {} bytes", v[0].first, v[0].second); };
    return fmt::format("party {} to {}: {} messages, then {}; first difference: {} against {}", k.first, k.second, x.size(), y.size(), one(p), one(q));
  }
  return "";
}
inline void RunPattern(Case& c, const Env& e, const std::string& tag, const std::vector<TStep>& steps) {
  using spu::Value;
  std::string d = fmt::format("{} {} fxp {}:", e.p.name, FieldName(e.f), e.fxp);
  for (auto& s : steps) d += fmt::format(" [{} {} {}]", s.name, VisStr(s.in), s.text);
  Describe(c, d);
  std::string key = fmt::format("{}:{}", tag, e.p.name);
  if (steps.size() == 1) key += ":" + steps[0].name;
  auto opt = EnvOpt(c, e);
  struct Blind { Blind() { BlindSecrets() = true; } ~Blind() { BlindSecrets() = false; } } blind;
  Traffic first;
  for (int variant = 0; variant < 4; variant++) {
    auto st = steps;
    for (auto& s : st)
      for (auto& o : s.in) {
        if (o.dt == spu::DT_I1 && o.vis == 2) for (auto& x : o.val) x &= 1;
        if (o.vis == 0 || o.val.empty() || variant == 0) continue;
        auto less = [&](uint128_t a, uint128_t b) { auto x = e.Sg(a), y = e.Sg(b); return (x < 0 ? ~x : x) < (y < 0 ? ~y : y); };
        if (variant == 1) for (size_t i = o.val.size() - 1; i > 0; i--) std::swap(o.val[i], o.val[c.rng.below(i + 1)]);
        if (variant == 1 && o.val.size() == 1) o.val[0] = o.val[0] == 0 && o.dt == spu::DT_I1 ? 1 : 0;
        if (variant == 2) o.val = Vec(o.val.size(), *std::min_element(o.val.begin(), o.val.end(), less));
        if (variant == 3) o.val = Vec(o.val.size(), *std::max_element(o.val.begin(), o.val.end(), less));
      }
    opt.jitter = c.rng.u64();
    auto r = RunMpc(opt, [&](spu::SPUContext* ctx, size_t) {
      for (auto& s : st) {
        std::vector<Value> in;
        for (auto& o : s.in) in.push_back(MakeOperand(ctx, e.f, o));
        s.run(ctx, in);
      }
      return 0;
    });
    if (!CheckOk(c, r, key)) return;
    Count("messages compared", r.world->num_msgs());
    auto t = TrafficOf(*r.world);
    if (variant == 0) {
      first = t;
      continue;
    }
    auto m = TrafficDiff(first, t);
    if (!m.empty()) {
      Fail(c, key, fmt::format("the messages depend on the secrets (variant {}): {}", variant, m));
      return;
    }
  }
  for (auto& s : steps) Cover(fmt::format("{}/{}/{}/{}/{}", e.p.name, s.name, FieldName(e.f), VisStr(s.in), s.in.empty() ? 0 : s.in[0].shape.size()));
}
inline const std::vector<spu::DataType> kInts = {spu::DT_I1, spu::DT_I8, spu::DT_U8, spu::DT_I16, spu::DT_U16, spu::DT_I32, spu::DT_U32, spu::DT_I64, spu::DT_U64};
inline const std::vector<spu::DataType> kSgn = {spu::DT_I8, spu::DT_U8, spu::DT_I16, spu::DT_U16, spu::DT_I32, spu::DT_U32, spu::DT_I64, spu::DT_U64};

struct Gen {
  Case& c;
  Env& e;
  Rng& g;
  size_t B, cmp;  // ring width; |v| < 2^cmp for order-sensitive operands
  int64_t cap;
  Gen(Case& c_, Env& e_) : c(c_), e(e_), g(c_.rng) {
    B = e.B();
    cmp = B - 3;
    cap = e.p.cost >= 20 ? 8 : 40;
  }
  spu::Shape Sh(int rank = 3, bool empty = true) {
    auto s = RandShape(g, rank, cap, empty && !e.p.spdz2k);
    if (e.p.spdz2k && s.isScalar()) s = {1 + static_cast<int64_t>(g.below(4))};
    return s;
  }
  Operand Op(const spu::Shape& sh, spu::DataType dt, const std::function<uint128_t()>& v) {
    Operand o;
    o.shape = sh;
    o.dt = dt;
    for (int64_t i = 0; i < Numel(sh); i++) o.val.push_back(v() & e.M());
    int k = static_cast<int>(g.below(10));
    o.vis = k < 2 ? 0 : k < 4 ? 1 : 2;
    o.owner = static_cast<int>(g.below(e.p.npc));
    o.as_bool = o.vis == 2 && g.chance(25) && !(e.p.spdz2k && sh.size() == 0);
    o.strided = g.chance(25) && !(e.p.spdz2k && o.as_bool);
    return o;
  }
  uint128_t Full() { return RingVal(g, B); }
  uint128_t Small() {  // |v| < 2^cmp, dense near the edges of the range
    uint128_t v = RingVal(g, static_cast<size_t>(g.range(1, cmp)));
    return g.chance(50) ? v : uint128_t(0) - v;
  }
  uint128_t Near(uint128_t x) { return g.chance(35) ? x : g.chance(40) ? x + static_cast<uint128_t>(g.range(-3, 3)) : Small(); }
  int128_t Sg(uint128_t v) { return e.Sg(v); }
  spu::DataType Int() { return g.pick(kInts); }
  spu::DataType Flt() { return g.chance(70) ? spu::DT_F32 : spu::DT_F64; }
};

#define RUN2(a, b) [=](spu::SPUContext* ctx, const std::vector<spu::Value>& v) -> std::vector<spu::Value> { return {a, b}; }
#define RUN(expr) [=](spu::SPUContext* ctx, const std::vector<spu::Value>& v) -> std::vector<spu::Value> { return {expr}; }

inline Vec Map(const Vec& x, const std::function<uint128_t(uint128_t)>& f) {
  Vec r;
  for (auto a : x) r.push_back(f(a));
  return r;
}
inline Vec Map2(const Vec& x, const Vec& y, const std::function<uint128_t(uint128_t, uint128_t)>& f) {
  Vec r;
  for (size_t i = 0; i < x.size(); i++) r.push_back(f(x[i], y[i]));
  return r;
}
}  // namespace vh
