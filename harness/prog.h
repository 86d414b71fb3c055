// Random programs over the mpc layer: a plan of API calls, generated together
// with the plaintext meaning (over Z_2^k) of every intermediate value.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "mpc.h"

#include "libspu/core/value.h"
#include "libspu/mpc/ab_api.h"
#include "libspu/mpc/api.h"
#include "libspu/mpc/common/pv2k.h"

namespace vh {

struct Proto {
  const char* name;
  spu::ProtocolKind kind;
  size_t npc;
  bool spdz2k;
  int cost;  // rough relative cost of an operation
};
inline const std::vector<Proto>& Protos() {
  static const std::vector<Proto> p = {
      {"REF2K1", spu::REF2K, 1, false, 1},   {"SEMI2K2", spu::SEMI2K, 2, false, 2},
      {"SEMI2K3", spu::SEMI2K, 3, false, 3}, {"SEMI2K4", spu::SEMI2K, 4, false, 4},
      {"ABY3", spu::ABY3, 3, false, 2},      {"CHEETAH", spu::CHEETAH, 2, false, 4},
      {"SECURENN", spu::SECURENN, 3, false, 4}, {"SWIFT", spu::SWIFT, 3, false, 25},
      {"SPDZ2K", spu::SEMI2K, 2, true, 25}};
  return p;
}

// The fields a protocol supports.
inline std::vector<spu::FieldType> FieldsOf(const Proto& p) {
  if (p.spdz2k || p.kind == spu::SWIFT) return {spu::FM32, spu::FM64};
  return {spu::FM32, spu::FM64, spu::FM128};
}

using Model = std::vector<uint128_t>;

struct Node {
  spu::Shape shape;
  int vis;    // 0 public, 1 private, 2 secret
  int owner;  // of a private
  Model val;
};

struct Step {
  std::string text;
  std::string op;
  std::function<spu::Value(spu::SPUContext*, const std::vector<spu::Value>&)> run;
};

inline int64_t Numel(const spu::Shape& s) {
  int64_t n = 1;
  for (auto d : s) n *= d;
  return n;
}
inline std::vector<int64_t> Unravel(const spu::Shape& s, int64_t k) {
  std::vector<int64_t> i(s.size());
  for (int64_t d = static_cast<int64_t>(s.size()) - 1; d >= 0; d--) {
    i[d] = k % s[d];
    k /= s[d];
  }
  return i;
}
inline int64_t Ravel(const spu::Shape& s, const std::vector<int64_t>& i) {
  int64_t k = 0;
  for (size_t d = 0; d < s.size(); d++) k = k * s[d] + i[d];
  return k;
}

struct Plan {
  Proto proto;
  spu::FieldType field;
  size_t bits;
  std::vector<Node> nodes;
  std::vector<Step> steps;
  uint128_t M() const { return Mask(bits); }
  std::string text() const {
    std::string s = fmt::format("{} {} n={}", proto.name, FieldName(field), proto.npc);
    for (size_t i = 0; i < steps.size(); i++) s += fmt::format("; %{}={}", i, steps[i].text);
    return s;
  }
};

struct PlanOpt {
  int len = 6;
  int64_t max_numel = 12;
  bool allow_empty = true;
  bool reveal_heavy = false;
  spu::Shape base;  // of the inputs, if not random
  std::vector<std::string> only;  // restrict the operations
  int not_owner = -1;             // a party that never owns a private
};

inline spu::Value PubValue(spu::FieldType f, const spu::Shape& sh, const Model& v,
                           spu::DataType dt = spu::DT_I64) {
  return spu::Value(MakeRing(spu::makeType<spu::mpc::Pub2kTy>(f), sh, v), dt);
}

class PlanGen {
 public:
  PlanGen(Rng& g, const Proto& p, spu::FieldType f, PlanOpt o) : g_(g), o_(std::move(o)) {
    pl_.proto = p;
    pl_.field = f;
    pl_.bits = FieldBits(f);
  }
  Plan Make() {
    base_ = RandShape(g_, 3, o_.max_numel, o_.allow_empty && !pl_.proto.spdz2k);
    if (o_.base.size() != 0) base_ = o_.base;
    // SPDZ2K's boolean shares widen the last axis: scalars are not supported.
    if (pl_.proto.spdz2k && base_.size() == 0) base_ = {1};
    const int n_in = 2 + static_cast<int>(g_.below(3));
    for (int i = 0; i < n_in; i++) Input(base_);
    int guard = 0;
    while (static_cast<int>(pl_.steps.size()) < n_in * 2 + o_.len && guard++ < 400) Op();
    return std::move(pl_);
  }

  int Input(const spu::Shape& sh) {
    Model v(Numel(sh));
    // Often all elements are narrow: boolean shares track their width.
    size_t w = pl_.bits;
    if (g_.chance(15)) w = 1;
    else if (g_.chance(45)) w = 1 + g_.below(pl_.bits);
    if (g_.chance(10)) w = 8 * (1 + g_.below(pl_.bits / 8)) - g_.below(2);
    for (auto& x : v) x = RingVal(g_, pl_.bits) & Mask(w);
    auto f = pl_.field;
    int p = Push({sh, 0, -1, v}, "in" + Str(sh), "in",
                 [f, sh, v](spu::SPUContext*, const std::vector<spu::Value>&) { return PubValue(f, sh, v); });
    int k = static_cast<int>(g_.below(10));
    if (k < 6) return P2S(p);
    if (k < 8) return P2V(p);
    return p;
  }

 private:
  using Ctx = spu::SPUContext;
  using Vals = std::vector<spu::Value>;
  int Push(Node n, std::string text, std::string op,
           std::function<spu::Value(Ctx*, const Vals&)> run) {
    for (auto& x : n.val) x &= pl_.M();
    pl_.nodes.push_back(std::move(n));
    pl_.steps.push_back({std::move(text), std::move(op), std::move(run)});
    return static_cast<int>(pl_.nodes.size()) - 1;
  }
  bool Has(const char* op) const {
    if (!o_.only.empty()) {
      for (auto& s : o_.only)
        if (s == op) return true;
      return false;
    }
    return true;
  }
  int P2S(int i) {
    Node n = pl_.nodes[i];
    n.vis = 2;
    return Push(n, fmt::format("p2s %{}", i), "p2s",
                [i](Ctx* c, const Vals& v) { return spu::mpc::p2s(c, v[i]); });
  }
  int Owner() {
    int o = static_cast<int>(g_.below(pl_.proto.npc));
    return o == o_.not_owner ? (o + 1) % static_cast<int>(pl_.proto.npc) : o;
  }
  int P2V(int i) {
    Node n = pl_.nodes[i];
    n.vis = 1;
    int o = n.owner = Owner();
    return Push(n, fmt::format("p2v %{} owner={}", i, o), "p2v",
                [i, o](Ctx* c, const Vals& v) { return spu::mpc::p2v(c, v[i], o); });
  }
  bool IsProto(spu::ProtocolKind k) const { return pl_.proto.kind == k && !pl_.proto.spdz2k; }
  // SecureNN's comparison needs |x| < 2^(k-2); see its protocol notes.
  bool MsbOk(int i) const {
    if (!IsProto(spu::SECURENN)) return true;
    for (auto x : pl_.nodes[i].val) {
      auto s = Signed(x, pl_.bits);
      int128_t lim = int128_t(1) << (pl_.bits - 2);
      if (s >= lim || s < -lim) return false;
    }
    return true;
  }
  int Any(int vis = -1) {
    for (int t = 0; t < 60; t++) {
      // prefer recent values
      int n = static_cast<int>(pl_.nodes.size());
      int i = g_.chance(50) ? n - 1 - static_cast<int>(g_.below(std::min(n, 4))) : static_cast<int>(g_.below(n));
      if (vis < 0 || pl_.nodes[i].vis == vis) return i;
    }
    return -1;
  }
  int AnyWithShape(const spu::Shape& s) {
    std::vector<int> c;
    for (size_t i = 0; i < pl_.nodes.size(); i++)
      if (pl_.nodes[i].shape == s) c.push_back(static_cast<int>(i));
    return c[g_.below(c.size())];
  }
  template <typename F>
  Model Map(int i, F f) {
    Model r;
    for (auto x : pl_.nodes[i].val) r.push_back(f(x) & pl_.M());
    return r;
  }

  void Op() {
    if (g_.chance(20) && pl_.proto.kind != spu::REF2K) return AbOp();
    switch (g_.below(10)) {
      case 0: case 1: case 2: case 3: return Binary();
      case 4: case 5: return Unary();
      case 6: return ShiftOp();
      case 7: return ShapeOp();
      case 8: return g_.chance(40) ? Mmul() : g_.chance(50) ? Equal() : Perm();
      default: return g_.chance(50) ? Convert() : ShapeOp();
    }
  }

  static spu::Value ToA(Ctx* c, const spu::Value& v) {
    return v.storage_type().isa<spu::BShare>() ? spu::mpc::b2a(c, v) : v;
  }
  static spu::Value ToB(Ctx* c, const spu::Value& v) {
    return v.storage_type().isa<spu::BShare>() ? v : spu::mpc::a2b(c, v);
  }
  // The share-form level: the form of every operand is chosen here.
  void AbOp() {
    using namespace spu::mpc;
    int x = Any(2);
    if (x < 0) return;
    int y = AnyWithShape(pl_.nodes[x].shape);
    for (int t = 0; t < 8 && pl_.nodes[y].vis == 1; t++) y = AnyWithShape(pl_.nodes[x].shape);
    if (pl_.nodes[y].vis == 1) return;
    const Node nx = pl_.nodes[x], ny = pl_.nodes[y];
    const bool sec = ny.vis == 2;
    Node r{nx.shape, 2, -1, {}};
    const size_t bits = pl_.bits;
    auto bin = [&](auto f) {
      for (size_t k = 0; k < nx.val.size(); k++) r.val.push_back(f(nx.val[k], ny.val[k]));
    };
    auto push = [&](const std::string& nm, const std::string& extra, std::function<spu::Value(Ctx*, const Vals&)> f) {
      if (!Has(nm.substr(0, nm.find('*')).c_str())) return;
      Push(r, fmt::format("{} %{} %{} {}", nm, x, y, extra), nm, std::move(f));
    };
    switch (g_.below(13)) {
      case 0:
      case 1:
        bin([](uint128_t a, uint128_t b) { return a ^ b; });
        if (sec) return push("xor_bb", "", [=](Ctx* c, const Vals& v) { return xor_bb(c, ToB(c, v[x]), ToB(c, v[y])); });
        return push("xor_bp", "", [=](Ctx* c, const Vals& v) { return xor_bp(c, ToB(c, v[x]), v[y]); });
      case 2:
      case 3:
        bin([](uint128_t a, uint128_t b) { return a & b; });
        if (sec) return push("and_bb", "", [=](Ctx* c, const Vals& v) { return and_bb(c, ToB(c, v[x]), ToB(c, v[y])); });
        return push("and_bp", "", [=](Ctx* c, const Vals& v) { return and_bp(c, ToB(c, v[x]), v[y]); });
      case 4: {  // p2b of a (often narrow) public, xored or masked
        if (sec) return;
        const bool a = g_.chance(50);
        bin([a](uint128_t p, uint128_t q) { return a ? p & q : p ^ q; });
        return push(a ? "p2b/and_bb" : "p2b/xor_bb", "", [=](Ctx* c, const Vals& v) {
          auto b = p2b(c, v[y]);
          return a ? and_bb(c, b, ToB(c, v[x])) : xor_bb(c, ToB(c, v[x]), b);
        });
      }
      case 5: {
        const bool left = g_.chance(50);
        // one amount for all, or one per element
        const bool per = g_.chance(30) && Numel(nx.shape) > 0 && !pl_.proto.spdz2k;
        spu::Sizes sz;
        const uint64_t top = g_.chance(50) ? bits : std::min<uint64_t>(bits, 12);
        for (int64_t i = 0; i < (per ? Numel(nx.shape) : 1); i++) sz.push_back(static_cast<int64_t>(g_.below(top)));
        r.val.clear();
        for (size_t i = 0; i < nx.val.size(); i++) {
          const auto b = sz[per ? i : 0];
          r.val.push_back((left ? nx.val[i] << b : nx.val[i] >> b) & pl_.M());
        }
        return push(std::string(left ? "lshift_b" : "rshift_b") + (per ? "*" : ""), std::to_string(sz[0]), [=](Ctx* c, const Vals& v) {
          return left ? lshift_b(c, ToB(c, v[x]), sz) : rshift_b(c, ToB(c, v[x]), sz);
        });
      }
      case 6:
        bin([](uint128_t a, uint128_t b) { return a + b; });
        if (sec) return push("add_aa", "", [=](Ctx* c, const Vals& v) { return add_aa(c, ToA(c, v[x]), ToA(c, v[y])); });
        return push("add_ap", "", [=](Ctx* c, const Vals& v) { return add_ap(c, ToA(c, v[x]), v[y]); });
      case 7:
        bin([](uint128_t a, uint128_t b) { return a * b; });
        if (sec) return push("mul_aa", "", [=](Ctx* c, const Vals& v) { return mul_aa(c, ToA(c, v[x]), ToA(c, v[y])); });
        return push("mul_ap", "", [=](Ctx* c, const Vals& v) { return mul_ap(c, ToA(c, v[x]), v[y]); });
      case 8: {  // select by one secret bit
        if (!sec || pl_.proto.spdz2k || nx.val.empty()) return;
        const int64_t b = static_cast<int64_t>(g_.below(bits));
        bin([=](uint128_t p, uint128_t q) { return p * (~(q >> b) & 1); });
        return push("mul_a1b", fmt::format("bit {}", b), [=](Ctx* c, const Vals& v) {
          auto one = make_p(c, 1, v[y].shape());
          auto t = xor_bp(c, and_bp(c, rshift_b(c, ToB(c, v[y]), {b}), one), one);  // one valid bit
          if (!c->hasKernel("mul_a1b")) return mul_aa(c, ToA(c, v[x]), b2a(c, t));
          return mul_a1b(c, ToA(c, v[x]), t);
        });
      }
      case 9: {  // one bit to arithmetic
        const int64_t b = static_cast<int64_t>(g_.below(bits));
        r.val = Map(x, [=](uint128_t a) { return (a >> b) & 1; });
        return push("b2a of a bit", std::to_string(b), [=](Ctx* c, const Vals& v) {
          auto one = make_p(c, 1, v[x].shape());
          return b2a(c, and_bp(c, rshift_b(c, ToB(c, v[x]), {b}), one));
        });
      }
      case 10:
        r.val = nx.val;
        if (g_.chance(50)) return push("a2b", "", [=](Ctx* c, const Vals& v) { return a2b(c, ToA(c, v[x])); });
        return push("b2a", "", [=](Ctx* c, const Vals& v) { return b2a(c, ToB(c, v[x])); });
      case 11: {  // sums of full-width boolean shares
        if (!sec) return;
        bin([](uint128_t a, uint128_t b) { return a + b; });
        return push("add_bb", "", [=](Ctx* c, const Vals& v) {
          return add_bb(c, a2b(c, ToA(c, v[x])), a2b(c, ToA(c, v[y])));
        });
      }
      default: {  // bit interleaving of full-width boolean shares
        const size_t st = g_.below(Log2(bits));
        const bool de = g_.chance(50);
        r.val = Map(x, [=](uint128_t a) { return Interleave(a, bits, st, de); });
        return push(de ? "bitdeintl_b" : "bitintl_b", fmt::format("stride {}", st), [=](Ctx* c, const Vals& v) {
          auto b = a2b(c, ToA(c, v[x]));
          return de ? bitdeintl_b(c, b, st) : bitintl_b(c, b, st);
        });
      }
    }
  }
  static size_t Log2(size_t n) {
    size_t r = 0;
    while ((size_t(1) << r) < n) r++;
    return r;
  }
  // Groups of 2^stride bits: the low half of the groups to the even places.
  static uint128_t Interleave(uint128_t a, size_t bits, size_t stride, bool inverse) {
    const size_t g = size_t(1) << stride, n = bits / g;
    uint128_t o = 0;
    for (size_t i = 0; i < n; i++) {
      size_t j = n == 1 ? i : i < n / 2 ? 2 * i : 2 * (i - n / 2) + 1;  // group i goes to place j
      for (size_t k = 0; k < g; k++) {
        size_t from = i * g + k, to = j * g + k;
        if (inverse) std::swap(from, to);
        o |= ((a >> from) & 1) << to;
      }
    }
    return o;
  }

  void Binary() {
    static const std::vector<std::string> names = {"add", "mul", "and", "xor"};
    const std::string op = g_.pick(names);
    int x = Any();
    int y = AnyWithShape(pl_.nodes[x].shape);
    if (g_.chance(4)) y = x;
    const Node &a = pl_.nodes[x], &b = pl_.nodes[y];
    if (a.vis < b.vis) std::swap(x, y);
    const Node &nx = pl_.nodes[x], &ny = pl_.nodes[y];
    Node r{nx.shape, nx.vis, nx.owner, {}};
    if (nx.vis == 1 && ny.vis == 1 && nx.owner != ny.owner) r.vis = 2;
    for (size_t k = 0; k < nx.val.size(); k++) {
      uint128_t p = nx.val[k], q = ny.val[k];
      r.val.push_back(op == "add" ? p + q : op == "mul" ? p * q : op == "and" ? (p & q) : (p ^ q));
    }
    const char v[] = {'p', 'v', 's'};
    std::string nm = op + "_" + v[nx.vis] + v[ny.vis];
    if (!Has(nm.c_str())) return;
    using namespace spu::mpc;
    using Fn = spu::Value (*)(Ctx*, const spu::Value&, const spu::Value&);
    Fn f = nullptr;
#define T4(OP)                                                              \
  if (op == #OP) {                                                          \
    if (nx.vis == 2) f = ny.vis == 2 ? OP##_ss : ny.vis == 1 ? OP##_sv : OP##_sp; \
    else if (nx.vis == 1) f = ny.vis == 1 ? OP##_vv : OP##_vp;              \
    else f = OP##_pp;                                                       \
  }
    T4(add) T4(mul) T4(and) T4(xor)
#undef T4
    Push(r, fmt::format("{} %{} %{}", nm, x, y), nm,
         [f, x, y](Ctx* c, const Vals& vv) { return f(c, vv[x], vv[y]); });
  }

  void Unary() {
    static const std::vector<std::string> names = {"negate", "not", "msb", "square", "bitrev"};
    const std::string op = g_.pick(names);
    int x = Any();
    const Node& nx = pl_.nodes[x];
    Node r{nx.shape, nx.vis, nx.owner, {}};
    const char v[] = {'p', 'v', 's'};
    std::string nm = op + "_" + v[nx.vis];
    if (!Has(nm.c_str())) return;
    using namespace spu::mpc;
    if (op == "bitrev") {
      size_t s = g_.below(pl_.bits), e = s + g_.below(pl_.bits - s + 1);
      r.val = Map(x, [&](uint128_t a) {
        uint128_t o = 0;
        for (size_t i = 0; i < pl_.bits; i++) {
          if (!((a >> i) & 1)) continue;
          o |= uint128_t(1) << (i >= s && i < e ? s + e - 1 - i : i);
        }
        return o;
      });
      int vis = nx.vis;
      if (vis == 2 && pl_.proto.spdz2k) {
        Push(r, fmt::format("{} (%{} + 0) [{},{})", nm, x, s, e), nm, [=](Ctx* c, const Vals& vv) {
          return bitrev_s(c, add_sp(c, vv[x], make_p(c, 0, vv[x].shape())), s, e);
        });
        return;
      }
      Push(r, fmt::format("{} %{} [{},{})", nm, x, s, e), nm, [=](Ctx* c, const Vals& vv) {
        return vis == 2 ? bitrev_s(c, vv[x], s, e) : vis == 1 ? bitrev_v(c, vv[x], s, e) : bitrev_p(c, vv[x], s, e);
      });
      return;
    }
    if (op == "msb" && !MsbOk(x)) return;
    using Fn = spu::Value (*)(Ctx*, const spu::Value&);
    Fn f = nullptr;
#define T3(OP) \
  if (op == #OP) f = nx.vis == 2 ? OP##_s : nx.vis == 1 ? OP##_v : OP##_p;
    T3(negate) T3(not) T3(msb) T3(square)
#undef T3
    size_t bits = pl_.bits;
    r.val = Map(x, [&](uint128_t a) -> uint128_t {
      if (op == "negate") return -a;
      if (op == "not") return ~a;
      if (op == "msb") return (a >> (bits - 1)) & 1;
      return a * a;
    });
    Push(r, fmt::format("{} %{}", nm, x), nm, [f, x](Ctx* c, const Vals& vv) { return f(c, vv[x]); });
  }

  void ShiftOp() {
    static const std::vector<std::string> names = {"lshift", "rshift", "arshift"};
    const std::string op = g_.pick(names);
    int x = Any();
    const Node& nx = pl_.nodes[x];
    const char v[] = {'p', 'v', 's'};
    std::string nm = op + "_" + v[nx.vis];
    if (!Has(nm.c_str())) return;
    // one amount for all, or one per element
    std::vector<int64_t> amt;
    // (SPDZ2K declares per-element amounts unsupported)
    const bool per = g_.chance(30) && Numel(nx.shape) > 0 && !(pl_.proto.spdz2k && nx.vis == 2);
    auto one = [&]() -> int64_t {
      return g_.chance(20) ? 0 : g_.chance(20) ? pl_.bits - 1 : g_.chance(30) ? pl_.bits / 2 : g_.below(pl_.bits);
    };
    if (per) for (int64_t i = 0; i < Numel(nx.shape); i++) amt.push_back(one());
    else amt.push_back(one());
    Node r{nx.shape, nx.vis, nx.owner, {}};
    for (size_t k = 0; k < nx.val.size(); k++) {
      size_t b = amt[per ? k : 0];
      uint128_t a = nx.val[k];
      if (op == "lshift") a = a << b;
      else if (op == "rshift") a = a >> b;
      else a = static_cast<uint128_t>(Signed(a, pl_.bits) >> b);
      r.val.push_back(a & pl_.M());
    }
    using namespace spu::mpc;
    using Fn = spu::Value (*)(Ctx*, const spu::Value&, const spu::Sizes&);
    Fn f = nullptr;
#define T3(OP) \
  if (op == #OP) f = nx.vis == 2 ? OP##_s : nx.vis == 1 ? OP##_v : OP##_p;
    T3(lshift) T3(rshift) T3(arshift)
#undef T3
    spu::Sizes sz(amt.begin(), amt.end());
    // ABY3 keeps boolean shares in fewer bits than the ring and declares
    // arithmetic shifts of those outside its contract: widen first.
    // (SPDZ2K likewise requires full-width shares here and in bitrev)
    if (op == "arshift" && nx.vis == 2 && (pl_.proto.kind == spu::ABY3 || pl_.proto.spdz2k)) {
      Push(r, fmt::format("{} (%{} + 0) by {}", nm, x, Str(amt)), per ? nm + "*" : nm,
           [x, sz](Ctx* c, const Vals& vv) {
             auto z = make_p(c, 0, vv[x].shape());
             return arshift_s(c, add_sp(c, vv[x], z), sz);
           });
      return;
    }
    Push(r, fmt::format("{} %{} by {}", nm, x, Str(amt)), per ? nm + "*" : nm,
         [f, x, sz](Ctx* c, const Vals& vv) { return f(c, vv[x], sz); });
  }

  void Mmul() {
    // flatten two values and cut them into matrices
    int x = Any(), y = Any();
    int64_t nx = Numel(pl_.nodes[x].shape), ny = Numel(pl_.nodes[y].shape);
    if (nx == 0 || ny == 0) return;
    int64_t k = 1 + static_cast<int64_t>(g_.below(std::min(nx, ny)));
    int64_t m = 1 + static_cast<int64_t>(g_.below(nx / k)), n = 1 + static_cast<int64_t>(g_.below(ny / k));
    x = Cut(x, {m, k});
    y = Cut(y, {k, n});
    if (g_.chance(30)) x = Transposed(x, m, k), std::swap(m, k), y = -1;
    if (y < 0) {  // x is now (m,k) with m,k swapped: find a matching rhs
      int64_t n2 = 1 + static_cast<int64_t>(g_.below(3));
      int z = Input({k, n2});
      y = z;
      n = n2;
    }
    const Node *a = &pl_.nodes[x], *b = &pl_.nodes[y];
    const char v[] = {'p', 'v', 's'};
    Node r{{m, n}, std::max(a->vis, b->vis), a->vis == 1 ? a->owner : b->owner, Model(m * n, 0)};
    if (a->vis == 1 && b->vis == 1 && a->owner != b->owner) r.vis = 2;
    for (int64_t i = 0; i < m; i++)
      for (int64_t j = 0; j < n; j++)
        for (int64_t l = 0; l < k; l++) r.val[i * n + j] += a->val[i * k + l] * b->val[l * n + j];
    std::string nm = "mmul_";
    int va = a->vis, vb = b->vis;
    using namespace spu::mpc;
    using Fn = spu::Value (*)(Ctx*, const spu::Value&, const spu::Value&);
    Fn f = nullptr;
    bool swap = false;
    if (va >= vb) {
      nm = nm + v[va] + v[vb];
      if (va == 2) f = vb == 2 ? mmul_ss : vb == 1 ? mmul_sv : mmul_sp;
      else if (va == 1) f = vb == 1 ? mmul_vv : mmul_vp;
      else f = mmul_pp;
    } else {
      // the api only has the larger visibility on the left: (B^T A^T)^T
      swap = true;
      nm = nm + v[vb] + v[va];
      if (vb == 2) f = va == 1 ? mmul_sv : mmul_sp;
      else f = mmul_vp;
    }
    if (!Has(nm.c_str())) return;
    Push(r, fmt::format("{} %{} %{}{}", nm, x, y, swap ? " (via transposes)" : ""), nm,
         [f, x, y, swap](Ctx* c, const Vals& vv) {
           if (!swap) return f(c, vv[x], vv[y]);
           auto r = f(c, transpose(c, vv[y], {1, 0}), transpose(c, vv[x], {1, 0}));
           return transpose(c, r, {1, 0});
         });
  }
  int Cut(int x, spu::Shape to) {
    int64_t n = Numel(to), tot = Numel(pl_.nodes[x].shape);
    Node r = pl_.nodes[x];
    r.shape = {tot};
    x = Push(r, fmt::format("reshape %{} [{}]", x, tot), "reshape",
             [x, tot](Ctx* c, const Vals& vv) { return spu::mpc::reshape(c, vv[x], {tot}); });
    int64_t off = tot == n ? 0 : static_cast<int64_t>(g_.below(tot - n + 1));
    r = pl_.nodes[x];
    r.shape = to;
    r.val = Model(r.val.begin() + off, r.val.begin() + off + n);
    return Push(r, fmt::format("cut %{} [{},+{}) as {}", x, off, n, Str(to)), "slice",
                [x, off, n, to](Ctx* c, const Vals& vv) {
                  return spu::mpc::reshape(c, spu::mpc::extract_slice(c, vv[x], {off}, {off + n}, {1}), to);
                });
  }
  int Transposed(int x, int64_t m, int64_t k) {
    Node r = pl_.nodes[x];
    Node o = r;
    o.shape = {k, m};
    for (int64_t i = 0; i < m; i++)
      for (int64_t j = 0; j < k; j++) o.val[j * m + i] = r.val[i * k + j];
    return Push(o, fmt::format("transpose %{}", x), "transpose",
                [x](Ctx* c, const Vals& vv) { return spu::mpc::transpose(c, vv[x], {1, 0}); });
  }

  void Equal() {
    int x = Any(2);
    if (x < 0) return;
    int y = AnyWithShape(pl_.nodes[x].shape);
    if (g_.chance(70)) {
      // a value that agrees on about half of the positions, or nearly agrees
      Model w = pl_.nodes[x].val;
      for (auto& e : w)
        if (g_.chance(50)) e ^= uint128_t(1) << g_.below(pl_.bits);
      auto fl = pl_.field;
      const spu::Shape sw = pl_.nodes[x].shape;
      y = Push({sw, 0, -1, w}, "near" + Str(sw), "in",
               [fl, sw, w](Ctx*, const Vals&) { return PubValue(fl, sw, w); });
      if (g_.chance(60)) y = P2S(y);
    }
    if (pl_.nodes[y].vis == 1) return;
    const bool pub = pl_.nodes[y].vis == 0;
    const char* nm = pub ? "equal_sp" : "equal_ss";
    if (!Has(nm)) return;
    Node r{pl_.nodes[x].shape, 2, -1, {}};
    for (size_t k = 0; k < pl_.nodes[x].val.size(); k++) r.val.push_back(pl_.nodes[x].val[k] == pl_.nodes[y].val[k]);
    auto f = pl_.field;
    Model expect = r.val;
    spu::Shape sh = r.shape;
    Push(r, fmt::format("{} %{} %{}", nm, x, y), nm, [=](Ctx* c, const Vals& vv) {
      auto o = pub ? spu::mpc::equal_sp(c, vv[x], vv[y]) : spu::mpc::equal_ss(c, vv[x], vv[y]);
      if (o.has_value()) return o.value();
      return spu::mpc::p2s(c, PubValue(f, sh, expect));  // not offered by this protocol
    });
  }

  void Perm() {
    int x = Any();
    const Node nx = pl_.nodes[x];
    int64_t n = Numel(nx.shape);
    if (n == 0 || n > 4096 || nx.shape.size() != 1) return;
    std::vector<int64_t> p(n);
    for (int64_t i = 0; i < n; i++) p[i] = i;
    for (int64_t i = n - 1; i > 0; i--) std::swap(p[i], p[g_.below(i + 1)]);
    Model pm(p.begin(), p.end());
    auto f = pl_.field;
    const bool inv = g_.chance(50);
    Node r = nx;
    for (int64_t i = 0; i < n; i++) {
      if (inv) r.val[p[i]] = nx.val[i];
      else r.val[i] = nx.val[p[i]];
    }
    int kind = static_cast<int>(g_.below(3));
    std::string nm = std::string(inv ? "inv_perm_" : "perm_") + (nx.vis == 0 ? "pp" : nx.vis == 1 ? "vv" : kind == 0 ? "sp" : kind == 1 && inv ? "sv" : "ss");
    if (!Has(nm.c_str())) return;
    int owner = nx.vis == 1 ? nx.owner : static_cast<int>(g_.below(pl_.proto.npc));
    int vis = nx.vis;
    Model fallback = r.val;
    if (nm == "perm_ss" || nm == "inv_perm_ss") {
      // a random shared permutation: only perm followed by its inverse is known
      r.val = nx.val;
      Push(r, fmt::format("perm_ss/inv_perm_ss %{}", x), "perm_ss",
           [=](Ctx* c, const Vals& vv) {
             auto pi = spu::mpc::rand_perm_s(c, {n});
             if (!pi.has_value()) return vv[x];
             auto y = inv ? spu::mpc::inv_perm_ss(c, vv[x], pi.value()) : spu::mpc::perm_ss(c, vv[x], pi.value());
             if (!y.has_value()) return vv[x];
             auto z = inv ? spu::mpc::perm_ss(c, y.value(), pi.value()) : spu::mpc::inv_perm_ss(c, y.value(), pi.value());
             return z.has_value() ? z.value() : vv[x];
           });
      return;
    }
    spu::Shape sh = nx.shape;
    Push(r, fmt::format("{} %{} {}", nm, x, Str(p)), nm, [=](Ctx* c, const Vals& vv) -> spu::Value {
      auto pp = PubValue(f, {n}, pm);
      using namespace spu::mpc;
      if (vis == 0) return inv ? inv_perm_pp(c, vv[x], pp) : perm_pp(c, vv[x], pp);
      if (vis == 1) {
        auto pv = p2v(c, pp, owner);
        return inv ? inv_perm_vv(c, vv[x], pv) : perm_vv(c, vv[x], pv);
      }
      spu::OptionalAPI<spu::Value> o = spu::NotAvailable;
      if (nm == "perm_sp") o = perm_sp(c, vv[x], pp);
      else if (nm == "inv_perm_sp") o = inv_perm_sp(c, vv[x], pp);
      else o = inv_perm_sv(c, vv[x], p2v(c, pp, owner));
      if (o.has_value()) return o.value();
      return p2s(c, PubValue(f, sh, fallback));
    });
  }

  void Convert() {
    int x = Any();
    Node r = pl_.nodes[x];
    using namespace spu::mpc;
    if (r.vis == 0) {
      if (g_.chance(60)) P2S(x);
      else P2V(x);
    } else if (r.vis == 1) {
      if (g_.chance(70)) {
        r.vis = 2;
        Push(r, fmt::format("v2s %{}", x), "v2s", [x](Ctx* c, const Vals& vv) { return v2s(c, vv[x]); });
      } else {
        r.vis = 0;
        Push(r, fmt::format("v2p %{}", x), "v2p", [x](Ctx* c, const Vals& vv) { return v2p(c, vv[x]); });
      }
    } else {
      if (g_.chance(60)) {
        r.vis = 1;
        int o = r.owner = Owner();
        if (!Has("s2v")) return;
        Push(r, fmt::format("s2v %{} to {}", x, o), "s2v", [x, o](Ctx* c, const Vals& vv) { return s2v(c, vv[x], o); });
      } else {
        r.vis = 0;
        Push(r, fmt::format("s2p %{}", x), "s2p", [x](Ctx* c, const Vals& vv) { return s2p(c, vv[x]); });
      }
    }
  }

  void ShapeOp() {
    int x = Any();
    const Node nx = pl_.nodes[x];
    const auto& s = nx.shape;
    const int64_t n = Numel(s);
    const int r = static_cast<int>(s.size());
    using namespace spu::mpc;
    auto emit = [&](const spu::Shape& to, const std::function<int64_t(const std::vector<int64_t>&)>& src,
                    std::string text, std::string op, std::function<spu::Value(Ctx*, const Vals&)> run) {
      Node o{to, nx.vis, nx.owner, {}};
      for (int64_t k = 0; k < Numel(to); k++) o.val.push_back(nx.val[src(Unravel(to, k))]);
      Push(o, std::move(text), std::move(op), std::move(run));
    };
    switch (g_.below(7)) {
      case 0: {  // transpose
        if (r < 2) return;
        spu::Axes ax;
        for (int i = 0; i < r; i++) ax.push_back(i);
        for (int i = r - 1; i > 0; i--) std::swap(ax[i], ax[g_.below(i + 1)]);
        spu::Shape to;
        for (auto a : ax) to.push_back(s[a]);
        return emit(to, [&](const std::vector<int64_t>& i) {
              std::vector<int64_t> j(r);
              for (int d = 0; d < r; d++) j[ax[d]] = i[d];
              return Ravel(s, j);
            }, fmt::format("transpose %{} {}", x, Str(ax)), "transpose",
            [x, ax](Ctx* c, const Vals& vv) { return transpose(c, vv[x], ax); });
      }
      case 1: {  // reverse
        spu::Axes ax;
        for (int i = 0; i < r; i++) if (g_.chance(50)) ax.push_back(i);
        return emit(s, [&](std::vector<int64_t> i) {
              for (auto a : ax) i[a] = s[a] - 1 - i[a];
              return Ravel(s, i);
            }, fmt::format("reverse %{} {}", x, Str(ax)), "reverse",
            [x, ax](Ctx* c, const Vals& vv) { return reverse(c, vv[x], ax); });
      }
      case 2: {  // slice
        if (r == 0 || n == 0) return;
        spu::Index b, e;
        spu::Strides st;
        spu::Shape to;
        for (int d = 0; d < r; d++) {
          b.push_back(static_cast<int64_t>(g_.below(s[d])));
          e.push_back(b[d] + 1 + static_cast<int64_t>(g_.below(s[d] - b[d])));
          st.push_back(1 + static_cast<int64_t>(g_.below(3)));
          to.push_back((e[d] - b[d] + st[d] - 1) / st[d]);
        }
        return emit(to, [&](std::vector<int64_t> i) {
              for (int d = 0; d < r; d++) i[d] = b[d] + i[d] * st[d];
              return Ravel(s, i);
            }, fmt::format("slice %{} {}:{}:{}", x, Str(b), Str(e), Str(st)), "slice",
            [x, b, e, st](Ctx* c, const Vals& vv) { return extract_slice(c, vv[x], b, e, st); });
      }
      case 3: {  // reshape
        if (n == 0) return;
        spu::Shape to = Factor(n);
        return emit(to, [&](const std::vector<int64_t>& i) { return Ravel(to, i); },
                    fmt::format("reshape %{} {}", x, Str(to)), "reshape",
                    [x, to](Ctx* c, const Vals& vv) { return reshape(c, vv[x], to); });
      }
      case 4: {  // broadcast along new leading/trailing axes
        if (n * 3 > 64 || r > 3) return;
        spu::Shape to = s;
        spu::Axes ax;
        const bool lead = g_.chance(50);
        int64_t k = 1 + static_cast<int64_t>(g_.below(3));
        if (lead) to.insert(to.begin(), k);
        else to.push_back(k);
        for (int d = 0; d < r; d++) ax.push_back(d + (lead ? 1 : 0));
        return emit(to, [&](std::vector<int64_t> i) {
              std::vector<int64_t> j(r);
              for (int d = 0; d < r; d++) j[d] = i[d + (lead ? 1 : 0)];
              return Ravel(s, j);
            }, fmt::format("broadcast %{} to {} dims {}", x, Str(to), Str(ax)), "broadcast",
            [x, to, ax](Ctx* c, const Vals& vv) { return broadcast(c, vv[x], to, ax); });
      }
      case 5: {  // concatenate with itself or an equal-storage slice of itself
        if (r == 0 || n == 0 || n > 24) return;
        int64_t ax = static_cast<int64_t>(g_.below(r));
        spu::Shape to = s;
        to[ax] *= 2;
        return emit(to, [&](std::vector<int64_t> i) {
              i[ax] %= s[ax];
              return Ravel(s, i);
            }, fmt::format("concat %{} %{} axis {}", x, x, ax), "concatenate",
            [x, ax](Ctx* c, const Vals& vv) { return concatenate(c, {vv[x], vv[x]}, ax); });
      }
      default: {  // update a slice with a piece of itself
        if (r == 0 || n == 0) return;
        spu::Shape u;
        spu::Index from, at;
        for (int d = 0; d < r; d++) {
          u.push_back(1 + static_cast<int64_t>(g_.below(s[d])));
          from.push_back(static_cast<int64_t>(g_.below(s[d] - u[d] + 1)));
          at.push_back(static_cast<int64_t>(g_.below(s[d] - u[d] + 1)));
        }
        spu::Index to_idx;
        for (int d = 0; d < r; d++) to_idx.push_back(from[d] + u[d]);
        spu::Strides one(r, 1);
        return emit(s, [&](std::vector<int64_t> i) {
              bool in = true;
              for (int d = 0; d < r; d++) in = in && i[d] >= at[d] && i[d] < at[d] + u[d];
              if (in) for (int d = 0; d < r; d++) i[d] = from[d] + i[d] - at[d];
              return Ravel(s, i);
            }, fmt::format("update_slice %{} with its {}+{} at {}", x, Str(from), Str(u), Str(at)), "update_slice",
            [=](Ctx* c, const Vals& vv) {
              auto piece = extract_slice(c, vv[x], from, to_idx, one);
              return update_slice(c, vv[x], piece, at);
            });
      }
    }
  }
  spu::Shape Factor(int64_t n) {
    spu::Shape to;
    while (n > 1 && to.size() < 3) {
      std::vector<int64_t> d;
      for (int64_t i = 1; i <= n; i++) if (n % i == 0) d.push_back(i);
      int64_t f = g_.pick(d);
      to.push_back(f);
      n /= f;
    }
    if (n > 1 || to.size() == 0) to.push_back(n);
    return to;
  }

  Rng& g_;
  PlanOpt o_;
  Plan pl_;
  spu::Shape base_;
};

// Executes the plan at one party; returns every value.
inline std::vector<spu::Value> RunPlan(spu::SPUContext* ctx, const Plan& p) {
  std::vector<spu::Value> v;
  for (auto& s : p.steps) v.push_back(s.run(ctx, v));
  return v;
}
inline spu::Value Reveal(spu::SPUContext* ctx, const spu::Value& v) {
  if (v.isPublic()) return v;
  if (v.isPrivate()) return spu::mpc::v2p(ctx, v);
  return spu::mpc::s2p(ctx, v);
}
inline MpcOpt OptFor(const Plan& p, uint64_t seed) {
  MpcOpt o;
  o.cfg.protocol = p.proto.kind;
  o.cfg.field = p.field;
  o.npc = p.proto.npc;
  o.spdz2k = p.proto.spdz2k;
  o.seed = seed;
  return o;
}
}  // namespace vh
