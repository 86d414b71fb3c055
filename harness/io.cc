// C07: sharing inputs and reconstructing outputs.  C24: the colocated front end.
#include <cmath>
#include <numeric>

#include "tv.h"

#include "libspu/core/config.h"
#include "libspu/core/encoding.h"
#include "libspu/core/pt_buffer_view.h"
#include "libspu/core/type_util.h"
#include "libspu/device/io.h"
#include "libspu/kernel/hal/public_helper.h"
#include "libspu/mpc/factory.h"
using namespace spu;
using namespace vh;
using spu::device::ColocatedIo;
using spu::device::IoClient;
namespace hal = spu::kernel::hal;
using Bytes = std::vector<uint8_t>;

namespace {
struct Data {
  PtType t;
  Shape shape;
  Strides strides;
  Bytes buf;
  std::vector<int64_t> at;  // byte offset of each element in row-major order
  PtBufferView View() { return PtBufferView(static_cast<void*>(buf.data()), t, shape, strides); }
  PtBufferView CView() const { return PtBufferView(static_cast<const void*>(buf.data()), t, shape, strides); }
};

bool Flt(PtType t) { return t == PT_F16 || t == PT_F32 || t == PT_F64; }
bool Cplx(PtType t) { return t == PT_CF32 || t == PT_CF64; }

std::vector<PtType> TypesOf(FieldType f) {
  std::vector<PtType> t = {PT_I1, PT_I1, PT_I8, PT_U8, PT_I16, PT_U16, PT_I32, PT_U32, PT_F16, PT_F32, PT_F32, PT_F64, PT_CF32, PT_CF64};
  if (f != FM32) t.insert(t.end(), {PT_I64, PT_U64, PT_I64});
  return t;
}

void Layout_(Rng& g, Data& d, bool plain) {
  const size_t r = d.shape.size(), w = SizeOf(d.t);
  d.strides.assign(r, 0);
  std::vector<size_t> order(r);
  std::iota(order.rbegin(), order.rend(), 0);
  const int kind = plain ? 0 : static_cast<int>(g.below(3));
  if (kind == 2) for (size_t i = r; i > 1; i--) std::swap(order[i - 1], order[g.below(i)]);
  int64_t span = 1;
  for (auto k : order) {
    int64_t s = span + (kind ? g.range(0, 2) : 0);
    d.strides[k] = s;
    span += s * std::max<int64_t>(d.shape[k] - 1, 0);
  }
  if (kind == 0) d.strides = makeCompactStrides(d.shape);
  d.buf.assign(static_cast<size_t>(std::max<int64_t>(span, 1)) * w, 0x5a);
  d.at.clear();
  for (int64_t k = 0; k < Numel(d.shape); k++) {
    auto i = Unravel(d.shape, k);
    int64_t o = 0;
    for (size_t q = 0; q < r; q++) o += i[q] * d.strides[q];
    d.at.push_back(o * static_cast<int64_t>(w));
  }
}

void Fill(Rng& g, const Data& d, uint8_t* p, size_t fxp, FieldType f) {
  const size_t w = SizeOf(d.t);
  const double top = std::ldexp(1.0, static_cast<int>(std::min<size_t>(FieldBits(f) - 3 - fxp, 50)));
  auto real = [&] { return g.chance(20) ? static_cast<double>(g.range(-3, 3)) : g.chance(10) ? (g.chance(50) ? 2 : -2) * top : g.uniform(-1, 1) * std::pow(top, g.uniform(0, 1)); };
  switch (d.t) {
    case PT_I1: p[0] = static_cast<uint8_t>(g.below(2)); return;
    case PT_F16: { half_float::half h(static_cast<float>(std::max(-6e4, std::min(6e4, real())))); std::memcpy(p, &h, 2); return; }
    case PT_F32: { auto v = static_cast<float>(real()); std::memcpy(p, &v, 4); return; }
    case PT_F64: { auto v = real(); std::memcpy(p, &v, 8); return; }
    case PT_CF32: { float v[2] = {static_cast<float>(real()), static_cast<float>(real())}; std::memcpy(p, v, 8); return; }
    case PT_CF64: { double v[2] = {real(), real()}; std::memcpy(p, v, 16); return; }
    default: {
      uint128_t v = RingVal(g, w * 8);
      std::memcpy(p, &v, w);
    }
  }
}

Data MakeData(Rng& g, FieldType f, size_t fxp, bool cplx = true) {
  Data d;
  auto ts = TypesOf(f);
  do d.t = g.pick(ts); while (!cplx && Cplx(d.t));
  d.shape = RandShape(g, 3, 40);
  Layout_(g, d, g.chance(40));
  for (auto o : d.at) Fill(g, d, d.buf.data() + o, fxp, f);
  return d;
}

struct Enc {  // what the encoding makes of the data: one or two planes
  std::vector<Vec> ring;
  DataType dt;
  Bytes out;  // decoded again, compact
  PtType ot;
};
Enc Model_(const Data& d, FieldType f, size_t fxp) {
  Enc e;
  if (Cplx(d.t)) {
    auto s = d.t == PT_CF32 ? PT_F32 : PT_F64;
    const size_t w = SizeOf(s), n = d.at.size();
    e.ot = d.t;
    e.out.resize(n * 2 * w);
    for (int part = 0; part < 2; part++) {
      Data q{s, d.shape, makeCompactStrides(d.shape), Bytes(std::max<size_t>(n, 1) * w), {}};
      for (size_t k = 0; k < n; k++) std::memcpy(q.buf.data() + k * w, d.buf.data() + d.at[k] + part * w, w), q.at.push_back(k * w);
      auto m = Model_(q, f, fxp);
      e.ring.push_back(m.ring[0]);
      e.dt = m.dt;
      for (size_t k = 0; k < n; k++) std::memcpy(e.out.data() + (2 * k + part) * w, m.out.data() + k * w, w);
    }
    return e;
  }
  auto r = encodeToRing(d.CView(), f, fxp, &e.dt);
  e.ring.push_back(ReadRing(r));
  e.ot = getDecodeType(e.dt);
  e.out.resize(std::max<size_t>(d.at.size(), 1) * SizeOf(e.ot));
  PtBufferView o(static_cast<void*>(e.out.data()), e.ot, d.shape, makeCompactStrides(d.shape));
  decodeFromRing(r, e.dt, fxp, &o);
  e.out.resize(d.at.size() * SizeOf(e.ot));
  return e;
}

// combineShares into a random layout, everything outside untouched
std::string Combine(Rng& g, IoClient& io, const std::vector<Value>& sh, const Shape& shape, const Enc& e) {
  if (io.getPtType(sh) != e.ot) return fmt::format("type {} expected {}", io.getPtType(sh), e.ot);
  Data o;
  o.t = e.ot, o.shape = shape;
  Layout_(g, o, false);
  Bytes before = o.buf;
  auto v = o.View();
  io.combineShares(sh, &v);
  const size_t w = SizeOf(e.ot);
  std::vector<bool> in(o.buf.size(), false);
  for (size_t k = 0; k < o.at.size(); k++) {
    if (std::memcmp(o.buf.data() + o.at[k], e.out.data() + k * w, w) != 0) {
      uint128_t a = 0, b = 0;
      std::memcpy(&a, o.buf.data() + o.at[k], w), std::memcpy(&b, e.out.data() + k * w, w);
      return fmt::format("element {} of {}: {} expected {}", k, o.at.size(), Hex(a), Hex(b));
    }
    for (size_t q = 0; q < w; q++) in[o.at[k] + q] = true;
  }
  for (size_t q = 0; q < in.size(); q++) if (!in[q] && o.buf[q] != before[q]) return fmt::format("byte {} outside the result was written", q);
  return "";
}

RuntimeConfig Cfg(const Proto& p, FieldType f, size_t fxp, bool colo) {
  RuntimeConfig cfg;
  cfg.protocol = p.kind;
  cfg.field = f;
  cfg.fxp_fraction_bits = fxp;
  cfg.experimental_enable_colocated_optimization = colo;
  return cfg;
}
size_t PickFxp(Rng& g, FieldType f) { return f == FM32 ? g.range(4, 8) : f == FM64 ? g.range(8, 20) : g.range(12, 44); }

void ShareCase(Case& c, const Proto& p) {
  auto& g = c.rng;
  auto f = g.pick(FieldsOf(p));
  const size_t fxp = PickFxp(g, f);
  const bool colo = g.chance(50);
  const size_t n = p.npc == 1 ? static_cast<size_t>(g.range(1, 4)) : p.npc;
  auto cfg = Cfg(p, f, fxp, colo);
  IoClient io(n, cfg);
  Data d = MakeData(g, f, fxp);
  const bool pub = g.chance(20);
  auto vis = pub ? VIS_PUBLIC : VIS_SECRET;
  int owner = g.chance(40) ? -1 : static_cast<int>(g.below(n));
  Describe(c, fmt::format("{} {} fxp {} parties {} {} {} {} strides {} owner {} colocated {}", p.name, FieldName(f), fxp, n, d.t, vis, d.shape, fmt::join(d.strides, ","), owner, colo));
  auto key = fmt::format("share:{}:{}", p.name, pub ? "public" : "secret");
  Enc e = Model_(d, f, fxp);
  const Bytes orig = d.buf;
  std::vector<Value> sh;
  try {
    sh = io.makeShares(d.CView(), vis, owner);
  } catch (const std::exception& x) {
    Fail(c, key + ":exception", x.what());
    return;
  }
  if (d.buf != orig) { Fail(c, key + ":input", "input changed"); return; }
  if (sh.size() != n) { Fail(c, key + ":count", fmt::format("{} shares", sh.size())); return; }
  const size_t want = io.getShareSize(d.CView(), vis, owner);
  const bool priv = !pub && colo && owner >= 0 && p.kind != REF2K && !(d.t == PT_I1 && p.kind == ABY3);
  for (size_t i = 0; i < n; i++) {
    auto& v = sh[i];
    size_t bytes = v.data().numel() * v.data().elsize() + (v.imag() ? v.imag()->numel() * v.imag()->elsize() : 0);
    std::string bad;
    if (v.shape() != d.shape) bad = fmt::format("shape {}", v.shape());
    else if (v.dtype() != e.dt) bad = fmt::format("type {} expected {}", v.dtype(), e.dt);
    else if (v.isComplex() != Cplx(d.t)) bad = "complex";
    else if (bytes != want) bad = fmt::format("{} bytes, announced {}", bytes, want);
    else if (pub ? !v.isPublic() : priv ? !v.isPrivate() : !v.isSecret()) bad = fmt::format("visibility {}", v.vtype());
    else if (v.storage_type() != sh[0].storage_type()) bad = "different share types";
    if (bad.empty() && priv && v.storage_type().as<Private>()->owner() != owner) bad = "owner";
    if (bad.empty() && priv && static_cast<int>(i) != owner)
      for (auto x : ReadRing(v.data())) if (x != 0) bad = "data of a private value at another party";
    if (!bad.empty()) { Fail(c, key + ":form", fmt::format("share {}: {}", i, bad)); return; }
  }
  auto m = Combine(g, io, sh, d.shape, e);
  Count("elements reconstructed", d.at.size());
  if (!m.empty()) { Fail(c, key, m); return; }
  Cover(fmt::format("{} {} {} {} {} {}", p.name, FieldName(f), d.t, vis, owner >= 0 ? (colo ? "colo" : "owned") : "-", d.shape.size()));
  if (p.npc == 1 && n != 1) return;
  if (Cplx(d.t) && p.kind == SWIFT) return;

  // through the engine: reveal, transform, hand the results back
  const int what = static_cast<int>(g.below(5));
  MpcOpt o;
  o.cfg = cfg, o.npc = n, o.seed = c.seed, o.jitter = g.u64();
  struct Got { std::vector<Vec> rev; std::vector<Value> out; };
  auto r = RunMpc(o, [&](SPUContext* ctx, size_t rank) {
    Got q;
    Value v = sh[rank];
    std::vector<Value> planes = {Value(v.data(), v.dtype())};
    if (v.isComplex()) planes.push_back(Value(*v.imag(), v.dtype()));
    for (auto& x : planes) {
      q.rev.push_back(ReadRing((x.isPublic() ? x : hal::reveal(ctx, x)).data()));
      Value y = x;
      if (what == 1 && !y.isPublic()) y = y.isPrivate() ? hal::seal(ctx, y) : y;
      if (what == 2 && !y.isPublic() && y.numel() > 0) {  // a boolean form
        if (y.isPrivate()) y = hal::seal(ctx, y);
        y = hal::_prefer_b(ctx, y).setDtype(x.dtype());
      }
      if (what == 3) {  // a strided view
        Axes ax;
        for (int64_t k = static_cast<int64_t>(y.shape().size()) - 1; k >= 0; k--) ax.push_back(k);
        y = Value(y.data().transpose(ax), y.dtype());
      }
      if (what == 4 && !y.isPublic() && y.numel() > 0) {  // a narrow boolean value
        if (y.isPrivate()) y = hal::seal(ctx, y);
        y = hal::_and(ctx, y, hal::_constant(ctx, 1, y.shape())).setDtype(DT_I1);
      }
      q.out.push_back(y);
    }
    return q;
  });
  if (!CheckOk(c, r, key + ":engine")) return;
  for (size_t i = 0; i < n; i++) for (size_t k = 0; k < e.ring.size(); k++) {
    Count("elements revealed", e.ring[k].size());
    if ((*r.out[i]).rev[k] != e.ring[k]) { Fail(c, key + ":reveal", fmt::format("party {} plane {}", i, k)); return; }
  }
  std::vector<Value> back;
  for (size_t i = 0; i < n; i++) {
    auto& q = (*r.out[i]).out;
    back.push_back(q.size() == 2 ? Value(q[0].data(), *&q[1].data(), q[0].dtype()) : q[0]);
  }
  if (what == 4 && !pub) {
    if (Cplx(d.t)) return;
    Enc b;
    b.dt = DT_I1, b.ot = PT_I1;
    for (auto x : e.ring[0]) b.out.push_back(static_cast<uint8_t>(x & 1));
    m = d.at.empty() ? "" : Combine(g, io, back, d.shape, b);
  } else if (what == 3) {
    Enc t = e;
    Shape ts(d.shape.rbegin(), d.shape.rend());
    const size_t w = SizeOf(e.ot);
    for (int64_t k = 0; k < Numel(ts); k++) {
      auto i = Unravel(ts, k);
      std::reverse(i.begin(), i.end());
      std::memcpy(t.out.data() + k * w, e.out.data() + Ravel(d.shape, i) * w, w);
    }
    m = Combine(g, io, back, ts, t);
  } else {
    m = Combine(g, io, back, d.shape, e);
  }
  Count("elements reconstructed", d.at.size());
  if (!m.empty()) Fail(c, fmt::format("{}:result:{}", key, what), m);
}

// ---- the shares a party holds are uniform whatever the input ---------------
// every ring component of every share of party i, one per element
std::vector<Vec> Components(const Value& v, size_t ringw) {
  const auto& a = v.data();
  const size_t w = a.elsize();
  std::vector<Vec> r(w / ringw);
  Shape s = a.shape();
  for (int64_t k = 0; k < a.numel(); k++) {
    const auto* p = static_cast<const uint8_t*>(static_cast<const void*>(&a.at<uint8_t>(Index(Unravel(s, k)))));
    for (size_t q = 0; q < r.size(); q++) {
      uint128_t x = 0;
      std::memcpy(&x, p + q * ringw, ringw);
      r[q].push_back(x);
    }
  }
  return r;
}

void UniformCase(Case& c, const Proto& p) {
  auto& g = c.rng;
  auto f = g.pick(FieldsOf(p));
  const int64_t K = 2000;
  const bool bits = p.kind == ABY3 && g.chance(30);
  auto cfg = Cfg(p, f, 8, false);
  IoClient io(p.npc, cfg);
  Bytes buf(K * 4);
  int32_t x = g.pick(std::vector<int32_t>{0, 1, -1, INT32_MAX, INT32_MIN, 12345});
  for (int64_t k = 0; k < K; k++) {
    if (bits) buf[k] = static_cast<uint8_t>(x & 1);
    else std::memcpy(buf.data() + 4 * k, &x, 4);
  }
  PtBufferView v(static_cast<const void*>(buf.data()), bits ? PT_I1 : PT_I32, Shape{K}, Strides{1});
  Describe(c, fmt::format("{} {} {} copies of {} {}", p.name, FieldName(f), K, x, bits ? "bits" : ""));
  auto sh = io.makeShares(v, VIS_SECRET), again = io.makeShares(v, VIS_SECRET);
  const size_t B = bits ? 1 : FieldBits(f), w = bits ? 1 : B / 8;
  auto key = fmt::format("uniform:{}{}", p.name, bits ? ":bits" : "");
  auto judge = [&](const Vec& s, const std::string& what) {
    for (size_t b = 0; b < B; b++) {
      int64_t ones = 0;
      for (auto q : s) ones += static_cast<int64_t>((q >> b) & 1);
      if (std::abs(ones - K / 2) > 7 * std::sqrt(K) / 2) {
        Fail(c, key, fmt::format("{} of a constant: bit {} is set in {} of {}", what, b, ones, K));
        return false;
      }
    }
    // successive elements are independent too
    for (size_t b = 0; b < B; b++) {
      int64_t ones = 0;
      for (int64_t q = 1; q < K; q++) ones += static_cast<int64_t>(((s[q] ^ s[q - 1]) >> b) & 1);
      if (std::abs(ones - K / 2) > 7 * std::sqrt(K) / 2) {
        Fail(c, key, fmt::format("{} of a constant: neighbouring elements differ in bit {} {} of {} times", what, b, ones, K));
        return false;
      }
    }
    Count("share streams judged");
    return true;
  };
  std::vector<std::vector<Vec>> comp;
  for (auto& s : sh) comp.push_back(Components(s, w));
  const size_t parties = p.kind == SECURENN ? 2 : p.npc;
  for (size_t i = 0; i < parties; i++) {
    auto& q = comp[i];
    auto z = Components(again[i], w);
    for (size_t a = 0; a < q.size(); a++) {
      if (!judge(q[a], fmt::format("share {}.{}", i, a))) return;
      Vec d(K);
      for (int64_t k = 0; k < K; k++) d[k] = q[a][k] ^ z[a][k];
      if (!judge(d, fmt::format("change of share {}.{} between two sharings", i, a))) return;
      for (size_t b = 0; b < a; b++) {  // a party's components are jointly uniform
        Vec add(K), sub(K), xr(K);
        for (int64_t k = 0; k < K; k++) add[k] = q[a][k] + q[b][k], sub[k] = q[a][k] - q[b][k], xr[k] = q[a][k] ^ q[b][k];
        for (auto& [s, nm] : {std::pair{&add, "+"}, {&sub, "-"}, {&xr, "^"}})
          if (!judge(*s, fmt::format("share {}.{} {} {}.{}", i, a, nm, i, b))) return;
      }
    }
  }
  if (p.kind == SEMI2K)  // any coalition short of all of them
    for (size_t skip = 0; skip < p.npc; skip++) {
      Vec s(K, 0);
      for (size_t i = 0; i < p.npc; i++) if (i != skip) for (int64_t k = 0; k < K; k++) s[k] += comp[i][0][k];
      if (!judge(s, fmt::format("joint share of all but {}", skip))) return;
    }
  if (p.kind == ABY3) {  // replication
    for (size_t i = 0; i < 3; i++) if (comp[i][1] != comp[(i + 1) % 3][0]) { Fail(c, key + ":replication", fmt::format("party {}", i)); return; }
  }
  if (p.kind == SWIFT) {
    bool ok = comp[0][0] == comp[1][0] && comp[0][1] == comp[2][0] && comp[1][1] == comp[2][1] && comp[1][2] == comp[2][2];
    for (int64_t k = 0; k < K; k++) ok = ok && comp[0][2][k] == ((comp[1][1][k] + comp[1][2][k]) & Mask(B));
    if (!ok) Fail(c, key + ":replication", "shares of different parties disagree");
  }
  Cover(fmt::format("{} {} {} {}", p.name, FieldName(f), x, bits));
}

// ---- C24 ----------------------------------------------------------------------
void ColoCase(Case& c, const Proto& p) {
  auto& g = c.rng;
  auto f = g.pick(FieldsOf(p));
  const size_t fxp = PickFxp(g, f);
  const bool colo = g.chance(50), dup = p.npc > 1 && g.chance(15);
  struct Set { std::string name; int owner; Visibility vis; Data d; Enc e; };
  const int rounds = static_cast<int>(g.range(1, 3));
  std::vector<std::vector<Set>> plan(rounds);
  std::map<std::string, Set> last;
  std::string text;
  for (int r = 0; r < rounds; r++) {
    std::map<std::string, int> used;
    for (int k = static_cast<int>(g.below(5)); k > 0; k--) {
      Set s;
      s.name = fmt::format("v{}{}", g.below(6), g.chance(20) ? std::string("\0 x", 3) : "");
      if (used.count(s.name)) continue;
      s.owner = static_cast<int>(g.below(p.npc));
      used[s.name] = s.owner;
      s.vis = g.chance(35) ? VIS_PUBLIC : VIS_SECRET;
      s.d = MakeData(g, f, fxp, false);
      s.e = Model_(s.d, f, fxp);
      text += fmt::format(" r{}:{}={}{}@{}", r, s.name[1], s.d.t, s.d.shape, s.owner);
      plan[r].push_back(s);
    }
  }
  const int dup_round = dup ? rounds - 1 : -1;
  if (dup) {
    Set s;
    s.name = "dup", s.vis = VIS_SECRET, s.owner = 0;
    s.d = MakeData(g, f, fxp, false), s.e = Model_(s.d, f, fxp);
    plan[dup_round].push_back(s);
    s.owner = 1;
    plan[dup_round].push_back(s);
    text += " duplicate";
  }
  Describe(c, fmt::format("{} {} fxp {} colocated {}{}", p.name, FieldName(f), fxp, colo, text));
  auto key = fmt::format("colo:{}", p.name);
  MpcOpt o;
  o.cfg = Cfg(p, f, fxp, colo), o.npc = p.npc, o.seed = c.seed, o.jitter = g.u64(), o.record_payload = true;
  std::mutex mu;
  std::string bad;
  auto fail = [&](const std::string& m) {
    std::lock_guard<std::mutex> l(mu);
    if (bad.empty()) bad = m;
  };
  struct Got { bool threw = false; int64_t n = 0; };
  auto r = RunMpc(o, [&](SPUContext* ctx, size_t rank) {
    Got got;
    ColocatedIo io(ctx);
    if (io.getRank() != rank || io.getWorldSize() != p.npc) fail("rank or world size");
    std::map<std::string, const Set*> now;
    for (int q = 0; q < rounds; q++) {
      {
        std::vector<Data> tmp;  // the front end must keep its own copy
        tmp.reserve(plan[q].size());
        for (auto& s : plan[q]) {
          if (s.owner != static_cast<int>(rank)) continue;
          tmp.push_back(s.d);
          io.hostSetVar(s.name, tmp.back().CView(), s.vis);
          if (!Cplx(s.d.t)) {
            auto a = io.hostGetVar(s.name);
            if (a.shape() != s.d.shape) fail("shape of an unsynced variable");
            else if (a.eltype().as<PtTy>()->pt_type() != s.d.t) fail("type of an unsynced variable");
            else for (size_t k = 0; k < s.d.at.size(); k++)
              if (std::memcmp(&a.at<uint8_t>(Index(Unravel(s.d.shape, k))), s.d.buf.data() + s.d.at[k], SizeOf(s.d.t)) != 0) { fail("unsynced variable " + s.name + " reads back differently"); break; }
          }
        }
        for (auto& t : tmp) std::fill(t.buf.begin(), t.buf.end(), 0xee);
      }
      try {
        io.sync();
      } catch (const std::exception& x) {
        if (q != dup_round || std::string(x.what()).find("duplicated") == std::string::npos) throw;
        got.threw = true;
        return got;
      }
      for (auto& s : plan[q]) now[s.name] = &s;
      for (auto& [name, s] : now) {
        if (!io.deviceHasVar(name)) { fail("variable " + name + " missing at party " + std::to_string(rank)); return got; }
        Value v = io.deviceGetVar(name);
        if (v.shape() != s->d.shape || v.dtype() != s->e.dt || v.isComplex() != Cplx(s->d.t)) { fail(fmt::format("{} is {} of shape {}", name, v.dtype(), v.shape())); return got; }
        if (v.isPublic() != (s->vis == VIS_PUBLIC)) fail(fmt::format("{} set as {} became {}", name, s->vis, v.vtype()));
        if (v.isPrivate() && (!colo || v.storage_type().as<Private>()->owner() != s->owner)) fail(name + " private to the wrong party");
        std::vector<Value> planes = {Value(v.data(), v.dtype())};
        if (v.isComplex()) planes.push_back(Value(*v.imag(), v.dtype()));
        for (size_t k = 0; k < planes.size(); k++) {
          Value w = planes[k].isPublic() ? planes[k] : hal::reveal(ctx, planes[k]);
          got.n += static_cast<int64_t>(s->e.ring[k].size());
          if (ReadRing(w.data()) != s->e.ring[k]) { fail(fmt::format("variable {} of party {} is wrong at party {} in round {}", name, s->owner, rank, q)); return got; }
        }
        if (v.isPublic() && !v.isComplex()) {
          auto a = io.hostGetVar(name);
          if (a.shape() != s->d.shape || a.eltype().as<PtTy>()->pt_type() != s->e.ot) fail("host copy of " + name);
          else for (size_t k = 0; k < s->d.at.size(); k++)
            if (std::memcmp(&a.at<uint8_t>(Index(Unravel(s->d.shape, k))), s->e.out.data() + k * SizeOf(s->e.ot), SizeOf(s->e.ot)) != 0) { fail("host copy of public " + name); break; }
        }
      }
      bool threw = false;
      try { io.deviceGetVar("no such variable"); } catch (const std::exception&) { threw = true; }
      if (!threw || io.deviceHasVar("no such variable")) fail("a variable nobody set");
    }
    auto& st = io.deviceSymbols();
    for (auto& [name, s] : now) {
      Value v = io.deviceGetVar(name);
      io.deviceSetVar(name + "'", v);
      if (!st.hasVar(name + "'") || st.getVar(name + "'").data().buf() != v.data().buf()) fail("deviceSetVar");
      st.delVar(name);
      if (st.hasVar(name) || !st.hasVar(name + "'")) fail("delVar");
    }
    st.clear();
    for (auto& [name, s] : now) if (st.hasVar(name + "'")) fail("clear");
    return got;
  });
  if (!CheckOk(c, r, key)) return;
  if (!bad.empty()) { Fail(c, key, bad); return; }
  for (auto& q : r.out) {
    Count("elements judged", q->n);
    if (q->threw != dup) { Fail(c, key + ":duplicate", "a name set by two parties was accepted by one of them"); return; }
  }
  if (dup) { Count("duplicates refused"); Cover(fmt::format("{} dup", p.name)); return; }
  if (r.world->undelivered()) Fail(c, key + ":undelivered", fmt::format("{} messages never received", r.world->undelivered()));
  // no secret input travels in the clear before it is revealed
  std::map<std::string, int> seen;
  auto log = r.world->TakeLog();
  if (p.kind == REF2K) return;
  std::string open_bytes;  // what is public anyway
  for (auto& rd : plan) for (auto& s : rd) {
    if (s.vis != VIS_PUBLIC) continue;
    for (auto& ring : s.e.ring) for (auto& x : ring) open_bytes.append(reinterpret_cast<const char*>(&x), FieldBits(f) / 8);
    open_bytes += "|";
  }
  for (auto& rd : plan) for (auto& s : rd) {
    if (s.vis != VIS_SECRET) continue;
    for (auto& ring : s.e.ring) {
      const size_t w = FieldBits(f) / 8, need = (16 + w - 1) / w;
      size_t full = 0;
      for (size_t k = 0; k < std::min(need, ring.size()); k++) full += ring[k] >> (FieldBits(f) / 2) != 0;
      if (ring.size() < need || full < need) continue;
      std::string pat;
      for (size_t k = 0; k < need; k++) pat.append(reinterpret_cast<const char*>(&ring[k]), w);
      if (open_bytes.find(pat) != std::string::npos) continue;
      for (auto& m : log) {
        if (m.tag.rfind("all2all", 0) != 0) continue;
        Count("messages searched for clear inputs");
        if (m.payload.find(pat) != std::string::npos) { Fail(c, key + ":clear", fmt::format("secret {} of party {} sent in the clear to {}", s.name, m.src, m.dst)); return; }
      }
    }
  }
  Cover(fmt::format("{} {} {} rounds {} vars {}", p.name, FieldName(f), colo, rounds, plan[0].size()));
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<Group> gs;
  for (auto& p : Protos()) {
    if (p.spdz2k) continue;
    const bool slow = p.cost >= 20;
    const uint64_t q = slow ? 800 : 2400;
    gs.push_back({std::string("share-") + p.name, q, q * 20, [p](Case& c) { ShareCase(c, p); }});
    if (p.npc > 1) gs.push_back({std::string("uniform-") + p.name, 80, 1600, [p](Case& c) { UniformCase(c, p); }});
    gs.push_back({std::string("colo-") + p.name, q / 3, q * 7, [p](Case& c) { ColoCase(c, p); }});
  }
  return vh::Main(argc, argv, gs);
}
