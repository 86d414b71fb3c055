// C03: fixed-point / integer encoding of host buffers into the ring and back.
#include <cmath>
#include <numeric>

#include "mpc.h"

#include "libspu/core/encoding.h"
#include "libspu/core/pt_buffer_view.h"
#include "libspu/core/type_util.h"
using namespace spu;
using namespace vh;
using half_float::half;
using LD = long double;

namespace {
// a host buffer with arbitrary strides, exactly sized
template <typename T>
struct Host {
  Shape shape;
  Strides strides;
  int64_t base = 0, span = 0;
  std::unique_ptr<T[]> p;
  std::vector<int64_t> at;  // offset of every element in row-major order
  Host(Rng& g, const Shape& sh, bool dup) : shape(sh) {
    size_t r = sh.size();
    strides.assign(r, 0);
    std::vector<size_t> order(r);
    std::iota(order.rbegin(), order.rend(), 0);
    int kind = g.below(3);
    if (kind == 2) {
      for (size_t i = r; i > 1; i--) std::swap(order[i - 1], order[g.below(i)]);
    }
    span = 1;
    for (auto d : order) {
      if (sh[d] == 1) continue;
      if (dup && kind && g.chance(15)) continue;
      int64_t s = span + (kind ? g.range(0, 2) : 0);
      strides[d] = s;
      int64_t ext = s * std::max<int64_t>(sh[d] - 1, 0);
      span += ext;
      if (kind == 2 && g.chance(25)) {
        base += ext;
        strides[d] = -s;
      }
    }
    if (sh.numel() == 0) span = base = 0;
    p.reset(new T[std::max<int64_t>(span, 1)]);
    for (int64_t i = 0; i < span; i++) p[i] = T(0);
    std::vector<int64_t> idx(r, 0);
    for (int64_t k = 0; k < sh.numel(); k++) {
      int64_t o = base;
      for (size_t d = 0; d < r; d++) o += idx[d] * strides[d];
      at.push_back(o);
      for (int64_t d = static_cast<int64_t>(r) - 1; d >= 0; d--) {
        if (++idx[d] < sh[d]) break;
        idx[d] = 0;
      }
    }
  }
};

std::string Text(LD v) { return fmt::format("{:a}", static_cast<double>(v)); }

template <typename F>
F RandFloat(Rng& g, int k, int f) {
  LD v;
  switch (g.below(12)) {
    case 0: v = 0; break;
    case 1: v = std::ldexp(1.0L, g.range(-f - 4, k - f)); break;
    case 2: v = std::numeric_limits<LD>::infinity(); break;
    case 3: v = std::numeric_limits<LD>::quiet_NaN(); break;
    case 4: {  // around the limits of the representable range
      LD lim = std::ldexp(1.0L, k - 2 - f);
      v = lim + std::ldexp(static_cast<LD>(g.range(-3, 3)), static_cast<int>(g.range(-f, k - 2 - f)));
      break;
    }
    case 5:  // exact multiples of the resolution, and halves of it
      v = std::ldexp(static_cast<LD>(g.range(-100000, 100000)), -f - 1);
      break;
    case 6: v = g.range(-1000, 1000); break;
    case 7: v = std::ldexp(g.uniform(-1, 1), static_cast<int>(g.range(-160, 160))); break;
    case 8: v = std::ldexp(g.uniform(-1, 1), -f); break;
    default: v = std::ldexp(g.uniform(-1, 1), static_cast<int>(g.range(-f, k - f))); break;
  }
  if (g.chance(50)) v = -v;
  return F(static_cast<float>(0)) + (std::is_same_v<F, double> ? F(static_cast<double>(v)) : F(static_cast<float>(v)));
}
template <>
half RandFloat<half>(Rng& g, int k, int f) {
  if (g.chance(40)) {
    uint16_t b = g.u64();
    half h;
    std::memcpy(static_cast<void*>(&h), &b, 2);
    return h;
  }
  return half(static_cast<float>(RandFloat<double>(g, k, f)));
}
// trunc(v * 2^f) clamped into [-2^(k-2), 2^(k-2)-1]; NaN -> 0
int128_t WantFloat(LD v, int k, int f) {
  if (std::isnan(v)) return 0;
  int128_t hi = (int128_t(1) << (k - 2)) - 1, lo = -(int128_t(1) << (k - 2));
  LD s = std::trunc(std::ldexp(v, f));
  if (s >= std::ldexp(1.0L, k - 2)) return hi;
  if (s <= -std::ldexp(1.0L, k - 2)) return lo;
  bool neg = s < 0;
  int e;
  LD m = std::frexp(std::fabs(s), &e);
  if (s == 0) return 0;
  uint128_t u = static_cast<uint64_t>(std::ldexp(m, 64));
  u = e >= 64 ? u << (e - 64) : u >> (64 - e);
  return neg ? -static_cast<int128_t>(u) : static_cast<int128_t>(u);
}

struct Conf {
  FieldType field;
  int k;
  int f;
};
Conf RandConf(Rng& g) {
  Conf c;
  c.field = g.pick(std::vector<FieldType>{FM32, FM64, FM128});
  c.k = static_cast<int>(FieldBits(c.field));
  c.f = static_cast<int>(g.range(1, c.k == 32 ? 20 : c.k == 64 ? 40 : 62));
  return c;
}

template <typename T>
void EncodeFloat(Case& c, PtType pt, DataType want_dt) {
  auto& g = c.rng;
  Conf cf = RandConf(g);
  Shape sh = RandShape(g, 4, 150);
  Host<T> h(g, sh, true);
  for (auto o : h.at) h.p[o] = RandFloat<T>(g, cf.k, cf.f);
  Describe(c, fmt::format("encode pt {} into {} f={} {}/{}", static_cast<int>(pt), FieldName(cf.field), cf.f, Str(sh), Str(h.strides)));
  PtBufferView bv(h.p.get() + h.base, pt, h.shape, h.strides);
  DataType dt = DT_INVALID;
  auto a = encodeToRing(bv, cf.field, cf.f, &dt);
  if (dt != want_dt || dt != getEncodeType(pt) || getDecodeType(dt) != pt) return Fail(c, "encode:dtype", c.desc);
  if (a.shape() != sh || a.eltype() != makeType<RingTy>(cf.field)) return Fail(c, "encode:shape", c.desc);
  auto got = ReadRing(a);
  for (size_t i = 0; i < got.size(); i++) {
    LD v = static_cast<LD>(static_cast<double>(h.p[h.at[i]]));
    int128_t want = WantFloat(v, cf.k, cf.f);
    if (Signed(got[i], cf.k) != want) return Fail(c, "encode:float", fmt::format("{} in {} f={} -> {} want {}", Text(v), FieldName(cf.field), cf.f, Hex(got[i]), Hex(want & Mask(cf.k))));
    Cover(fmt::format("ef/{}/{}/{}/{}", static_cast<int>(pt), cf.k, std::isnan(v) ? 999 : v == 0 ? -999 : std::isinf(v) ? 998 : std::ilogb(v) + cf.f, v < 0));
  }
  Count("values encoded", got.size());
  // and back: within one unit of the resolution wherever it was in range
  Host<T> o(g, sh, false);
  PtBufferView ov(o.p.get() + o.base, pt, o.shape, o.strides);
  PtType opt = PT_INVALID;
  decodeFromRing(g.chance(50) ? a : a.transpose().clone().transpose(), dt, cf.f, &ov, &opt);
  if (opt != pt) return Fail(c, "decode:pttype", c.desc);
  for (size_t i = 0; i < got.size(); i++) {
    LD v = static_cast<LD>(static_cast<double>(h.p[h.at[i]]));
    LD w = static_cast<LD>(static_cast<double>(o.p[o.at[i]]));
    if (std::isnan(v) || std::fabs(v) >= std::ldexp(1.0L, cf.k - 2 - cf.f)) continue;
    LD ulp = std::is_same_v<T, half> ? 1.0L / 2048 : std::is_same_v<T, float> ? std::ldexp(1.0L, -24) : std::ldexp(1.0L, -52);
    LD tol = std::ldexp(1.0L, -cf.f) + std::fabs(v) * ulp + (std::is_same_v<T, half> ? std::ldexp(1.0L, -24) : 0.0L);
    if (!(std::fabs(v - w) <= tol)) return Fail(c, "encode:roundtrip", fmt::format("{} -> {} f={}", Text(v), Text(w), cf.f));
  }
  Count("values round-tripped", got.size());
}

template <typename T>
void EncodeInt(Case& c, PtType pt, DataType want_dt) {
  auto& g = c.rng;
  Conf cf = RandConf(g);
  Shape sh = RandShape(g, 4, 150);
  Host<T> h(g, sh, true);
  for (auto o : h.at) h.p[o] = std::is_same_v<T, bool> ? static_cast<T>(g.u64() & 1) : static_cast<T>(RingVal(g, sizeof(T) * 8));
  Describe(c, fmt::format("encode pt {} into {} {}/{}", static_cast<int>(pt), FieldName(cf.field), Str(sh), Str(h.strides)));
  PtBufferView bv(h.p.get() + h.base, pt, h.shape, h.strides);
  DataType dt = DT_INVALID;
  NdArrayRef a;
  try {
    a = encodeToRing(bv, cf.field, cf.f, &dt);
  } catch (const yacl::Exception&) {
    if (sizeof(T) * 8 <= static_cast<size_t>(cf.k)) Fail(c, "encode:refused", c.desc);
    Count("refusals");
    return;
  }
  if (sizeof(T) * 8 > static_cast<size_t>(cf.k)) return Fail(c, "encode:too_wide", c.desc);
  if (dt != want_dt || getDecodeType(dt) != pt || getEncodeType(pt) != dt) return Fail(c, "encode:dtype", c.desc);
  if (a.shape() != sh || a.eltype() != makeType<RingTy>(cf.field)) return Fail(c, "encode:shape", c.desc);
  auto got = ReadRing(a);
  for (size_t i = 0; i < got.size(); i++) {
    int128_t want = static_cast<int128_t>(h.p[h.at[i]]);
    if (got[i] != (static_cast<uint128_t>(want) & Mask(cf.k))) return Fail(c, "encode:int", fmt::format("{} -> {}", Hex(want), Hex(got[i])));
  }
  Host<T> o(g, sh, false);
  PtBufferView ov(o.p.get() + o.base, pt, o.shape, o.strides);
  PtType opt = PT_INVALID;
  decodeFromRing(g.chance(50) ? a : a.transpose().clone().transpose(), dt, cf.f, &ov, &opt);
  if (opt != pt) return Fail(c, "decode:pttype", c.desc);
  for (size_t i = 0; i < got.size(); i++) {
    if (o.p[o.at[i]] != h.p[h.at[i]]) return Fail(c, "encode:int_roundtrip", fmt::format("element {}", i));
  }
  Count("values encoded", got.size());
  Count("values round-tripped", got.size());
  Cover(fmt::format("ei/{}/{}/{}", static_cast<int>(pt), cf.k, sh.size()));
}

// decoding arbitrary ring elements
template <typename T>
void Decode(Case& c, PtType pt, DataType dt) {
  auto& g = c.rng;
  Conf cf = RandConf(g);
  Shape sh = RandShape(g, 3, 120);
  std::vector<uint128_t> v(sh.numel());
  for (auto& x : v) x = RingVal(g, cf.k);
  auto a = MakeRing(makeType<RingTy>(cf.field), sh, v);
  if (g.chance(40)) a = a.transpose().clone().transpose();
  Describe(c, fmt::format("decode {} to dtype {} f={} {}", FieldName(cf.field), static_cast<int>(dt), cf.f, Str(sh)));
  Host<T> o(g, sh, false);
  PtBufferView ov(o.p.get() + o.base, pt, o.shape, o.strides);
  PtType opt = PT_INVALID;
  decodeFromRing(a, dt, cf.f, &ov, &opt);
  if (opt != pt) return Fail(c, "decode:pttype", c.desc);
  for (size_t i = 0; i < v.size(); i++) {
    int128_t s = Signed(v[i], cf.k);
    T got = o.p[o.at[i]];
    auto bad = [&](const std::string& want) {
      Fail(c, fmt::format("decode:{}", static_cast<int>(dt)), fmt::format("{} {} f={} -> {} want {}", FieldName(cf.field), Hex(v[i]), cf.f, static_cast<double>(got), want));
    };
    if (dt == DT_I1) {
      if (static_cast<bool>(got) != static_cast<bool>(v[i] & 1)) return bad("its low bit");
    } else if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double> || std::is_same_v<T, half>) {
      LD exact = std::ldexp(static_cast<LD>(s), -cf.f);  // 64 bits of precision
      LD w = static_cast<LD>(static_cast<double>(got));
      int prec = std::is_same_v<T, half> ? 11 : std::is_same_v<T, float> ? 24 : 53;
      int mine = std::is_same_v<T, half> ? -24 : std::is_same_v<T, float> ? -149 : -1074;
      LD maxv = std::is_same_v<T, half> ? 65504.0L : std::is_same_v<T, float> ? std::numeric_limits<float>::max() : std::numeric_limits<double>::max();
      LD half_ulp = exact == 0 ? 0 : std::ldexp(1.0L, std::max(std::ilogb(exact) - prec, mine - 1));
      if (std::isinf(w)) {
        if (std::fabs(exact) < maxv || std::signbit(w) != std::signbit(exact)) return bad(Text(exact));
      } else if (!(std::fabs(w - exact) <= half_ulp * 1.01L)) {
        return bad(Text(exact));
      }
    } else {
      if (static_cast<int128_t>(got) != static_cast<int128_t>(static_cast<T>(s))) return bad(Hex(s));
    }
  }
  Count("values decoded", v.size());
  Cover(fmt::format("d/{}/{}/{}", static_cast<int>(dt), cf.k, cf.f / 4));
}

void Enc(Case& c) {
  switch (c.rng.below(16)) {
    case 0: case 1: return EncodeFloat<half>(c, PT_F16, DT_F16);
    case 2: case 3: case 4: return EncodeFloat<float>(c, PT_F32, DT_F32);
    case 5: case 6: return EncodeFloat<double>(c, PT_F64, DT_F64);
    case 7: return EncodeInt<bool>(c, PT_I1, DT_I1);
    case 8: return EncodeInt<int8_t>(c, PT_I8, DT_I8);
    case 9: return EncodeInt<uint8_t>(c, PT_U8, DT_U8);
    case 10: return EncodeInt<int16_t>(c, PT_I16, DT_I16);
    case 11: return EncodeInt<uint16_t>(c, PT_U16, DT_U16);
    case 12: return EncodeInt<int32_t>(c, PT_I32, DT_I32);
    case 13: return EncodeInt<uint32_t>(c, PT_U32, DT_U32);
    case 14: return EncodeInt<int64_t>(c, PT_I64, DT_I64);
    default: return EncodeInt<uint64_t>(c, PT_U64, DT_U64);
  }
}
void Dec(Case& c) {
  switch (c.rng.below(12)) {
    case 0: return Decode<half>(c, PT_F16, DT_F16);
    case 1: return Decode<float>(c, PT_F32, DT_F32);
    case 2: return Decode<double>(c, PT_F64, DT_F64);
    case 3: return Decode<bool>(c, PT_I1, DT_I1);
    case 4: return Decode<int8_t>(c, PT_I8, DT_I8);
    case 5: return Decode<uint8_t>(c, PT_U8, DT_U8);
    case 6: return Decode<int16_t>(c, PT_I16, DT_I16);
    case 7: return Decode<uint16_t>(c, PT_U16, DT_U16);
    case 8: return Decode<int32_t>(c, PT_I32, DT_I32);
    case 9: return Decode<uint32_t>(c, PT_U32, DT_U32);
    case 10: return Decode<int64_t>(c, PT_I64, DT_I64);
    default: return Decode<uint64_t>(c, PT_U64, DT_U64);
  }
}
// what cannot be encoded or decoded is refused
void Refuse(Case& c) {
  auto& g = c.rng;
  Describe(c, "types without an encoding");
  int n = 0;
  auto refused = [&](auto f, const char* what) {
    try {
      f();
      Fail(c, fmt::format("encode:accepted:{}", what), what);
    } catch (const yacl::Exception&) {
      n++;
    }
  };
  refused([&] { (void)getEncodeType(PT_INVALID); }, "PT_INVALID");
  refused([&] { (void)getEncodeType(PT_I128); }, "PT_I128");
  refused([&] { (void)getEncodeType(PT_U128); }, "PT_U128");
  refused([&] { (void)getDecodeType(DT_INVALID); }, "DT_INVALID");
  uint8_t b[4] = {};
  PtBufferView bv(&b[0], PT_U8, Shape{4}, Strides{1});
  NdArrayRef notring(makePtType(PT_I32), {4});
  refused([&] { decodeFromRing(notring, DT_U8, 8, &bv); }, "a source that is no ring array");
  Count("refusals", n);
  Cover(fmt::format("refuse/{}", g.below(3)));
}
}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, {{"encode", 6000, 120000, Enc}, {"decode", 4000, 80000, Dec}, {"refuse", 3, 3, Refuse}});
}
