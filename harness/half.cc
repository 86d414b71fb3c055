// C02: half-precision arithmetic against exact / long double references.
#include <cfenv>
#include <cmath>
#include <sstream>

#include "vh.h"

#include "libspu/core/half.h"
using namespace vh;
using half_float::half;
using half_float::half_cast;
namespace hf = half_float;
using LD = long double;

namespace {
uint16_t Bits(half h) {
  uint16_t b;
  static_assert(sizeof(half) == 2, "half is two bytes");
  std::memcpy(&b, &h, 2);
  return b;
}
half Make(uint16_t b) {
  half h;
  std::memcpy(static_cast<void*>(&h), &b, 2);
  return h;
}
bool IsNan(uint16_t b) { return (b & 0x7fff) > 0x7c00; }
// exact value of a finite half (infinities too)
LD Val(uint16_t b) {
  int e = (b >> 10) & 31, m = b & 1023;
  LD v;
  if (e == 31) v = m ? std::numeric_limits<LD>::quiet_NaN() : std::numeric_limits<LD>::infinity();
  else if (e == 0) v = std::ldexp(static_cast<LD>(m), -24);
  else v = std::ldexp(static_cast<LD>(m + 1024), e - 25);
  return b & 0x8000 ? -v : v;
}
enum Mode { kNear, kZero, kUp, kDown };
// rounds m * 2^e (plus a non-zero rest below if sticky) to half
uint16_t RoundTo(bool neg, uint128_t m, int e, bool sticky, Mode mode) {
  uint16_t s = neg ? 0x8000 : 0;
  if (m == 0 && !sticky) return s;
  int top = 0;
  if (m != 0) {
    uint64_t hi = static_cast<uint64_t>(m >> 64);
    top = hi ? 127 - __builtin_clzll(hi) : 63 - __builtin_clzll(static_cast<uint64_t>(m));
  }
  int exp = e + top;                       // value in [2^exp, 2^(exp+1))
  int q = std::max(exp - 10, -24);         // weight of the last bit
  int sh = q - e;
  uint128_t keep;
  bool guard = false, rest = sticky;
  if (sh <= 0) {
    keep = m << (-sh);
  } else if (sh > 127) {
    keep = 0;
    rest |= m != 0;
  } else {
    keep = m >> sh;
    guard = (m >> (sh - 1)) & 1;
    rest |= (m & ((uint128_t(1) << (sh - 1)) - 1)) != 0;
  }
  bool up = false;
  switch (mode) {
    case kNear: up = guard && (rest || (keep & 1)); break;
    case kZero: break;
    case kUp: up = !neg && (guard || rest); break;
    case kDown: up = neg && (guard || rest); break;
  }
  keep += up ? 1 : 0;
  // keep * 2^q, keep <= 2048
  if (keep >= 2048) {
    keep >>= 1;
    q++;
  }
  uint16_t r;
  if (keep < 1024) {
    r = static_cast<uint16_t>(keep);       // subnormal, q == -24
  } else {
    int be = q + 25;
    if (be >= 31) {
      bool inf = mode == kNear || (mode == kUp && !neg) || (mode == kDown && neg);
      return s | (inf ? 0x7c00 : 0x7bff);
    }
    r = static_cast<uint16_t>((be << 10) | (static_cast<uint32_t>(keep) & 1023));
  }
  return s | r;
}
uint16_t FromLD(LD v, Mode mode = kNear) {
  if (std::isnan(v)) return 0x7fff;
  bool neg = std::signbit(v);
  if (std::isinf(v)) return (neg ? 0x8000 : 0) | 0x7c00;
  int e;
  LD f = std::frexp(std::fabs(v), &e);
  return RoundTo(neg, static_cast<uint64_t>(std::ldexp(f, 64)), e - 64, false, mode);
}
// the same for values exact in double, rounding to nearest, without long double
uint16_t FromD(double v) {
  uint64_t b;
  std::memcpy(&b, &v, 8);
  uint16_t s = static_cast<uint16_t>((b >> 48) & 0x8000);
  int e = static_cast<int>((b >> 52) & 2047);
  uint64_t m = b & ((uint64_t(1) << 52) - 1);
  if (e == 2047) return m ? 0x7fff : s | 0x7c00;
  if (e == 0) return s;                    // far below half's range
  m |= uint64_t(1) << 52;                  // v = m * 2^(e-1075)
  int exp = e - 1023;
  int drop = exp < -14 ? 42 + (-14 - exp) : 42;
  if (drop > 55) return s;
  uint64_t keep = m >> drop, rem = m & ((uint64_t(1) << drop) - 1), half = uint64_t(1) << (drop - 1);
  if (rem > half || (rem == half && (keep & 1))) keep++;
  // keep carries the hidden bit for normal numbers
  uint64_t r = exp < -14 ? keep : keep + (static_cast<uint64_t>(exp + 14) << 10);
  return r >= 0x7c00 ? s | 0x7c00 : s | static_cast<uint16_t>(r);
}
const std::vector<double>& Table() {
  static const std::vector<double> t = [] {
    std::vector<double> v(65536);
    for (int i = 0; i < 65536; i++) v[i] = static_cast<double>(Val(i));
    return v;
  }();
  return t;
}
// position on the number line, for distances in ULP
int Ord(uint16_t b) { return b & 0x8000 ? -(b & 0x7fff) : (b & 0x7fff); }
int Ulp(uint16_t a, uint16_t b) {
  if (IsNan(a) || IsNan(b)) return IsNan(a) && IsNan(b) ? 0 : 1 << 20;
  return std::abs(Ord(a) - Ord(b));
}
std::string Show(uint16_t b) { return fmt::format("0x{:04x}({})", b, static_cast<double>(Val(b))); }

struct Unary {
  const char* name;
  half (*f)(half);
  LD (*ref)(LD);
  int tol;
};
LD RefRound(LD x) { return std::round(x); }
LD RefRint(LD x) { return std::nearbyint(x); }
LD RefLogb(LD x) { return std::logb(x); }
const std::vector<Unary>& Unaries() {
  static const std::vector<Unary> u = {
      {"plus", [](half x) { return +x; }, [](LD x) { return x; }, 0},
      {"neg", [](half x) { return -x; }, [](LD x) { return -x; }, 0},
      {"fabs", [](half x) { return hf::fabs(x); }, [](LD x) { return std::fabs(x); }, 0},
      {"abs", [](half x) { return hf::abs(x); }, [](LD x) { return std::fabs(x); }, 0},
      {"exp", [](half x) { return hf::exp(x); }, [](LD x) { return std::exp(x); }, 0},
      {"exp2", [](half x) { return hf::exp2(x); }, [](LD x) { return std::exp2(x); }, 0},
      {"expm1", [](half x) { return hf::expm1(x); }, [](LD x) { return std::expm1(x); }, 1},
      {"log", [](half x) { return hf::log(x); }, [](LD x) { return std::log(x); }, 0},
      {"log10", [](half x) { return hf::log10(x); }, [](LD x) { return std::log10(x); }, 0},
      {"log2", [](half x) { return hf::log2(x); }, [](LD x) { return std::log2(x); }, 0},
      {"log1p", [](half x) { return hf::log1p(x); }, [](LD x) { return std::log1p(x); }, 1},
      {"sqrt", [](half x) { return hf::sqrt(x); }, [](LD x) { return std::sqrt(x); }, 0},
      {"rsqrt", [](half x) { return hf::rsqrt(x); }, [](LD x) { return x == 0 ? 1 / x : 1 / std::sqrt(x); }, 0},
      {"cbrt", [](half x) { return hf::cbrt(x); }, [](LD x) { return std::cbrt(x); }, 0},
      {"sin", [](half x) { return hf::sin(x); }, [](LD x) { return std::sin(x); }, 0},
      {"cos", [](half x) { return hf::cos(x); }, [](LD x) { return std::cos(x); }, 0},
      {"tan", [](half x) { return hf::tan(x); }, [](LD x) { return std::tan(x); }, 0},
      {"asin", [](half x) { return hf::asin(x); }, [](LD x) { return std::asin(x); }, 0},
      {"acos", [](half x) { return hf::acos(x); }, [](LD x) { return std::acos(x); }, 0},
      {"atan", [](half x) { return hf::atan(x); }, [](LD x) { return std::atan(x); }, 0},
      {"sinh", [](half x) { return hf::sinh(x); }, [](LD x) { return std::sinh(x); }, 0},
      {"cosh", [](half x) { return hf::cosh(x); }, [](LD x) { return std::cosh(x); }, 0},
      {"tanh", [](half x) { return hf::tanh(x); }, [](LD x) { return std::tanh(x); }, 0},
      {"asinh", [](half x) { return hf::asinh(x); }, [](LD x) { return std::asinh(x); }, 0},
      {"acosh", [](half x) { return hf::acosh(x); }, [](LD x) { return std::acosh(x); }, 0},
      {"atanh", [](half x) { return hf::atanh(x); }, [](LD x) { return std::atanh(x); }, 0},
      {"erf", [](half x) { return hf::erf(x); }, [](LD x) { return std::erf(x); }, 1},
      {"erfc", [](half x) { return hf::erfc(x); }, [](LD x) { return std::erfc(x); }, 1},
      {"lgamma", [](half x) { return hf::lgamma(x); }, [](LD x) { return std::lgamma(x); }, 1},
      {"tgamma", [](half x) { return hf::tgamma(x); }, [](LD x) { return std::tgamma(x); }, 1},
      {"ceil", [](half x) { return hf::ceil(x); }, [](LD x) { return std::ceil(x); }, 0},
      {"floor", [](half x) { return hf::floor(x); }, [](LD x) { return std::floor(x); }, 0},
      {"trunc", [](half x) { return hf::trunc(x); }, [](LD x) { return std::trunc(x); }, 0},
      {"round", [](half x) { return hf::round(x); }, RefRound, 0},
      {"rint", [](half x) { return hf::rint(x); }, RefRint, 0},
      {"nearbyint", [](half x) { return hf::nearbyint(x); }, RefRint, 0},
      {"logb", [](half x) { return hf::logb(x); }, RefLogb, 0},
      {"sincos_sin", [](half x) { half s, c; hf::sincos(x, &s, &c); return s; }, [](LD x) { return std::sin(x); }, 0},
      {"sincos_cos", [](half x) { half s, c; hf::sincos(x, &s, &c); return c; }, [](LD x) { return std::cos(x); }, 0},
      {"preinc", [](half x) { return ++x; }, [](LD x) { return x + 1; }, 0},
      {"predec", [](half x) { return --x; }, [](LD x) { return x - 1; }, 0},
      {"postinc", [](half x) { half y = x++; return y == y ? x : y; }, [](LD x) { return x + 1; }, 0},
  };
  return u;
}
void UnaryBlock(Case& c, size_t fi, int block) {
  const auto& u = Unaries()[fi];
  Describe(c, fmt::format("{} of halves {}..", u.name, block * 4096));
  int worst = 0;
  for (int i = 0; i < 4096; i++) {
    uint16_t x = block * 4096 + i;
    uint16_t got = Bits(u.f(Make(x)));
    LD rv = IsNan(x) ? std::numeric_limits<LD>::quiet_NaN() : u.ref(Val(x));
    uint16_t want = FromLD(rv);
    bool ok;
    if (IsNan(want) || IsNan(got)) ok = IsNan(want) && IsNan(got);
    else if (got == want) ok = true;
    else {
      int d = Ulp(got, want);
      // signs of exact zeros must agree; inexact zeros are within the tolerance
      worst = std::max(worst, d);
      ok = d <= u.tol && d > 0;
    }
    if (!ok) return Fail(c, fmt::format("half:{}", u.name), fmt::format("{}({}) = {} want {}", u.name, Show(x), Show(got), Show(want)));
  }
  Count("function values", 4096);
  if (worst) Count(fmt::format("{} worst ulp {}", u.name, worst));
  Cover(fmt::format("unary/{}/{}", u.name, block));
}

// every 16-bit pattern through the conversions and classifications
void Convert(Case& c, int block) {
  Describe(c, fmt::format("conversions of halves {}..", block * 4096));
  for (int i = 0; i < 4096; i++) {
    uint16_t x = block * 4096 + i;
    half h = Make(x);
    LD v = Val(x);
    auto bad = [&](const char* what) { Fail(c, fmt::format("half:{}", what), Show(x)); };
    bool nan = IsNan(x);
    float f = static_cast<float>(h);
    double d = half_cast<double>(h);
    LD l = half_cast<LD>(h);
    if (nan) {
      if (!std::isnan(f) || !std::isnan(d) || !std::isnan(l)) return bad("to_float_nan");
    } else if (f != v || d != v || l != v || std::signbit(f) != std::signbit(v) || std::signbit(d) != std::signbit(v)) {
      return bad("to_float");
    }
    if (!nan) {
      if (Bits(half(f)) != x || Bits(half_cast<half>(d)) != x || Bits(half_cast<half>(l)) != x || Bits(half_cast<half>(h)) != x) return bad("roundtrip");
      half a;
      a = f;
      if (Bits(a) != x) return bad("assign");
    }
    bool inf = (x & 0x7fff) == 0x7c00;
    int cls = nan ? FP_NAN : inf ? FP_INFINITE : (x & 0x7fff) == 0 ? FP_ZERO : (x & 0x7c00) == 0 ? FP_SUBNORMAL : FP_NORMAL;
    if (hf::fpclassify(h) != cls) return bad("fpclassify");
    if (hf::isfinite(h) != (!nan && !inf) || hf::isinf(h) != inf || hf::isnan(h) != nan || hf::isnormal(h) != (cls == FP_NORMAL) || hf::signbit(h) != ((x & 0x8000) != 0)) return bad("classify");
    if ((h == h) == nan || (h != h) != nan || (h <= h) == nan || (h >= h) == nan || (h < h) || (h > h)) return bad("compare_self");
    // integers, in every rounding mode, where representable
    if (!nan && !inf) {
      if (half_cast<int>(h) != static_cast<int>(std::nearbyint(v))) return bad("to_int");
      if (half_cast<int, std::round_toward_zero>(h) != static_cast<int>(std::trunc(v))) return bad("to_int_zero");
      if (half_cast<int, std::round_toward_infinity>(h) != static_cast<int>(std::ceil(v))) return bad("to_int_up");
      if (half_cast<int, std::round_toward_neg_infinity>(h) != static_cast<int>(std::floor(v))) return bad("to_int_down");
      if (half_cast<long long>(h) != static_cast<long long>(std::nearbyint(v))) return bad("to_llong");
      if (v >= 0 && half_cast<unsigned>(h) != static_cast<unsigned>(std::nearbyint(v))) return bad("to_unsigned");
      if (std::nearbyint(v) >= -32768 && std::nearbyint(v) <= 32767 && half_cast<short>(h) != static_cast<short>(std::nearbyint(v))) return bad("to_short");
      if (std::nearbyint(v) >= -128 && std::nearbyint(v) <= 127 && half_cast<signed char>(h) != static_cast<signed char>(std::nearbyint(v))) return bad("to_schar");
      if (hf::lround(h) != static_cast<long>(std::round(v)) || hf::llround(h) != static_cast<long long>(std::round(v))) return bad("lround");
      if (hf::lrint(h) != static_cast<long>(std::nearbyint(v)) || hf::llrint(h) != static_cast<long long>(std::nearbyint(v))) return bad("lrint");
      int e = 0;
      half m = hf::frexp(h, &e);
      int re = 0;
      LD rm = std::frexp(v, &re);
      if (Bits(m) != FromLD(rm) || (v != 0 && e != re) || (v == 0 && e != 0)) return bad("frexp");
      half ip;
      half fr = hf::modf(h, &ip);
      LD rip;
      LD rfr = std::modf(v, &rip);
      if (Bits(fr) != FromLD(rfr) || Bits(ip) != FromLD(rip)) return bad("modf");
      if (v != 0 && hf::ilogb(h) != std::ilogb(v)) return bad("ilogb");
    } else {
      half ip;
      half fr = hf::modf(h, &ip);
      if (inf && (Bits(ip) != x || (Bits(fr) & 0x7fff) != 0)) return bad("modf_inf");
      if (nan && !IsNan(Bits(fr))) return bad("modf_nan");
      int e = 0;
      uint16_t m = Bits(hf::frexp(h, &e));
      if (inf ? m != x : !IsNan(m)) return bad("frexp_inf");
    }
    if (hf::ilogb(h) != (nan ? FP_ILOGBNAN : inf ? INT_MAX : v == 0 ? FP_ILOGB0 : std::ilogb(v))) return bad("ilogb");
    if (!nan) {
      std::hash<half> hs;
      if ((x & 0x7fff) == 0 && hs(Make(0)) != hs(Make(0x8000))) return bad("hash");
      std::stringstream ss;
      ss.precision(9);
      if (!inf) {
        ss << h;
        half back;
        ss >> back;
        if (Bits(back) != x) return bad("stream");
      }
    }
  }
  Count("patterns converted", 4096);
  Cover(fmt::format("convert/{}", block));
}

// values between halves: conversions to half in every rounding mode
void ToHalf(Case& c) {
  auto& g = c.rng;
  for (int t = 0; t < 3000; t++) {
    double v;
    uint16_t x = g.u64();
    LD base = IsNan(x) ? 1.5L : Val(x);
    if (std::isinf(base)) base = 65504;
    int kind = g.below(8);
    if (kind < 4) {
      // around the midpoint to the next half, nudged by tiny amounts
      int e = std::max(static_cast<int>(((x >> 10) & 31)) - 25, -24);
      v = static_cast<double>(base + std::ldexp(static_cast<LD>(std::signbit(base) ? -1 : 1), e - 1));
      int n = g.range(-2, 2);
      for (int i = 0; i < std::abs(n); i++) v = g.chance(50) ? std::nextafter(v, n > 0 ? 1e300 : -1e300) : std::nextafter(static_cast<float>(v), n > 0 ? 1e30f : -1e30f);
    } else if (kind == 4) {
      uint64_t b = g.u64();
      std::memcpy(&v, &b, 8);
    } else if (kind == 5) {
      uint32_t b = g.u64();
      float f;
      std::memcpy(&f, &b, 4);
      v = f;
    } else {
      v = std::ldexp(g.uniform(-1, 1), g.range(-30, 18));
    }
    Describe(c, fmt::format("{:a}", v));
    if (std::isnan(v)) {
      if (!IsNan(Bits(half_cast<half>(v))) || !IsNan(Bits(half(static_cast<float>(v))))) return Fail(c, "half:from_nan", fmt::format("{}", v));
      continue;
    }
    float f = static_cast<float>(v);
    auto chk = [&](const char* what, uint16_t got, LD val, Mode m) {
      uint16_t want = FromLD(val, m);
      if (got == want) return true;
      Fail(c, fmt::format("half:from_{}", what), fmt::format("{:a}: {} want {}", static_cast<double>(val), Show(got), Show(want)));
      return false;
    };
    if (!chk("float", Bits(half(f)), f, kNear)) return;
    if (!chk("double", Bits(half_cast<half>(v)), v, kNear)) return;
    if (!chk("ldouble", Bits(half_cast<half>(static_cast<LD>(v))), v, kNear)) return;
    if (!chk("float_zero", Bits(half_cast<half, std::round_toward_zero>(f)), f, kZero)) return;
    if (!chk("float_up", Bits(half_cast<half, std::round_toward_infinity>(f)), f, kUp)) return;
    if (!chk("float_down", Bits(half_cast<half, std::round_toward_neg_infinity>(f)), f, kDown)) return;
    if (!chk("float_near", Bits(half_cast<half, std::round_to_nearest>(f)), f, kNear)) return;
    if (!chk("double_zero", Bits(half_cast<half, std::round_toward_zero>(v)), v, kZero)) return;
    if (!chk("double_up", Bits(half_cast<half, std::round_toward_infinity>(v)), v, kUp)) return;
    if (!chk("double_down", Bits(half_cast<half, std::round_toward_neg_infinity>(v)), v, kDown)) return;
    // integers
    int64_t n = static_cast<int64_t>(g.u64()) >> g.below(64);
    if (g.chance(60)) n = g.range(-70000, 70000);
    if (g.chance(5)) n = static_cast<int64_t>(uint64_t(1) << 63 >> (g.chance(50) ? 0 : 32));
    if (g.chance(2)) n = INT_MIN;
    if (!chk("int64", Bits(half_cast<half>(n)), static_cast<LD>(n), kNear)) return;
    if (!chk("int32", Bits(half_cast<half>(static_cast<int>(n))), static_cast<LD>(static_cast<int>(n)), kNear)) return;
    if (!chk("uint64", Bits(half_cast<half>(static_cast<uint64_t>(n))), static_cast<LD>(static_cast<uint64_t>(n)), kNear)) return;
    if (!chk("short", Bits(half_cast<half>(static_cast<short>(n))), static_cast<LD>(static_cast<short>(n)), kNear)) return;
    if (!chk("int_zero", Bits(half_cast<half, std::round_toward_zero>(n)), static_cast<LD>(n), kZero)) return;
    if (!chk("int_up", Bits(half_cast<half, std::round_toward_infinity>(n)), static_cast<LD>(n), kUp)) return;
    if (!chk("int_down", Bits(half_cast<half, std::round_toward_neg_infinity>(n)), static_cast<LD>(n), kDown)) return;
    Count("values converted", 16);
    Cover(fmt::format("tohalf/{}/{}", kind, std::min(40, std::max(-40, v == 0 ? -40 : std::ilogb(v)))));
  }
}

uint16_t RefFma(uint16_t x, uint16_t y, uint16_t z) {
  LD a = Val(x), b = Val(y), d = Val(z);
  if (!std::isfinite(a) || !std::isfinite(b) || !std::isfinite(d)) return FromLD(a * b + d);
  LD p = a * b;                           // exact
  if (p == 0 || d == 0) return FromLD(p + d);
  // exact integer sum scaled by 2^48
  auto scaled = [](LD v) {
    LD s = std::ldexp(std::fabs(v), 48);  // < 2^81, an integer
    int e;
    LD f = std::frexp(s, &e);
    uint128_t m = static_cast<uint64_t>(std::ldexp(f, 64));
    uint128_t r = e >= 64 ? m << (e - 64) : m >> (64 - e);
    return v < 0 ? -static_cast<int128_t>(r) : static_cast<int128_t>(r);
  };
  int128_t s = scaled(p) + scaled(d);
  if (s == 0) return 0;
  bool neg = s < 0;
  return RoundTo(neg, static_cast<uint128_t>(neg ? -s : s), -48, false, kNear);
}

bool CheckPair(Case& c, uint16_t x, uint16_t y) {
  half a = Make(x), b = Make(y);
  const double va = Table()[x], vb = Table()[y];
  bool nan = IsNan(x) || IsNan(y);
  auto same = [](uint16_t g, uint16_t w) { return g == w || (IsNan(g) && IsNan(w)); };
  auto bad = [&](const char* what, uint16_t got, uint16_t want) {
    Fail(c, fmt::format("half:{}", what), fmt::format("{}({}, {}) = {} want {}", what, Show(x), Show(y), Show(got), Show(want)));
    return false;
  };
#define TWO(name, expr, ref)                                  \
  {                                                           \
    uint16_t got = Bits(expr);                                \
    uint16_t want = ref;                                      \
    if (!same(got, want)) return bad(name, got, want);        \
  }
  const uint16_t kNaN = 0x7fff;
  TWO("add", a + b, nan ? kNaN : FromD(va + vb));
  TWO("sub", a - b, nan ? kNaN : FromD(va - vb));
  TWO("mul", a * b, nan ? kNaN : FromD(va * vb));
  TWO("div", a / b, nan ? kNaN : FromD(va / vb));
  {
    half t = a;
    t += b;
    TWO("add_assign", t, nan ? kNaN : FromD(va + vb));
    t = a;
    t -= b;
    TWO("sub_assign", t, nan ? kNaN : FromD(va - vb));
    t = a;
    t *= b;
    TWO("mul_assign", t, nan ? kNaN : FromD(va * vb));
    t = a;
    t /= b;
    TWO("div_assign", t, nan ? kNaN : FromD(va / vb));
  }
  if ((a == b) != (va == vb) || (a != b) != (va != vb) || (a < b) != (va < vb) || (a > b) != (va > vb) || (a <= b) != (va <= vb) || (a >= b) != (va >= vb)) return bad("compare", x, y);
  if (hf::isgreater(a, b) != (va > vb) || hf::isgreaterequal(a, b) != (va >= vb) || hf::isless(a, b) != (va < vb) || hf::islessequal(a, b) != (va <= vb) || hf::islessgreater(a, b) != (va < vb || va > vb) || hf::isunordered(a, b) != nan) return bad("is_compare", x, y);
  return true;
}
// sqrt of an exact sum of squares, with the inexact tail kept as a sticky bit
uint16_t RefHypot(uint16_t x, uint16_t y, uint16_t z) {
  __int128 sum = 0;
  for (auto q : {x, y, z}) {
    auto v = static_cast<__int128>(std::fabs(Val(q)) * 33554432.0L);  // 2^25
    sum += v * v;
  }
  auto r = static_cast<__int128>(std::sqrt(static_cast<LD>(sum)));
  while (r * r > sum) r--;
  while ((r + 1) * (r + 1) <= sum) r++;
  LD v = static_cast<LD>(r) / 33554432.0L;
  if (r * r != sum) v += std::ldexp(1.0L, -30);
  return FromLD(v);
}
bool CheckPairMore(Case& c, uint16_t x, uint16_t y) {
  half a = Make(x), b = Make(y);
  LD va = Val(x), vb = Val(y);
  bool nan = IsNan(x) || IsNan(y);
  auto same = [](uint16_t g, uint16_t w) { return g == w || (IsNan(g) && IsNan(w)); };
  auto bad = [&](const char* what, uint16_t got, uint16_t want) {
    Fail(c, fmt::format("half:{}", what), fmt::format("{}({}, {}) = {} want {}", what, Show(x), Show(y), Show(got), Show(want)));
    return false;
  };
  const uint16_t kNaN = 0x7fff;
  TWO("fmod", hf::fmod(a, b), nan ? kNaN : FromLD(std::fmod(va, vb)));
  TWO("remainder", hf::remainder(a, b), nan ? kNaN : FromLD(std::remainder(va, vb)));
  {
    int q = 0, rq = 0;
    uint16_t got = Bits(hf::remquo(a, b, &q));
    LD r = std::remquo(va, vb, &rq);
    if (!same(got, nan ? kNaN : FromLD(r))) return bad("remquo", got, FromLD(r));
    if (!nan && std::isfinite(va) && vb != 0 && std::isfinite(vb) && va != 0) {
      if ((q & 7) != (rq & 7) && ((-q) & 7) != ((-rq) & 7)) return bad("remquo_quotient", q, rq);
    }
  }
  TWO("fdim", hf::fdim(a, b), nan ? kNaN : va > vb ? FromLD(va - vb) : 0);
  {
    // with a zero of either sign, either zero may be chosen
    uint16_t mx = Bits(hf::fmax(a, b)), mn = Bits(hf::fmin(a, b));
    LD wx = std::fmax(va, vb), wn = std::fmin(va, vb);
    bool sn = false;
    for (auto q : {x, y}) sn |= IsNan(q) && !(q & 0x200);  // signaling
    if (!sn) {
      if (std::isnan(wx) ? !IsNan(mx) : Val(mx) != wx) return bad("fmax", mx, FromLD(wx));
      if (std::isnan(wn) ? !IsNan(mn) : Val(mn) != wn) return bad("fmin", mn, FromLD(wn));
    }
  }
  {
    uint16_t got = Bits(hf::copysign(a, b));
    uint16_t want = (x & 0x7fff) | (y & 0x8000);
    if (got != want) return bad("copysign", got, want);
  }
  {
    uint16_t got = Bits(hf::nextafter(a, b));
    uint16_t want;
    if (nan) want = kNaN;
    else if (va == vb) want = y;
    else if ((x & 0x7fff) == 0) want = (y & 0x8000) | 1;
    else want = (va < vb) == !(x & 0x8000) ? x + 1 : x - 1;
    if (!same(got, want)) return bad("nextafter", got, want);
    got = Bits(hf::nexttoward(a, vb));
    if (!same(got, want) && !(va == vb && Val(got) == vb)) return bad("nexttoward", got, want);
  }
  if (std::isnan(va) && std::isnan(vb)) return true;
  auto near = [&](const char* nm, uint16_t got, LD ref, int tol) {
    uint16_t want = FromLD(ref);
    if (IsNan(want) || IsNan(got) ? IsNan(want) && IsNan(got) : got == want || Ulp(got, want) <= tol) {
      int d = IsNan(want) ? 0 : Ulp(got, want);
      if (d) Count(fmt::format("{} off by {}", nm, d));
      return true;
    }
    return bad(nm, got, want);
  };
  bool sn = false;
  for (auto q : {x, y}) sn |= IsNan(q) && !(q & 0x200);
  if (!sn) {
    if (!near("atan2", Bits(hf::atan2(a, b)), std::atan2(va, vb), 1)) return false;
    uint16_t hy = Bits(hf::hypot(a, b));
    bool fin = std::isfinite(Val(x)) && std::isfinite(Val(y));
    if (!fin && !near("hypot", hy, std::hypot(va, vb), 0)) return false;
    if (fin && hy != RefHypot(x, y, 0)) return bad("hypot", hy, RefHypot(x, y, 0));
    if (!near("pow", Bits(hf::pow(a, b)), std::pow(va, vb), 1)) return false;
  }
  return true;
}
uint16_t Interesting(Rng& g, uint16_t near) {
  switch (g.below(8)) {
    case 0: {
      static const uint16_t k[] = {0, 0x8000, 1, 0x8001, 0x3ff, 0x400, 0x401, 0x3c00, 0xbc00, 0x7bff, 0xfbff, 0x7c00, 0xfc00, 0x7e00, 0x7c01, 0x3bff, 0x3c01, 0x4000};
      return k[g.below(18)];
    }
    case 1: return near + g.range(-3, 3);
    case 2: return (near ^ 0x8000) + g.range(-2, 2);
    case 3: return (near + g.range(-12, 12) * 1024) ^ (g.chance(50) ? 0x8000 : 0);
    case 4: return (near & 0xfc00) | (g.u64() & 1023);
    default: return g.u64();
  }
}
void Pairs(Case& c) {
  auto& g = c.rng;
  for (int t = 0; t < 3000; t++) {
    uint16_t x = g.u64();
    if (g.chance(20)) x = Interesting(g, 0x3c00);
    uint16_t y = Interesting(g, x);
    if ((t & 63) == 0) Describe(c, fmt::format("pair {} {}", Show(x), Show(y)));
    if (!CheckPair(c, x, y) || !CheckPairMore(c, x, y)) return;
    uint16_t z = Interesting(g, Bits(Make(x) * Make(y)));
    if (g.chance(40)) z = Bits(-(Make(x) * Make(y))) + g.range(-1, 1);
    uint16_t got = Bits(hf::fma(Make(x), Make(y), Make(z)));
    bool nan = IsNan(x) || IsNan(y) || IsNan(z);
    uint16_t want = nan ? 0x7fff : RefFma(x, y, z);
    if (!(got == want || (IsNan(got) && IsNan(want)))) return Fail(c, "half:fma", fmt::format("fma({}, {}, {}) = {} want {}", Show(x), Show(y), Show(z), Show(got), Show(want)));
    // exponent scaling
    int e = g.chance(80) ? g.range(-45, 45) : g.range(-70000, 70000);
    LD sv = std::ldexp(Val(x), std::max(-200, std::min(200, e)));
    uint16_t sw = IsNan(x) ? 0x7fff : FromLD(sv);
    for (int q = 0; q < 3; q++) {
      uint16_t s = Bits(q == 0 ? hf::ldexp(Make(x), e) : q == 1 ? hf::scalbn(Make(x), e) : hf::scalbln(Make(x), e));
      if (!(s == sw || (IsNan(s) && IsNan(sw)))) return Fail(c, "half:ldexp", fmt::format("ldexp({}, {}) = {} want {}", Show(x), e, Show(s), Show(sw)));
    }
    if (g.chance(30)) {
      uint16_t h3 = Bits(hf::hypot(Make(x), Make(y), Make(z)));
      if (!nan && std::isfinite(Val(x)) && std::isfinite(Val(y)) && std::isfinite(Val(z))) {
        uint16_t w3 = RefHypot(x, y, z);
        if (Ulp(h3, w3) > 0) return Fail(c, "half:hypot3", fmt::format("hypot({}, {}, {}) = {} want {}", Show(x), Show(y), Show(z), Show(h3), Show(w3)));
      }
    }
  }
  Count("operand pairs", 3000);
  Cover(fmt::format("pairs/{}", c.index % 100000));
}
// thorough: one row of the full table
void Row(Case& c) {
  uint16_t x = static_cast<uint16_t>((c.index % 10000000) * 40503);
  Describe(c, "all pairs with " + Show(x));
  for (uint32_t y = 0; y < 65536; y++) {
    if (!CheckPair(c, x, static_cast<uint16_t>(y))) return;
  }
  Count("operand pairs", 65536);
  Cover(fmt::format("row/{}", x));
}
void Misc(Case& c) {
  for (int t = 0; t < 200000; t++) {       // the two references agree
    double v = Table()[c.rng.u64() & 0xffff] * Table()[c.rng.u64() & 0xffff];
    if (c.rng.chance(50)) v += Table()[c.rng.u64() & 0xffff];
    uint16_t x = FromD(v), y = FromLD(v);
    if (x != y && !(IsNan(x) && IsNan(y))) throw std::runtime_error("reference");
  }

  using L = std::numeric_limits<half>;
  Describe(c, "constants and literals");
  auto chk = [&](const char* n, half h, uint16_t w) {
    if (Bits(h) != w) Fail(c, fmt::format("half:limits:{}", n), fmt::format("{} want {}", Show(Bits(h)), Show(w)));
  };
  chk("min", L::min(), 0x0400);
  chk("lowest", L::lowest(), 0xfbff);
  chk("max", L::max(), 0x7bff);
  chk("epsilon", L::epsilon(), 0x1400);
  chk("inf", L::infinity(), 0x7c00);
  chk("denorm", L::denorm_min(), 0x0001);
  chk("round_error", L::round_error(), 0x3800);
  chk("default", half(), 0);
  if (!IsNan(Bits(L::quiet_NaN())) || !IsNan(Bits(L::signaling_NaN())) || !IsNan(Bits(hf::nanh("7")))) Fail(c, "half:limits:nan", "");
  if (L::digits != 11 || L::digits10 != 3 || L::max_digits10 != 5 || L::radix != 2 || L::min_exponent != -13 || L::max_exponent != 16 || L::min_exponent10 != -4 || L::max_exponent10 != 4 || !L::is_iec559 || !L::has_infinity || L::round_style != std::round_to_nearest) Fail(c, "half:limits:traits", "");
  using namespace half_float::literal;
  chk("literal", 1.5_h, 0x3e00);
  chk("literal_big", 65504.0_h, 0x7bff);
  chk("literal_tie", 2049.0_h, 0x6800);
  Count("constants", 12);
  Cover("misc");
}
}  // namespace

int main(int argc, char** argv) {
  size_t nu = Unaries().size();
  return Main(argc, argv,
              {{"unary", nu * 16, nu * 16, [](Case& c) { UnaryBlock(c, (c.index % 10000000) / 16, c.index % 16); }},
               {"convert", 16, 16, [](Case& c) { Convert(c, c.index % 16); }},
               {"tohalf", 120, 3000, ToHalf},
               {"pairs", 900, 20000, Pairs},
               {"rows", 200, 65536, Row},
               {"misc", 1, 1, Misc}});
}
