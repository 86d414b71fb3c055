// C15: correlated randomness is correct and fresh, whichever dealer made it.
#include <algorithm>
#include <list>
#include <set>

#include "brpc/brpc_shim.h"
#include "tv.h"
#include "yacl/crypto/key_utils.h"

#include "libspu/kernel/hal/polymorphic.h"
#include "libspu/kernel/hal/ring.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.h"
#include "libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.h"
#include "libspu/mpc/spdz2k/beaver/beaver_tfp.h"
#include "libspu/mpc/spdz2k/beaver/beaver_tinyot.h"
using namespace spu;
using namespace vh;
namespace s2k = spu::mpc::semi2k;
namespace sp = spu::mpc::spdz2k;
namespace hal = spu::kernel::hal;
using spu::mpc::ElementType;

namespace {
using Lctx = std::shared_ptr<yacl::link::Context>;

struct Ttp {
  std::unique_ptr<brpc::Server> server;
  std::string host;
};
Ttp& Server(bool wrong_key = false) {
  auto make = [](const char* suffix) {
    Ttp t;
    s2k::beaver::ttp_server::ServerOptions o;
    o.port = 0;
    o.asym_crypto_schema = "sm2";
    auto sk = yacl::crypto::GenSm2KeyPairToPemBuf().second;
    std::string s(sk.data<char>(), sk.size());
    s += suffix;
    o.server_private_key = yacl::Buffer(s);
    t.server = s2k::beaver::ttp_server::RunServer(o);
    t.host = fmt::format("127.0.0.1:{}", t.server->listen_address().port);
    return t;
  };
  static Ttp good = make(""), bad = make("x");
  return wrong_key ? bad : good;
}

enum Kind { kMul, kMulPriv, kSquare, kDot, kAnd, kTrunc, kTruncPr, kRandBit, kPerm, kEqz, kKinds };
const char* kNames[] = {"Mul", "MulPriv", "Square", "Dot", "And", "Trunc", "TruncPr", "RandBit", "PermPair", "Eqz"};

struct Op {
  Kind kind;
  FieldType f;
  bool gfmp = false;
  int64_t n = 1, m = 1, k = 1;  // size, or Dot m x k . k x n
  int64_t bits = 1;
  size_t perm_rank = 0;
  int who = 0;                 // which of the spawned dealers
  int xs = -1, ys = -1;        // replay slots
  int xmode = 0, ymode = 0;    // 1 first use, 2 replay, 3 transposed replay
};

struct SlotInfo { FieldType f; int64_t rows, cols; bool gfmp; int kind; };

std::string OpText(const Op& o) {
  std::string s = fmt::format("{}/{}{}", kNames[o.kind], FieldName(o.f), o.gfmp ? "p" : "");
  s += o.kind == kDot ? fmt::format("({}x{}x{})", o.m, o.k, o.n) : fmt::format("({})", o.n);
  if (o.kind == kTrunc || o.kind == kTruncPr) s += fmt::format(">>{}", o.bits);
  if (o.xs >= 0) s += fmt::format(" x:{}{}", o.xs, "?irt"[o.xmode]);
  if (o.ys >= 0) s += fmt::format(" y:{}{}", o.ys, "?irt"[o.ymode]);
  if (o.who) s += fmt::format(" @{}", o.who);
  return s;
}

uint128_t Prime(FieldType f) { return Mask(f == FM32 ? 31 : f == FM64 ? 61 : 127); }
uint128_t MulMod(uint128_t a, uint128_t b, uint128_t p) {
  // double and add; p is a Mersenne prime below 2^127
  if (p < (uint128_t(1) << 62)) return a * b % p;
  uint128_t r = 0;
  a %= p;
  while (b) {
    if (b & 1) { r += a; if (r >= p) r -= p; }
    a += a;
    if (a >= p) a -= p;
    b >>= 1;
  }
  return r;
}

Vec FromBuf(const yacl::Buffer& b, size_t w) {
  Vec v(b.size() / w, 0);
  for (size_t i = 0; i < v.size(); i++) std::memcpy(&v[i], b.data<uint8_t>() + i * w, w);
  return v;
}

struct OpOut {
  std::vector<Vec> parts;
  std::vector<int64_t> perm;
  bool has_perm = false;
};

std::vector<OpOut> RunOps(std::unique_ptr<s2k::Beaver> root, const std::vector<Op>& ops, int nspawn, int nslots) {
  std::vector<std::unique_ptr<s2k::Beaver>> bs;
  bs.push_back(std::move(root));
  for (int i = 0; i < nspawn; i++) bs.push_back(bs[i / 2]->Spawn());
  std::vector<s2k::Beaver::ReplayDesc> slots(nslots);
  std::vector<OpOut> out;
  for (auto& o : ops) {
    auto& b = *bs[o.who];
    auto et = o.gfmp ? ElementType::kGfmp : ElementType::kRing;
    std::list<s2k::Beaver::ReplayDesc> copies;
    auto desc = [&](int slot, int mode) -> s2k::Beaver::ReplayDesc* {
      if (slot < 0) return nullptr;
      if (mode == 1) {
        slots[slot].status = s2k::Beaver::Init;
        return &slots[slot];
      }
      copies.push_back(slots[slot]);
      copies.back().status = mode == 2 ? s2k::Beaver::Replay : s2k::Beaver::TransposeReplay;
      return &copies.back();
    };
    OpOut r;
    const size_t w = SizeOf(o.f);
    auto put = [&](const yacl::Buffer& buf, int64_t n, size_t ew) {
      if (buf.size() != static_cast<int64_t>(n * ew)) SPU_THROW("{}: {} bytes instead of {}", OpText(o), buf.size(), n * ew);
      r.parts.push_back(FromBuf(buf, ew));
    };
    switch (o.kind) {
      case kMul: {
        auto [x, y, z] = b.Mul(o.f, o.n, desc(o.xs, o.xmode), desc(o.ys, o.ymode), et);
        put(x, o.n, w), put(y, o.n, w), put(z, o.n, w);
        break;
      }
      case kMulPriv: {
        auto [x, z] = b.MulPriv(o.f, o.n, et);
        put(x, o.n, w), put(z, o.n, w);
        break;
      }
      case kSquare: {
        auto [x, z] = b.Square(o.f, o.n, desc(o.xs, o.xmode));
        put(x, o.n, w), put(z, o.n, w);
        break;
      }
      case kDot: {
        auto [x, y, z] = b.Dot(o.f, o.m, o.n, o.k, desc(o.xs, o.xmode), desc(o.ys, o.ymode));
        put(x, o.m * o.k, w), put(y, o.k * o.n, w), put(z, o.m * o.n, w);
        break;
      }
      case kAnd: {
        auto [x, y, z] = b.And(o.n);
        put(x, o.n, 1), put(y, o.n, 1), put(z, o.n, 1);
        break;
      }
      case kTrunc: {
        auto [x, y] = b.Trunc(o.f, o.n, o.bits);
        put(x, o.n, w), put(y, o.n, w);
        break;
      }
      case kTruncPr: {
        auto [x, y, z] = b.TruncPr(o.f, o.n, o.bits);
        put(x, o.n, w), put(y, o.n, w), put(z, o.n, w);
        break;
      }
      case kRandBit: {
        auto x = b.RandBit(o.f, o.n);
        put(x, o.n, w);
        break;
      }
      case kPerm: {
        auto [x, y, pi] = b.PermPair(o.f, o.n, o.perm_rank);
        put(x, o.n, w), put(y, o.n, w);
        r.perm.assign(pi.begin(), pi.end());
        r.has_perm = !pi.empty();
        break;
      }
      case kEqz: {
        auto [x, y] = b.Eqz(o.f, o.n);
        put(x, o.n, w), put(y, o.n, w);
        break;
      }
      default:
        break;
    }
    out.push_back(std::move(r));
  }
  return out;
}

Vec Combine(const std::vector<const Vec*>& sh, int how, uint128_t mask, uint128_t p) {
  Vec r = *sh[0];
  for (size_t i = 1; i < sh.size(); i++)
    for (size_t j = 0; j < r.size(); j++) {
      const uint128_t a = r[j], b = (*sh[i])[j];
      if (how == 1) r[j] = a ^ b;
      else if (how == 2) r[j] = p ? MulMod(a, b, p) : (a * b) & mask;
      else if (p) { uint128_t s = a + b; r[j] = s >= p ? s - p : s; }
      else r[j] = (a + b) & mask;
    }
  return r;
}

std::string Judge(const Op& o, size_t npc, const std::vector<const OpOut*>& by) {
  const size_t B = FieldBits(o.f);
  const uint128_t M = o.kind == kAnd ? 0xff : Mask(B);
  const uint128_t p = o.gfmp ? Prime(o.f) : 0;
  auto part = [&](size_t i, int how) {
    std::vector<const Vec*> sh;
    for (auto* b : by) sh.push_back(&b->parts[i]);
    return Combine(sh, how, M, p);
  };
  if (p)
    for (size_t q = 0; q < npc; q++)
      for (auto& v : by[q]->parts)
        for (auto e : v)
          if (e >= p) return fmt::format("party {}: {} is not reduced", q, Hex(e));
  auto cmp = [&](const Vec& got, const Vec& want, const char* what) -> std::string {
    for (size_t i = 0; i < got.size(); i++)
      if (got[i] != want[i]) return fmt::format("{}: element {} of {} is {} instead of {}", what, i, got.size(), Hex(got[i]), Hex(want[i]));
    return "";
  };
  Vec want;
  switch (o.kind) {
    case kMul: {
      auto a = part(0, 0), b = part(1, 0), c = part(2, 0);
      for (size_t i = 0; i < a.size(); i++) want.push_back(p ? MulMod(a[i], b[i], p) : (a[i] * b[i]) & M);
      return cmp(c, want, "c = a * b");
    }
    case kMulPriv: {
      auto ab = part(0, 2), c = part(1, 0);
      return cmp(c, ab, "c = a * b");
    }
    case kSquare: {
      auto a = part(0, 0), b = part(1, 0);
      for (auto v : a) want.push_back((v * v) & M);
      return cmp(b, want, "b = a * a");
    }
    case kDot: {
      auto a = part(0, 0), b = part(1, 0), c = part(2, 0);
      for (int64_t i = 0; i < o.m; i++)
        for (int64_t j = 0; j < o.n; j++) {
          uint128_t s = 0;
          for (int64_t t = 0; t < o.k; t++) s += a[i * o.k + t] * b[t * o.n + j];
          want.push_back(s & M);
        }
      return cmp(c, want, "c = a . b");
    }
    case kAnd: {
      auto a = part(0, 1), b = part(1, 1), c = part(2, 1);
      for (size_t i = 0; i < a.size(); i++) want.push_back(a[i] & b[i]);
      return cmp(c, want, "c = a & b");
    }
    case kTrunc: {
      auto r = part(0, 0), t = part(1, 0);
      for (auto v : r) want.push_back(static_cast<uint128_t>(Signed(v, B) >> o.bits) & M);
      return cmp(t, want, "t = r >> bits");
    }
    case kTruncPr: {
      auto r = part(0, 0), t = part(1, 0), msb = part(2, 0);
      Vec wm;
      for (auto v : r) {
        want.push_back((v & Mask(B - 1)) >> o.bits);
        wm.push_back(v >> (B - 1));
      }
      auto m = cmp(t, want, "rc = (r mod 2^(k-1)) >> bits");
      return m.empty() ? cmp(msb, wm, "rb = msb(r)") : m;
    }
    case kRandBit: {
      auto r = part(0, 0);
      size_t ones = 0;
      for (auto v : r) {
        if (v > 1) return fmt::format("a random bit is {}", Hex(v));
        ones += v;
      }
      if (r.size() >= 128 && (ones == 0 || ones == r.size())) return "the random bits are all the same";
      return "";
    }
    case kPerm: {
      auto a = part(0, 0), b = part(1, 0);
      for (size_t q = 0; q < npc; q++)
        if (by[q]->has_perm != (q == o.perm_rank)) return fmt::format("party {} {} the permutation", q, by[q]->has_perm ? "learns" : "lacks");
      auto& pi = by[o.perm_rank]->perm;
      if (static_cast<int64_t>(pi.size()) != o.n) return "the permutation has another size";
      std::vector<char> seen(o.n, 0);
      for (auto x : pi) {
        if (x < 0 || x >= o.n || seen[x]) return "not a permutation";
        seen[x] = 1;
      }
      want.resize(o.n);
      for (int64_t i = 0; i < o.n; i++) want[pi[i]] = a[i];
      return cmp(b, want, "b = inverse permutation of a");
    }
    case kEqz:
      return cmp(part(1, 1), part(0, 0), "xor of the second = sum of the first");
    default:
      return "";
  }
}

// The masks (everything drawn before the adjusted part) are fresh unless replay was asked for.
std::string Freshness(const std::vector<Op>& ops, const std::vector<OpOut>& mine) {
  std::set<std::pair<std::string, std::string>> dummy;
  // 16-byte windows at the start of every fresh draw
  std::map<std::string, std::string> seen;
  auto add = [&](const Vec& v, size_t w, const std::string& what) -> std::string {
    if (v.size() * w < 16) return "";
    std::string k;
    for (size_t i = 0; i * w < 16; i++) k.append(reinterpret_cast<const char*>(&v[i]), w);
    k.resize(16);
    auto [it, fresh] = seen.emplace(k, what);
    if (!fresh) return fmt::format("{} and {} start with the same random elements", it->second, what);
    return "";
  };
  for (size_t i = 0; i < ops.size(); i++) {
    auto& o = ops[i];
    const size_t w = o.kind == kAnd ? 1 : SizeOf(o.f);
    auto& ps = mine[i].parts;
    for (size_t j = 0; j < ps.size(); j++) {
      int mode = j == 0 ? o.xmode : j == 1 && o.kind != kSquare ? o.ymode : 0;
      // a transposed replay is only a replay for Dot
      if (mode == 3 && o.kind != kDot) mode = 0;
      if (mode >= 2) continue;
      auto m = add(ps[j], w, fmt::format("part {} of #{} {}", j, i, OpText(o)));
      if (!m.empty()) return m;
    }
  }
  return "";
}

std::vector<Op> GenOps(Rng& g, size_t npc, int len, int64_t max, int nspawn, std::vector<SlotInfo>& slots) {
  std::vector<Op> ops;
  auto size = [&] { return g.chance(20) ? 1 + static_cast<int64_t>(g.below(3)) : 1 + static_cast<int64_t>(g.below(max)); };
  while (static_cast<int>(ops.size()) < len) {
    Op o;
    o.kind = static_cast<Kind>(g.chance(35) ? g.pick(std::vector<int>{kMul, kDot, kSquare}) : g.below(kKinds));
    if (o.kind == kMulPriv && npc != 2) continue;
    o.f = g.pick(std::vector<FieldType>{FM32, FM64, FM128});
    o.n = size();
    o.gfmp = (o.kind == kMul || o.kind == kMulPriv) && g.chance(30);
    o.bits = 1 + g.below(FieldBits(o.f) - 2);
    o.perm_rank = g.below(npc);
    o.who = g.below(nspawn + 1);
    if (o.kind == kDot) {
      o.m = 1 + g.below(12), o.n = 1 + g.below(12), o.k = 1 + g.below(12);
    }
    auto use = [&](int64_t rows, int64_t cols, int& slot, int& mode, bool y) {
      // rows x cols is what this operand must be
      if (g.chance(35)) return;
      std::vector<std::pair<int, int>> c;
      for (size_t s = 0; s < slots.size(); s++) {
        auto& t = slots[s];
        if (t.f != o.f || t.gfmp != o.gfmp) continue;
        if (o.kind == kDot) {
          if (t.kind != kDot) continue;
          if (t.rows == rows && t.cols == cols) c.push_back({s, 2});
          if (t.rows == cols && t.cols == rows) c.push_back({s, 3});
        } else if (t.rows * t.cols == rows * cols) {
          c.push_back({s, g.chance(85) ? 2 : 3});
        }
      }
      if (!c.empty() && g.chance(70)) {
        auto [s, m] = g.pick(c);
        // fresh for the first part may not be asked of an operand that the other part fills now
        slot = s, mode = m;
        return;
      }
      slots.push_back({o.f, rows, cols, o.gfmp, o.kind});
      slot = slots.size() - 1, mode = 1;
      (void)y;
    };
    if (o.kind == kDot) {
      // shapes that fit an earlier operand, often
      if (!slots.empty() && g.chance(60)) {
        auto& t = slots[g.below(slots.size())];
        if (t.kind == kDot) {
          o.f = t.f;
          int64_t r = t.rows, q = t.cols;
          if (g.chance(50)) std::swap(r, q);
          if (g.chance(50)) o.m = r, o.k = q;
          else o.k = r, o.n = q;
        }
      }
      use(o.m, o.k, o.xs, o.xmode, false);
      int before = o.xs;
      use(o.k, o.n, o.ys, o.ymode, true);
      // an operand just created is not also the other operand of the same request
      if (o.xmode == 1 && o.ys == before && o.ys >= 0) o.ys = -1, o.ymode = 0;
    } else if (o.kind == kMul || o.kind == kSquare) {
      if (!slots.empty() && g.chance(60)) {
        auto& t = slots[g.below(slots.size())];
        if (t.kind != kDot && (!t.gfmp || o.kind == kMul)) o.f = t.f, o.n = t.rows * t.cols, o.gfmp = t.gfmp;
      }
      use(o.n, 1, o.xs, o.xmode, false);
      if (o.kind == kMul) {
        int before = o.xs;
        use(o.n, 1, o.ys, o.ymode, true);
        if (o.xmode == 1 && o.ys == before && o.ys >= 0) o.ys = -1, o.ymode = 0;
      }
    }
    ops.push_back(o);
  }
  return ops;
}

// returns false if the case ended
bool JudgeAll(Case& c, const std::string& key, size_t npc, const std::vector<Op>& ops, const std::vector<SlotInfo>& slots, const MpcRes<std::vector<OpOut>>& r) {
  for (size_t i = 0; i < ops.size(); i++) {
    std::vector<const OpOut*> by;
    for (size_t q = 0; q < npc; q++) by.push_back(&(*r.out[q])[i]);
    auto m = Judge(ops[i], npc, by);
    Count("relations checked", by[0]->parts[0].size());
    if (!m.empty()) {
      Fail(c, fmt::format("{}:{}", key, kNames[ops[i].kind]), fmt::format("#{} {}: {}", i, OpText(ops[i]), m));
      return false;
    }
  }
  for (size_t q = 0; q < npc; q++) {
    auto& mine = *r.out[q];
    auto m = Freshness(ops, mine);
    if (!m.empty()) {
      Fail(c, key + ":reused", fmt::format("party {}: {}", q, m));
      return false;
    }
    // replays give what was given before
    std::map<int, const Vec*> first;
    for (size_t i = 0; i < ops.size(); i++) {
      auto& o = ops[i];
      for (int j = 0; j < 2; j++) {
        int s = j ? o.ys : o.xs, mode = j ? o.ymode : o.xmode;
        if (s < 0) continue;
        auto& v = mine[i].parts[j];
        if (mode == 1) { first[s] = &v; continue; }
        if (mode == 3 && o.kind != kDot) continue;
        Vec want = *first.at(s);
        if (mode == 3) {
          Vec t(want.size());
          for (int64_t a = 0; a < slots[s].rows; a++)
            for (int64_t b = 0; b < slots[s].cols; b++) t[b * slots[s].rows + a] = want[a * slots[s].cols + b];
          want = t;
        }
        Count("replays compared");
        if (v != want) {
          Fail(c, key + ":replay", fmt::format("party {}: #{} {}: the replayed operand {} differs from the first one", q, i, OpText(o), j));
          return false;
        }
      }
    }
  }
  return true;
}

std::unique_ptr<s2k::Beaver> MakeTtp(const Lctx& l, size_t adjust, bool wrong_key = false) {
  s2k::BeaverTtp::Options o;
  o.server_host = Server(wrong_key).host;
  o.asym_crypto_schema = "SM2";
  auto pk = yacl::crypto::GenSm2KeyPairToPemBuf().first;
  o.server_public_key = pk;
  o.adjust_rank = adjust;
  return std::make_unique<s2k::BeaverTtp>(l, std::move(o));
}

void DealCase(Case& c, bool ttp) {
  auto& g = c.rng;
  const size_t npc = 2 + g.below(3);
  const int nspawn = g.chance(40) ? 1 + g.below(3) : 0;
  std::vector<SlotInfo> slots;
  auto ops = GenOps(g, npc, 4 + g.below(14), g.chance(20) ? 700 : 40, nspawn, slots);
  const size_t adjust = g.below(npc);
  std::string d = fmt::format("{} parties, {} spawned, dealer {}:", npc, nspawn, ttp ? fmt::format("third party, adjusted by {}", adjust) : "first party");
  for (auto& o : ops) d += " " + OpText(o) + ";";
  Describe(c, d);
  MpcOpt o;
  o.npc = npc;
  o.seed = c.seed;
  o.jitter = g.u64();
  brpc::shim::g_split_seed = ttp ? g.u64() : 0;
  auto key = std::string(ttp ? "ttp" : "tfp");
  auto r = RunLink(o, [&](const Lctx& l, size_t) {
    std::unique_ptr<s2k::Beaver> b;
    if (ttp) b = MakeTtp(l, adjust);
    else b = std::make_unique<s2k::BeaverTfpUnsafe>(l);
    return RunOps(std::move(b), ops, nspawn, slots.size());
  });
  if (!CheckOk(c, r, key)) return;
  if (!JudgeAll(c, key, npc, ops, slots, r)) return;
  for (auto& o2 : ops) Cover(fmt::format("{}/{}/{}{}/{}{}/{}", key, kNames[o2.kind], FieldName(o2.f), o2.gfmp ? "p" : "", o2.xmode, o2.ymode, npc));
}

// Longer than the dealer's pieces of 32 MB.
void LargeCase(Case& c) {
  auto& g = c.rng;
  const auto k = c.index % 10000000;
  const Kind kinds[] = {kTruncPr, kMul, kAnd, kTrunc, kSquare, kRandBit, kEqz, kMulPriv, kPerm};
  Op o;
  o.kind = kinds[k % 9];
  o.f = g.chance(60) || o.kind == kPerm ? FM128 : FM64;
  o.gfmp = o.kind == kMul && k / 9 % 2;
  o.n = (int64_t(32) << 20) / SizeOf(o.f) * (o.kind == kPerm ? 1 : 1 + static_cast<int64_t>(g.below(2))) + 1 + g.below(100000);
  if (o.kind == kAnd) o.n = (int64_t(32) << 20) + 1 + g.below(1000000);
  o.bits = 1 + g.below(FieldBits(o.f) - 2);
  Describe(c, OpText(o));
  MpcOpt mo;
  mo.npc = 2;
  mo.seed = c.seed;
  brpc::shim::g_split_seed = 0;
  std::vector<Op> ops{o};
  auto r = RunLink(mo, [&](const Lctx& l, size_t) { return RunOps(MakeTtp(l, 1), ops, 0, 0); });
  if (!CheckOk(c, r, "ttp-large")) return;
  if (!JudgeAll(c, "ttp-large", 2, ops, {}, r)) return;
  Cover(fmt::format("ttp-large/{}/{}{}", kNames[o.kind], FieldName(o.f), o.gfmp ? "p" : ""));
}

// What the adjusting party is told is damaged: it must say so, never use it.
void FaultCase(Case& c) {
  auto& g = c.rng;
  const size_t npc = 2 + g.below(2);
  std::vector<SlotInfo> slots;
  auto ops = GenOps(g, npc, 1, 60, 0, slots);
  const int fault = g.below(6);
  const char* names[] = {"cut", "more", "flag", "error", "wrong key", "chunk length"};
  Describe(c, fmt::format("{}: {}", OpText(ops[0]), names[fault]));
  MpcOpt o;
  o.npc = npc;
  o.seed = c.seed;
  // others wait for nobody but the permutation's broadcast
  brpc::shim::g_split_seed = g.chance(50) ? g.u64() : 0;
  const uint64_t at = g.u64();
  {
    std::lock_guard<std::mutex> lk(brpc::shim::g_mu);
    brpc::shim::g_on_response = [&](std::string& b) {
      switch (fault) {
        case 0: b.resize(at % b.size()); break;
        case 1: b += std::string(1 + at % 40, static_cast<char>(at >> 32)); break;
        case 2: b[0] = static_cast<char>(3 + at % 250); break;
        case 3: {
          std::string m = "broken";
          int64_t n = m.size();
          b.assign(1, static_cast<char>(2));
          b.append(reinterpret_cast<const char*>(&n), 8);
          b += m;
          break;
        }
        case 5: {
          int64_t n;
          std::memcpy(&n, b.data() + 1, 8);
          n += at % 2 ? 1 + at % 100000 : -1 - static_cast<int64_t>(at % 1000000);
          std::memcpy(b.data() + 1, &n, 8);
          break;
        }
        default: break;
      }
    };
  }
  const size_t adjust = g.below(npc);
  auto r = RunLink(o, [&](const Lctx& l, size_t) { return RunOps(MakeTtp(l, adjust, fault == 4), ops, 0, slots.size()); });
  {
    std::lock_guard<std::mutex> lk(brpc::shim::g_mu);
    brpc::shim::g_on_response = nullptr;
  }
  if (r.world->timed_out()) return Inconclusive(c, "watchdog");
  Count("damaged answers");
  if (r.err[adjust].empty() && fault == 5 && r.ok()) {
    // a length that nobody needs changes nothing
    if (!JudgeAll(c, "fault:chunk length", npc, ops, slots, r)) return;
  } else if (r.err[adjust].empty()) return Fail(c, fmt::format("fault:{}", names[fault]), fmt::format("{}: the damaged answer was accepted", OpText(ops[0])));
  Cover(fmt::format("fault/{}/{}", names[fault], kNames[ops[0].kind]));
}

// ---- whole protocol with the cache of opened masks -----------------------------
void CacheCase(Case& c) {
  auto& g = c.rng;
  FieldType f = g.pick(std::vector<FieldType>{FM32, FM64, FM128});
  const size_t B = FieldBits(f);
  const size_t npc = 2 + g.below(2);
  const bool ttp = g.chance(40);
  struct Arr { Shape s; Vec v; };
  const int na = 2 + g.below(2);
  std::vector<Arr> as;
  const int64_t d0 = 1 + g.below(6);
  for (int i = 0; i < na; i++) {
    // square ones, so that everything fits everything, transposed or not
    Arr a;
    a.s = {d0, g.chance(75) ? d0 : 1 + static_cast<int64_t>(g.below(5))};
    for (int64_t k = 0; k < Numel(a.s); k++) a.v.push_back(RingVal(g, B));
    as.push_back(a);
  }
  struct St { int kind; int x, y; bool xt, yt; int64_t lo, hi; };
  std::vector<St> sts;
  std::string d = fmt::format("{} {} parties {}:", FieldName(f), npc, ttp ? "TTP" : "TFP");
  const int len = 5 + g.below(10);
  for (int i = 0; i < len; i++) {
    St s;
    s.kind = i == 0 ? 0 : g.chance(12) ? 0 : g.chance(8) ? 1 : 2 + g.below(4);  // enable disable mul mmul square slice-mul
    s.x = g.below(na), s.y = g.chance(30) ? s.x : static_cast<int>(g.below(na));
    s.xt = g.chance(30), s.yt = g.chance(30);
    auto shape = [&](int q, bool t) { auto h = as[q].s; if (t) std::swap(h[0], h[1]); return h; };
    auto hx = shape(s.x, s.xt), hy = shape(s.y, s.yt);
    if (s.kind == 2 && hx != hy) s.y = s.x, s.yt = s.xt;
    if (s.kind == 3 && hx[1] != hy[0]) s.y = s.x, s.yt = !s.xt;
    if (s.kind == 5) {
      s.y = s.x, s.xt = s.yt = false;
      s.lo = g.below(as[s.x].s[0]), s.hi = s.lo + 1 + g.below(as[s.x].s[0] - s.lo);
    }
    const char* nm[] = {"on", "off", "mul", "mmul", "sq", "slice"};
    d += fmt::format(" {}({}{},{}{})", nm[s.kind], s.x, s.xt ? "'" : "", s.y, s.yt ? "'" : "");
    sts.push_back(s);
  }
  Describe(c, d);
  MpcOpt o;
  o.cfg.protocol = SEMI2K;
  o.cfg.field = f;
  o.npc = npc;
  o.seed = c.seed;
  o.jitter = g.u64();
  o.cfg.experimental_disable_vectorization = g.chance(40);
  if (ttp) {
    o.cfg.beaver_type = RuntimeConfig::TrustedThirdParty;
    TTPBeaverConfig tc;
    tc.server_host = Server().host;
    tc.adjust_rank = g.below(npc);
    tc.asym_crypto_schema = "sm2";
    auto pk = yacl::crypto::GenSm2KeyPairToPemBuf().first;
    tc.server_public_key = std::string(pk.data<char>(), pk.size());
    o.cfg.ttp_beaver_config = std::make_shared<TTPBeaverConfig>(tc);
    brpc::shim::g_split_seed = g.u64();
  }
  std::string key = std::string("cache:") + (ttp ? "ttp" : "tfp");
  vmon::PrgLogTake();
  vmon::PrgLogEnable(true);
  auto r = RunMpc(o, [&](SPUContext* ctx, size_t) {
    std::vector<Value> vs;
    for (auto& a : as) vs.push_back(hal::_p2s(ctx, PubValue(f, a.s, a.v)));
    std::vector<Vec> out;
    for (auto& s : sts) {
      auto view = [&](int q, bool t) { return t ? hal::_transpose(ctx, vs[q], {1, 0}) : vs[q]; };
      Value z;
      if (s.kind <= 1) { dynDispatch(ctx, "beaver_cache", vs[s.x], s.kind == 0); out.push_back({}); continue; }
      if (s.kind == 2) z = spu::mpc::mul_ss(ctx, view(s.x, s.xt), view(s.y, s.yt));
      if (s.kind == 3) z = spu::mpc::mmul_ss(ctx, view(s.x, s.xt), view(s.y, s.yt));
      if (s.kind == 4) z = spu::mpc::square_s(ctx, view(s.x, s.xt));
      if (s.kind == 5) {
        auto q = hal::_extract_slice(ctx, vs[s.x], {s.lo, 0}, {s.hi, as[s.x].s[1]}, {});
        z = spu::mpc::mul_ss(ctx, q, q);
      }
      out.push_back(ReadRing(spu::mpc::s2p(ctx, z).data()));
    }
    return out;
  });
  vmon::PrgLogEnable(false);
  auto log = vmon::PrgLogTake();
  if (!CheckOk(c, r, key)) return;
  for (size_t i = 0; i < sts.size(); i++) {
    auto& s = sts[i];
    auto view = [&](int q, bool t) {
      auto& a = as[q];
      if (!t) return a.v;
      Vec w;
      for (int64_t j = 0; j < a.s[1]; j++)
        for (int64_t k = 0; k < a.s[0]; k++) w.push_back(a.v[k * a.s[1] + j]);
      return w;
    };
    auto rows = [&](int q, bool t) { return as[q].s[t ? 1 : 0]; };
    Vec want;
    auto x = view(s.x, s.xt), y = view(s.y, s.yt);
    if (s.kind == 2) for (size_t k = 0; k < x.size(); k++) want.push_back((x[k] * y[k]) & Mask(B));
    if (s.kind == 4) for (auto v : x) want.push_back((v * v) & Mask(B));
    if (s.kind == 3) {
      int64_t m = rows(s.x, s.xt), kk = rows(s.y, s.yt), n = rows(s.y, !s.yt);
      for (int64_t a = 0; a < m; a++)
        for (int64_t b = 0; b < n; b++) {
          uint128_t t = 0;
          for (int64_t k = 0; k < kk; k++) t += x[a * kk + k] * y[k * n + b];
          want.push_back(t & Mask(B));
        }
    }
    if (s.kind == 5) {
      int64_t w = as[s.x].s[1];
      for (int64_t k = s.lo * w; k < s.hi * w; k++) want.push_back((x[k] * x[k]) & Mask(B));
    }
    if (s.kind <= 1) continue;
    Count("products under the cache");
    for (size_t q = 0; q < npc; q++)
      if ((*r.out[q])[i] != want) return Fail(c, key + ":wrong", fmt::format("step {} of {}", i, d));
  }
  // A party's own stream: what is drawn twice is drawn as a replay of the same piece.
  std::map<std::tuple<int, uint128_t, uint128_t>, std::vector<vmon::PrgUse>> st;
  for (auto& u : log)
    if (u.end > u.begin && (ttp || u.party != 0)) st[{u.party, u.seed, u.iv}].push_back(u);
  for (auto& [k, v] : st) {
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return std::make_pair(a.begin, a.end) < std::make_pair(b.begin, b.end); });
    Count("streams examined");
    uint64_t end = 0, begin = 0;
    for (auto& u : v) {
      if (u.begin < end && !(u.begin == begin && u.end == end))
        return Fail(c, key + ":reused", fmt::format("party {} draws blocks [{}, {}) and [{}, {}) of the same stream", std::get<0>(k), begin, end, u.begin, u.end));
      begin = u.begin, end = u.end;
    }
  }
  for (auto& s : sts) Cover(fmt::format("{}/{}/{}/{}{}{}", key, FieldName(f), s.kind, s.x == s.y, s.xt, s.yt));
}

// ---- authenticated randomness ----------------------------------------------------
void SpdzCase(Case& c, bool tinyot) {
  auto& g = c.rng;
  FieldType f = tinyot || g.chance(70) ? g.pick(std::vector<FieldType>{FM64, FM128}) : FM64;
  const size_t B = FieldBits(f), k = B / 2, s = B / 2;
  const size_t npc = tinyot ? 2 : 2 + g.below(2);
  struct O { int kind; Shape shape; int64_t m, n, kk; int64_t bits; Vec v; };
  std::vector<O> ops;
  const int len = tinyot ? 2 + g.below(2) : 4 + g.below(8);
  std::string d = fmt::format("{} {} parties:", FieldName(f), npc);
  const char* nm[] = {"Coin", "Mul", "Dot", "And", "Trunc", "RandBit", "Auth"};
  for (int i = 0; i < len; i++) {
    O o;
    o.kind = g.below(7);
    int64_t n = 1 + g.below(tinyot ? 12 : 60);
    o.shape = n % 2 == 0 && !tinyot && g.chance(40) ? Shape{2, n / 2} : Shape{n};
    o.m = 1 + g.below(5), o.n = 1 + g.below(5), o.kk = 1 + g.below(5);
    o.bits = 1 + g.below(k - 2);
    if (o.kind == 6) for (int64_t q = 0; q < n; q++) o.v.push_back(g.u128() & Mask(B));
    d += fmt::format(" {}({})", nm[o.kind], o.kind == 2 ? fmt::format("{}x{}x{}", o.m, o.kk, o.n) : fmt::format("{}", n));
    ops.push_back(o);
  }
  Describe(c, d);
  MpcOpt o;
  o.npc = npc;
  o.seed = c.seed;
  o.jitter = g.u64();
  struct Res { uint128_t key; std::vector<std::vector<Vec>> v; };
  std::string key = tinyot ? "tinyot" : "spdz-tfp";
  auto r = RunLink(o, [&](const Lctx& l, size_t rank) {
    std::unique_ptr<sp::Beaver> b;
    if (tinyot) b = std::make_unique<sp::BeaverTinyOt>(l);
    else b = std::make_unique<sp::BeaverTfpUnsafe>(l);
    Res res;
    res.key = b->InitSpdzKey(f, s);
    for (auto& q : ops) {
      std::vector<Vec> out;
      auto put = [&](const NdArrayRef& a) { out.push_back(ReadRing(a)); };
      switch (q.kind) {
        case 0: { auto [x, m] = b->AuthCoinTossing(f, q.shape, k, s); put(x), put(m); break; }
        case 5: { auto [x, m] = b->AuthRandBit(f, q.shape, k, s); put(x), put(m); break; }
        case 1: { auto [x, m] = b->AuthMul(f, q.shape, k, s); auto [p0, p1, p2] = x; auto [m0, m1, m2] = m; put(p0), put(m0), put(p1), put(m1), put(p2), put(m2); break; }
        case 2: { auto [x, m] = b->AuthDot(f, q.m, q.n, q.kk, k, s); auto [p0, p1, p2] = x; auto [m0, m1, m2] = m; put(p0), put(m0), put(p1), put(m1), put(p2), put(m2); break; }
        case 3: { auto [x, m] = b->AuthAnd(f, q.shape, s); auto [p0, p1, p2] = x; auto [m0, m1, m2] = m; put(p0), put(m0), put(p1), put(m1), put(p2), put(m2); break; }
        case 4: { auto [x, m] = b->AuthTrunc(f, q.shape, q.bits, k, s); auto [p0, p1] = x; auto [m0, m1] = m; put(p0), put(m0), put(p1), put(m1); break; }
        case 6: {
          // additive shares of the value, the first party's share is the rest
          Vec mine = q.v;
          for (size_t i = 0; i < mine.size(); i++)
            for (size_t p = 1; p < npc; p++) {
              uint128_t h = (uint128_t(Mix(c.seed + i * 7 + p)) << 64 | Mix(c.seed * 3 + i + p * 1000)) & Mask(B);
              if (p == rank) { mine[i] = h; break; }
              if (rank == 0) mine[i] = (mine[i] - h) & Mask(B);
            }
          auto x = MakeRing(makeType<RingTy>(f), q.shape, mine);
          put(x), put(b->AuthArrayRef(x, f, k, s));
          break;
        }
        default: break;
      }
      res.v.push_back(out);
    }
    return res;
  });
  if (!CheckOk(c, r, key)) return;
  uint128_t gk = 0;
  for (auto& x : r.out) gk += x->key;
  for (size_t i = 0; i < ops.size(); i++) {
    auto& q = ops[i];
    auto fk = key + ":" + nm[q.kind];
    auto sum = [&](size_t j) {
      std::vector<const Vec*> sh;
      for (auto& x : r.out) sh.push_back(&x->v[i][j]);
      for (auto* v : sh) if (v->size() != sh[0]->size()) throw std::runtime_error("sizes differ");
      return Combine(sh, 0, Mask(B), 0);
    };
    std::vector<Vec> val;
    for (size_t j = 0; j < r.out[0]->v[i].size(); j += 2) {
      auto v = sum(j), m = sum(j + 1);
      val.push_back(v);
      Count("authenticated values checked", v.size());
      // mod 2^(k+s); the bits of And are authenticated modulo 2^(s+1) only
      const uint128_t W = q.kind == 3 ? Mask(s + 1) : Mask(B);
      for (size_t e = 0; e < v.size(); e++)
        if (((v[e] * gk) & W) != (m[e] & W)) return Fail(c, fk + ":mac", fmt::format("#{}: element {} of value {}: {} times the key is not {}", i, e, j / 2, Hex(v[e]), Hex(m[e])));
    }
    auto n = static_cast<size_t>(q.kind == 2 ? q.m * q.kk : Numel(q.shape));
    if (val[0].size() != n) return Fail(c, fk, "the wrong number of values");
    // trustworthy bits of the value
    const uint128_t V = q.kind == 0 ? Mask(k) : Mask(B);
    (void)V;
    if (q.kind == 6 && val[0] != q.v) return Fail(c, fk, "the harness shared another value");
    if (q.kind == 5) for (auto v : val[0]) if (v > 1 && (v & Mask(k)) > 1) return Fail(c, fk, fmt::format("a random bit is {}", Hex(v)));
    if (q.kind == 1) for (size_t e = 0; e < n; e++) if (((val[0][e] * val[1][e] - val[2][e]) & Mask(k)) != 0) return Fail(c, fk, "c is not a * b");
    if (q.kind == 3) for (size_t e = 0; e < n; e++) if (((val[0][e] & val[1][e]) ^ val[2][e]) & 1) return Fail(c, fk, "c is not a & b");
    if (q.kind == 2)
      for (int64_t a = 0; a < q.m; a++)
        for (int64_t b = 0; b < q.n; b++) {
          uint128_t t = 0;
          for (int64_t e = 0; e < q.kk; e++) t += val[0][a * q.kk + e] * val[1][e * q.n + b];
          if (((t - val[2][a * q.n + b]) & Mask(k)) != 0) return Fail(c, fk, fmt::format("c is not a . b at {}, {}: {} {}", a, b, Hex(t), Hex(val[2][a * q.n + b])));
        }
    if (q.kind == 4)
      for (size_t e = 0; e < n; e++) {
        auto want = static_cast<uint128_t>(Signed(val[0][e] & Mask(k), k) >> q.bits) & Mask(k);
        if ((val[1][e] & Mask(k)) != want) return Fail(c, fk, fmt::format("{} >> {} is not {}", Hex(val[0][e] & Mask(k)), q.bits, Hex(val[1][e] & Mask(k))));
      }
    Cover(fmt::format("{}/{}/{}/{}", key, FieldName(f), nm[q.kind], npc));
  }
}
}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, {
    {"bv-tfp", 1500, 30000, [](Case& c) { DealCase(c, false); }},
    {"bv-ttp", 1500, 30000, [](Case& c) { DealCase(c, true); }},
    {"bv-large", 9, 36, LargeCase},
    {"bv-fault", 600, 8000, FaultCase},
    {"bv-cache", 1500, 30000, CacheCase},
    {"bv-spdz", 500, 10000, [](Case& c) { SpdzCase(c, false); }},
    {"bv-tinyot", 60, 1000, [](Case& c) { SpdzCase(c, true); }},
  });
}
