// C16: SPDZ2K parties never accept a value changed by a tampered message.
#include <map>
#include <mutex>

#include "prog.h"

#include "libspu/mpc/spdz2k/beaver/beaver_tinyot.h"
using namespace spu;
using namespace vh;
namespace sp = spu::mpc::spdz2k;

namespace {
using Vec = std::vector<uint128_t>;

struct Sent {
  std::string tag;
  int dst;
  size_t size;
  std::string payload;
  size_t occ;
};
struct Outcome {
  std::vector<std::vector<Vec>> got;  // per party, everything it accepted
  MpcRes<int> r;
};

Outcome Exec(const Plan& p, MpcOpt o, const std::vector<int>& show) {
  Outcome out;
  out.got.resize(o.npc);
  out.r = RunMpc(o, [&](SPUContext* ctx, size_t rank) {
    std::vector<Value> v;
    for (auto& s : p.steps) {
      v.push_back(s.run(ctx, v));
      // what a step itself opens counts too
      if (v.back().isPublic()) out.got[rank].push_back(ReadRing(v.back().data()));
    }
    for (int i : show) out.got[rank].push_back(ReadRing(Reveal(ctx, v[i]).data()));
    return 1;
  });
  return out;
}

// Messages of trusted set-up and of functionalities that are stand-ins here:
// there is no protocol behind them that could notice anything.
bool Ideal(const std::string& tag) {
  static const char* skip[] = {"SYNC_SEEDS", "IDEAL", "ideal", "num_cores", "Random::PK"};
  for (auto* s : skip)
    if (tag.find(s) != std::string::npos) return true;
  return false;
}

// "KOS:17" -> "KOS"
std::string Class(const std::string& tag) {
  auto e = tag.find_last_not_of("0123456789");
  return tag.substr(0, e + 1);
}

// One lie: which messages, and what happens to their bytes.
struct Lie {
  std::string tag;
  size_t occ = 0;      // the how-manyth of its tag between the two parties
  int only_dst = -1;   // tell only one party, or all
  bool both = false;   // the liar believes it too: same change to what it gets in the same exchange
  int how = 0;
  uint64_t r1 = 0, r2 = 0;
  size_t word = 8;
  std::string older;
};
const char* kHow[] = {"bit", "low bit", "high bit", "add one", "zero", "random", "replay", "bits"};
void Apply(const Lie& l, std::string& b) {
  const size_t bits = b.size() * 8, w = l.word;
  auto flip = [&](size_t k) { b[k / 8] = static_cast<char>(b[k / 8] ^ (1 << (k % 8))); };
  switch (l.how) {
    case 0: flip(l.r1 % bits); break;
    case 1: flip((l.r1 % bits) / (w * 8) * (w * 8)); break;
    case 2: flip(bits - 1 - l.r1 % 8); break;
    case 3: {
      size_t e = l.r1 % (b.size() / std::min(b.size(), w));
      for (size_t k = e * w; k < b.size(); k++) {
        b[k] = static_cast<char>(b[k] + 1);
        if (b[k] != 0) break;
      }
      break;
    }
    case 4: std::fill(b.begin(), b.end(), 0); break;
    case 5: {
      Rng h(l.r1);
      for (auto& ch : b) ch = static_cast<char>(h.u64());
      break;
    }
    case 6: if (l.older.size() == b.size()) b = l.older; break;
    default: for (int k = 0; k < 3; k++) flip(Mix(l.r2 + k) % bits); break;
  }
}

// Sees every message of a run; the liar's are listed, or changed.
struct Liar {
  int bad;
  std::vector<Lie> lies;
  std::vector<Sent> sent;
  size_t changed = 0;
  std::map<std::tuple<int, int, std::string>, size_t> seen;
  void operator()(vmon::Msg& m, std::string& b) {
    const size_t occ = seen[{m.src, m.dst, m.tag}]++;
    if (m.src == bad) sent.push_back({m.tag, m.dst, b.size(), b, occ});
    if (b.empty()) return;
    for (auto& l : lies) {
      if (l.tag != m.tag || l.occ != occ) continue;
      const bool mine = m.src == bad && (l.only_dst < 0 || l.only_dst == m.dst);
      const bool back = l.both && m.dst == bad && m.src == (bad == 0 ? 1 : 0);
      if (!mine && !back) continue;
      std::string was = b;
      Apply(l, b);
      changed += mine && b != was;
    }
  }
};

// The messages worth lying in, by kind.
using ByTag = std::map<std::string, std::vector<size_t>>;
ByTag Targets(const std::vector<Sent>& sent) {
  ByTag r;
  for (size_t i = 0; i < sent.size(); i++)
    if (!Ideal(sent[i].tag) && sent[i].size != 0) r[Class(sent[i].tag)].push_back(i);
  return r;
}
Lie MakeLie(Rng& g, const std::vector<Sent>& sent, const ByTag& by_tag, size_t w) {
  // any kind of message, but seeds and commitments are many and dull
  auto it = by_tag.begin();
  for (int k = 0; k < 4; k++) {
    it = by_tag.begin();
    std::advance(it, g.below(by_tag.size()));
    if (it->first.find("PRSS") == std::string::npos && it->first.find("COMMIT") == std::string::npos) break;
  }
  const size_t at = it->second[g.below(it->second.size())];
  const auto& s = sent[at];
  Lie l;
  l.tag = s.tag, l.occ = s.occ;
  if (g.chance(40)) l.only_dst = s.dst;
  l.both = g.chance(50);
  const int sym[] = {0, 1, 2, 3, 1, 3};
  l.how = l.both ? sym[g.below(6)] : static_cast<int>(g.below(8));
  l.r1 = g.u64(), l.r2 = g.u64();
  l.word = g.chance(60) ? w : 1;
  for (size_t i = 0; i < at; i++)
    if (sent[i].size == s.size && sent[i].payload != s.payload && !Ideal(sent[i].tag)) l.older = sent[i].payload;
  return l;
}
std::string LieText(const Lie& l) {
  return fmt::format("'{}' in {} #{}{}{}", kHow[l.how], l.tag, l.occ, l.only_dst >= 0 ? fmt::format(" to {} only", l.only_dst) : "", l.both ? " (and believed)" : "");
}

void TamperCase(Case& c, bool tinyot) {
  auto& g = c.rng;
  Proto pr{tinyot ? "TINYOT" : "SPDZ2K", SEMI2K, tinyot ? 2UL : 2 + g.below(2), true, 25};
  const FieldType f = g.chance(50) ? FM32 : FM64;
  const int bad = tinyot ? static_cast<int>(g.below(2)) : 1 + static_cast<int>(g.below(pr.npc - 1));
  PlanOpt po;
  po.len = tinyot ? 1 : 1 + static_cast<int>(g.below(4));
  po.max_numel = tinyot ? 2 : 6;
  po.allow_empty = false;
  po.not_owner = bad;
  PlanGen gen(g, pr, f, po);
  Plan p = gen.Make();
  std::vector<int> show;
  for (size_t i = 0; i < p.nodes.size(); i++)
    if (p.nodes[i].vis == 2 && p.steps[i].op != "p2s") show.push_back(static_cast<int>(i));
  if (show.size() > 3) {
    for (size_t i = show.size() - 1; i > 0; i--) std::swap(show[i], show[g.below(i + 1)]);
    show.resize(3);
  }
  Describe(c, fmt::format("{} corrupted={}", p.text(), bad));
  auto o = OptFor(p, c.seed);
  o.npc = pr.npc;
  if (tinyot) o.cfg.beaver_type = RuntimeConfig::MultiParty;
  Liar honest{bad};
  o.on_send = std::ref(honest);
  auto ref = Exec(p, o, show);
  std::string key = std::string("tamper:") + pr.name;
  if (!CheckOk(c, ref.r, key + ":honest")) return;
  auto by_tag = Targets(honest.sent);
  if (by_tag.empty()) return;
  const int runs = tinyot ? 4 : 6;
  for (int t = 0; t < runs; t++) {
    Liar liar{bad};
    liar.lies.push_back(MakeLie(g, honest.sent, by_tag, SizeOf(f) * 2));
    // a lie and the lie that should cover it
    if (g.chance(25)) liar.lies.push_back(MakeLie(g, honest.sent, by_tag, SizeOf(f) * 2));
    const auto& l = liar.lies[0];
    auto o2 = o;
    o2.on_send = std::ref(liar);
    auto out = Exec(p, o2, show);
    if (out.r.world->timed_out()) { Inconclusive(c, "watchdog"); return; }
    if (liar.changed == 0) continue;
    Count("tampered runs");
    bool refused = false;
    for (size_t q = 0; q < pr.npc; q++) {
      if (static_cast<int>(q) == bad) continue;
      if (!out.r.err[q].empty()) refused = true;
      const auto& a = ref.got[q];
      const auto& b = out.got[q];
      for (size_t i = 0; i < b.size(); i++) {
        Count("accepted values compared");
        if (b[i] == a[i]) continue;
        return Fail(c, key + ":accepted:" + Class(l.tag), fmt::format("party {} accepted a wrong value ({}) after {} from party {} : {}", q, i, LieText(l), bad, p.text()));
      }
    }
    Count(refused ? "refused" : "harmless");
    if (std::getenv("VH_TAGS")) Count(fmt::format("{} {}", refused ? "R" : "H", Class(l.tag)));
    Cover(fmt::format("{}/{}/{}/{}/{}/{}/{}", key, pr.npc, FieldName(f), Class(l.tag), kHow[l.how], l.both, refused));
  }
}

// ---- authenticated tuples dealt by the parties themselves --------------------
void DealCase(Case& c) {
  auto& g = c.rng;
  const FieldType f = g.chance(70) ? FM64 : FM128;
  const size_t B = FieldBits(f), k = B / 2, s = B / 2;
  enum { kMul, kDot, kAnd, kTrunc, kRandBit, kAuth };
  const char* nm[] = {"Mul", "Dot", "And", "Trunc", "RandBit", "Auth"};
  const int kind = static_cast<int>(g.pick(std::vector<int>{kMul, kMul, kDot, kDot, kAnd, kAnd, kAnd, kAnd, kTrunc, kRandBit, kAuth}));
  const int64_t n = kind == kTrunc ? 1 : 1 + static_cast<int64_t>(g.below(3));
  const int64_t bits = 1 + static_cast<int64_t>(g.below(k - 2));
  const int64_t dm = 1 + g.below(2), dn = 1 + g.below(2), dk = 1 + g.below(3);
  const int bad = static_cast<int>(g.below(2));
  Describe(c, fmt::format("{} {} x{} ({}x{}x{}) corrupted={}", nm[kind], FieldName(f), n, dm, dk, dn, bad));
  MpcOpt o;
  o.npc = 2;
  o.seed = c.seed;
  struct Out { uint128_t key; std::vector<Vec> v; };
  auto run = [&](Liar& liar) {
    auto o2 = o;
    o2.on_send = std::ref(liar);
    return RunLink(o2, [&](const std::shared_ptr<yacl::link::Context>& l, size_t rank) {
      sp::BeaverTinyOt b(l);
      Out r;
      r.key = b.InitSpdzKey(f, s);
      auto put = [&](const NdArrayRef& a) { r.v.push_back(ReadRing(a)); };
      auto triple = [&](const sp::Beaver::Triple_Pair& t) {
        auto& [x, m] = t;
        put(std::get<0>(x)), put(std::get<0>(m)), put(std::get<1>(x)), put(std::get<1>(m)), put(std::get<2>(x)), put(std::get<2>(m));
      };
      switch (kind) {
        case kMul: triple(b.AuthMul(f, {n}, k, s)); break;
        case kDot: triple(b.AuthDot(f, dm, dn, dk, k, s)); break;
        case kAnd: triple(b.AuthAnd(f, {n}, s)); break;
        case kTrunc: { auto [x, m] = b.AuthTrunc(f, {n}, bits, k, s); put(x.first), put(m.first), put(x.second), put(m.second); break; }
        case kRandBit: { auto [x, m] = b.AuthRandBit(f, {n}, k, s); put(x), put(m); break; }
        default: {
          Vec mine;
          for (int64_t i = 0; i < n; i++) mine.push_back((uint128_t(Mix(c.seed + i * 7 + rank)) << 64 | Mix(c.seed * 3 + i + rank * 1000)) & Mask(B));
          auto x = MakeRing(makeType<RingTy>(f), {n}, mine);
          put(x), put(b.AuthArrayRef(x, f, k, s));
          break;
        }
      }
      return r;
    });
  };
  // "" when the tuple may be used, what is wrong with it when its MACs are in order and its values are not
  enum Verdict { kGood, kBadMac, kWrong };
  auto judge = [&](const MpcRes<Out>& r) {
    const uint128_t gk = r.out[0]->key + r.out[1]->key;
    const uint128_t W = kind == kAnd ? Mask(s + 1) : Mask(B);
    std::vector<Vec> v;
    for (size_t j = 0; j < r.out[0]->v.size(); j += 2) {
      Vec x;
      for (size_t e = 0; e < r.out[0]->v[j].size(); e++) {
        x.push_back((r.out[0]->v[j][e] + r.out[1]->v[j][e]) & Mask(B));
        uint128_t m = r.out[0]->v[j + 1][e] + r.out[1]->v[j + 1][e];
        if (((x[e] * gk) & W) != (m & W)) return kBadMac;
      }
      v.push_back(x);
    }
    for (size_t e = 0; e < v[0].size(); e++) {
      if (kind == kMul && ((v[0][e] * v[1][e] - v[2][e]) & Mask(k)) != 0) return kWrong;
      if (kind == kAnd && (((v[0][e] & v[1][e]) ^ v[2][e]) & 1) != 0) return kWrong;
      if (kind == kRandBit && (v[0][e] & Mask(k)) > 1) return kWrong;
      if (kind == kTrunc && (v[1][e] & Mask(k)) != (static_cast<uint128_t>(Signed(v[0][e] & Mask(k), k) >> bits) & Mask(k))) return kWrong;
    }
    if (kind == kDot)
      for (int64_t a = 0; a < dm; a++)
        for (int64_t b = 0; b < dn; b++) {
          uint128_t t = 0;
          for (int64_t e = 0; e < dk; e++) t += v[0][a * dk + e] * v[1][e * dn + b];
          if (((t - v[2][a * dn + b]) & Mask(k)) != 0) return kWrong;
        }
    return kGood;
  };
  Liar honest{bad};
  auto r0 = run(honest);
  std::string key = "deal:TINYOT";
  if (!CheckOk(c, r0, key + ":honest")) return;
  if (judge(r0) != kGood) return Fail(c, key + ":honest:" + nm[kind], "an honestly dealt tuple is wrong");
  auto by_tag = Targets(honest.sent);
  if (by_tag.empty()) return;
  for (int t = 0; t < 4; t++) {
    Liar liar{bad};
    liar.lies.push_back(MakeLie(g, honest.sent, by_tag, SizeOf(f)));
    if (g.chance(15)) liar.lies.push_back(MakeLie(g, honest.sent, by_tag, SizeOf(f)));
    const auto& l = liar.lies[0];
    auto r = run(liar);
    if (r.world->timed_out()) { Inconclusive(c, "watchdog"); return; }
    if (liar.changed == 0) continue;
    Count("tampered deals");
    const char* res = "refused";
    if (r.ok()) {
      auto v = judge(r);
      if (v == kWrong) return Fail(c, key + ":" + nm[kind] + ":" + Class(l.tag), fmt::format("a wrong tuple with valid MACs is dealt after {} from party {}", LieText(l), bad));
      res = v == kBadMac ? "invalid MAC" : "harmless";
    }
    Count(std::string("deals: ") + res);
    if (std::getenv("VH_TAGS")) Count(fmt::format("{} {} {}", nm[kind], res[0], Class(l.tag)));
    Cover(fmt::format("{}/{}/{}/{}/{}/{}", key, nm[kind], FieldName(f), Class(l.tag), kHow[l.how], res));
  }
}
}  // namespace

int main(int argc, char** argv) {
  return Main(argc, argv, {
    {"tm-tfp", 600, 12000, [](Case& c) { TamperCase(c, false); }},
    {"tm-deal", 300, 6000, DealCase},
    {"tm-tinyot", 40, 600, [](Case& c) { TamperCase(c, true); }},
  });
}
