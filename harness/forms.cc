// C09: every value the engine holds is a well formed sharing of the value it
// denotes. The monitor looks at what every party holds after every operation,
// without going through the engine's own way of opening values.
#include "prog.h"

#include "libspu/mpc/spdz2k/state.h"
#include "libspu/mpc/spdz2k/type.h"
#include "libspu/mpc/spdz2k/value.h"
using namespace spu;
using namespace vh;

namespace {
using Vec = std::vector<uint128_t>;

std::vector<Vec> Parts(const NdArrayRef& a, size_t w) {  // ring components of every element
  const size_t n = a.elsize() / w;
  std::vector<Vec> r(n);
  for (int64_t k = 0; k < a.numel(); k++) {
    const auto* p = static_cast<const uint8_t*>(static_cast<const void*>(&a.at<uint8_t>(Index(Unravel(a.shape(), k)))));
    for (size_t q = 0; q < n; q++) {
      uint128_t x = 0;
      std::memcpy(&x, p + q * w, w);
      r[q].push_back(x);
    }
  }
  return r;
}

struct Held {
  std::vector<Value> vals;
  std::vector<std::pair<Vec, Vec>> macs;  // SPDZ2K: value and mac shares of secrets
  uint128_t key = 0;
};

// "" if what the parties hold is a sharing of `want`
std::string Judge(const Proto& p, FieldType f, const Node& nd, const std::vector<Held*>& h, size_t s) {
  const size_t n = p.npc, bits = FieldBits(f);
  const uint128_t M = Mask(bits);
  const auto& v0 = h[0]->vals[s];
  const auto ty = v0.storage_type();
  for (size_t i = 1; i < n; i++) {
    const auto& v = h[i]->vals[s];
    if (v.storage_type() != ty) return fmt::format("party {} holds a {}, party 0 a {}", i, v.storage_type(), ty);
    if (v.shape() != v0.shape()) return "shapes differ";
  }
  if (v0.shape() != nd.shape) return fmt::format("shape {}", v0.shape());
  const auto& want = nd.val;
  auto wrong = [&](const Vec& got, const char* what) -> std::string {
    if (got.size() != want.size()) return fmt::format("{} elements", got.size());
    for (size_t k = 0; k < got.size(); k++)
      if (got[k] != want[k]) return fmt::format("{}: element {} of the {} is {}, denotes {}", what, k, ty, Hex(got[k]), Hex(want[k]));
    return "";
  };
  if (want.empty()) return "";
  if (ty.isa<Public>()) {
    if (nd.vis != 0) return "public";
    for (size_t i = 0; i < n; i++) {
      auto e = wrong(ReadRing(h[i]->vals[s].data()), "public");
      if (!e.empty()) return fmt::format("party {}: {}", i, e);
    }
    return "";
  }
  if (ty.isa<Private>()) {
    if (nd.vis != 1) return "private";
    const int o = static_cast<int>(ty.as<Private>()->owner());
    if (o != nd.owner) return fmt::format("owner {} instead of {}", o, nd.owner);
    auto e = wrong(ReadRing(h[o]->vals[s].data()), "private");
    if (!e.empty()) return e;
    bool rich = true;
    for (auto x : want) rich = rich && (x >> 20) != 0 && ((M - x) >> 20) != 0;
    if (rich) for (size_t i = 0; i < n; i++) {
      if (static_cast<int>(i) == o) continue;
      if (ReadRing(h[i]->vals[s].data()) == want) return fmt::format("party {} holds the value of owner {}", i, o);
    }
    return "";
  }
  if (nd.vis != 2) return fmt::format("secret ({})", ty);
  if (ty.isa<BShare>()) {
    const size_t nb = ty.as<BShare>()->nbits();
    if (nb > bits) return fmt::format("{} bits declared", nb);
    for (auto x : want)
      if ((x & ~Mask(nb)) != 0) return fmt::format("{} declares {} bits, the value is {}", ty, nb, Hex(x));
  }
  if (p.spdz2k) {
    const bool bsh = ty.isa<BShare>();
    // boolean shares live in Z_2^(1+s)
    const uint128_t RM = bsh ? Mask(bits + 1) : Mask(2 * bits);
    uint128_t key = 0;
    for (size_t i = 0; i < n; i++) key += h[i]->key;
    const size_t cnt = h[0]->macs[s].first.size();
    const size_t per = bsh ? ty.as<BShare>()->nbits() : 1;
    if (cnt != want.size() * per) return fmt::format("{} share words for {} values of {} bits", cnt, want.size(), per);
    Vec got(want.size(), 0);
    const bool mac = bsh || ty.as<mpc::spdz2k::AShrTy>()->hasMac();
    for (size_t k = 0; k < cnt; k++) {
      uint128_t x = 0, m = 0;
      for (size_t i = 0; i < n; i++) x += h[i]->macs[s].first[k], m += h[i]->macs[s].second[k];
      if (mac && ((x * key) & RM) != (m & RM)) return fmt::format("the MAC of word {} does not verify", k);
      if (bsh) got[k / per] |= (x & 1) << (k % per);
      else got[k] = x & M;
    }
    return wrong(got, mac ? "authenticated" : "additive");
  }
  // words of the shares as the protocol lays them out
  size_t comps = p.kind == ABY3 ? 2 : p.kind == SWIFT ? 3 : 1;
  const size_t w = v0.elsize() / comps;
  std::vector<std::vector<Vec>> q;
  for (size_t i = 0; i < n; i++) q.push_back(Parts(h[i]->vals[s].data(), w));
  const bool x = ty.isa<BShare>();
  Vec got(want.size(), 0);
  auto in = [&](const Vec& a, bool neg = false) {
    for (size_t k = 0; k < got.size(); k++) got[k] = x ? got[k] ^ a[k] : neg ? got[k] - a[k] : got[k] + a[k];
  };
  if (p.kind == ABY3) {
    for (size_t i = 0; i < 3; i++)
      if (q[i][1] != q[(i + 1) % 3][0]) return fmt::format("party {}'s copy of the next share differs from party {}'s", i, (i + 1) % 3);
    for (size_t i = 0; i < 3; i++) in(q[i][0]);
  } else if (p.kind == SWIFT) {
    if (q[0][0] != q[1][0]) return "alpha1 differs between parties 0 and 1";
    if (q[0][1] != q[2][0]) return "alpha2 differs between parties 0 and 2";
    if (q[1][1] != q[2][1]) return "beta differs between parties 1 and 2";
    if (q[1][2] != q[2][2]) return "gamma differs between parties 1 and 2";
    for (size_t k = 0; k < got.size(); k++) {
      uint128_t bg = x ? q[1][1][k] ^ q[1][2][k] : q[1][1][k] + q[1][2][k];
      if (((q[0][2][k] ^ bg) & Mask(w * 8)) != 0) return fmt::format("beta + gamma differs between party 0 and the others ({})", k);
    }
    in(q[1][1]), in(q[0][0], true), in(q[0][1], true);
  } else {
    for (size_t i = 0; i < n; i++) in(q[i][0]);
  }
  const uint128_t mask = x ? Mask(std::min(bits, w * 8)) & Mask(ty.as<BShare>()->nbits()) : M;
  for (auto& e : got) e &= mask;
  return wrong(got, x ? "boolean" : "arithmetic");
}

void FormCase(Case& c, const Proto& p, const PlanOpt& o) {
  FieldType f = c.rng.pick(FieldsOf(p));
  Plan pl = PlanGen(c.rng, p, f, o).Make();
  Describe(c, pl.text());
  auto opt = OptFor(pl, c.seed);
  opt.jitter = c.rng.chance(30) ? c.rng.u64() | 1 : 0;
  auto r = RunMpc(opt, [&](SPUContext* ctx, size_t) {
    Held h;
    h.vals = RunPlan(ctx, pl);
    if (p.spdz2k) {
      h.key = ctx->getState<mpc::Spdz2kState>()->key();
      for (auto& v : h.vals) {
        if (!v.isSecret() || v.numel() == 0) { h.macs.emplace_back(); continue; }
        h.macs.emplace_back(ReadRing(mpc::spdz2k::getValueShare(v.data())), ReadRing(mpc::spdz2k::getMacShare(v.data())));
      }
    }
    return h;
  });
  if (!CheckOk(c, r, std::string("forms:") + p.name)) return;
  std::vector<Held*> h;
  for (auto& q : r.out) h.push_back(&*q);
  for (size_t s = 0; s < pl.steps.size(); s++) {
    auto e = Judge(p, f, pl.nodes[s], h, s);
    if (!e.empty()) {
      Fail(c, fmt::format("forms:{}:{}", p.name, pl.steps[s].op), fmt::format("%{} = {}: {}", s, pl.steps[s].text, e));
      return;
    }
    Count("values examined at all parties");
    Count("share words examined", pl.nodes[s].val.size());
    Cover(fmt::format("{}/{}/{}/{}", p.name, FieldName(f), pl.steps[s].op, h[0]->vals[s].storage_type()));
  }
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<Group> gs;
  for (auto& p : Protos()) {
    if (p.npc == 1) continue;
    uint64_t q = p.cost >= 20 ? 150 : 900;
    gs.push_back({std::string("forms-") + p.name, q, q * 15, [p](Case& c) {
      PlanOpt o;
      o.len = p.cost >= 20 ? 6 : 12;
      FormCase(c, p, o);
    }});
  }
  return Main(argc, argv, gs);
}
