// C08: every secure operation computes its plaintext meaning over Z_2^k.
#include "prog.h"
using namespace spu;
using namespace vh;

static void RunCase(Case& c, const Proto& p, const PlanOpt& o) {
  FieldType f = c.rng.pick(FieldsOf(p));
  Plan pl = PlanGen(c.rng, p, f, o).Make();
  Describe(c, pl.text());
  auto r = RunMpc(OptFor(pl, c.seed), [&](SPUContext* ctx, size_t) {
    auto vals = RunPlan(ctx, pl);
    std::vector<std::pair<Shape, Model>> out;
    for (auto& v : vals) {
      auto q = Reveal(ctx, v);
      out.push_back({q.shape(), ReadRing(q.data())});
    }
    return out;
  });
  if (!CheckOk(c, r, std::string("ops:") + p.name)) return;
  uint64_t n = 0;
  for (size_t s = 0; s < pl.steps.size(); s++) {
    for (size_t i = 0; i < r.out.size(); i++) {
      auto& [sh, m] = (*r.out[i])[s];
      if (sh != pl.nodes[s].shape || m.size() != pl.nodes[s].val.size()) {
        Fail(c, fmt::format("ops:{}:{}:shape", p.name, pl.steps[s].op),
             fmt::format("%{} party {} shape {} want {}", s, i, Str(sh), Str(pl.nodes[s].shape)));
        return;
      }
      for (size_t k = 0; k < m.size(); k++) {
        if (m[k] != pl.nodes[s].val[k]) {
          Fail(c, fmt::format("ops:{}:{}", p.name, pl.steps[s].op),
               fmt::format("%{} = {} at party {} element {}: {} want {}", s, pl.steps[s].text, i, k, Hex(m[k]), Hex(pl.nodes[s].val[k])));
          return;  // later steps depend on it
        }
        n++;
      }
    }
    Cover(fmt::format("{}/{}/{}/{}", p.name, FieldName(f), pl.steps[s].op, std::min<size_t>(pl.nodes[s].shape.size(), 4)));
    Count("operations checked");
  }
  Count("revealed elements compared", n);
  Count("messages delivered", r.world->num_msgs());
}

// Boolean shares of every width next to the word boundaries, combined with each
// other and with publics of other widths, at the share-form level.
static void WidthCase(Case& c, const Proto& p) {
  using namespace spu::mpc;
  FieldType f = c.rng.pick(FieldsOf(p));
  const size_t bits = FieldBits(f);
  Shape sh = c.rng.chance(70) ? Shape{c.rng.range(1, 9)} : RandShape(c.rng, 3, 30, false);
  if (p.spdz2k && sh.size() == 0) sh.push_back(3);
  const uint64_t vs = c.rng.u64();
  const bool full_only = p.kind == ABY3 || p.spdz2k;
  const int steps = p.cost >= 20 ? 8 : 30;
  Describe(c, fmt::format("{} {} {} boolean widths", p.name, FieldName(f), Str(sh)));
  MpcOpt o;
  o.cfg.protocol = p.kind;
  o.cfg.field = f;
  o.npc = p.npc;
  o.spdz2k = p.spdz2k;
  o.seed = c.seed;
  struct Res {
    std::string bad_op, bad;
    std::vector<std::string> ops;
    uint64_t n = 0;
  };
  auto r = RunMpc(o, [&](SPUContext* ctx, size_t) {
    Rng g(vs);
    Res res;
    const int64_t n = Numel(sh);
    auto width = [&]() -> size_t {
      static const std::vector<size_t> w = {0, 1, 2, 4, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128};
      size_t k = g.chance(80) ? g.pick(w) : g.below(bits + 1);
      return std::min(k, bits);
    };
    auto vals = [&](size_t w) {
      Model m(n);
      for (auto& e : m) e = w == 0 ? 0 : RingVal(g, w);
      if (w > 0) m[g.below(n)] |= uint128_t(1) << (w - 1);
      return m;
    };
    auto pub = [&](const Model& m) { return Value(MakeRing(makeType<Pub2kTy>(f), sh, m), DT_INVALID); };
    struct E {
      Value v;
      Model m;
    };
    std::vector<E> pool;
    auto fresh = [&]() {
      size_t w = width();
      Model m = vals(w);
      if (g.chance(60)) return E{p2b(ctx, pub(m)), m};
      Model full = vals(bits), mask(n, Mask(w));
      for (int64_t i = 0; i < n; i++) full[i] = (full[i] & ~Mask(w)) | m[i];
      return E{and_bp(ctx, a2b(ctx, p2a(ctx, pub(full))), pub(mask)), m};
    };
    for (int i = 0; i < 3; i++) pool.push_back(fresh());
    for (int s = 0; s < steps; s++) {
      if (g.chance(25)) pool[g.below(pool.size())] = fresh();
      const E x = pool[g.below(pool.size())], y = pool[g.below(pool.size())];
      E z;
      z.m.resize(n);
      Model q;
      std::string op;
      auto each = [&](auto fn) {
        for (int64_t i = 0; i < n; i++) z.m[i] = fn(i) & Mask(bits);
      };
      switch (g.below(12)) {
        case 0: op = "xor_bb"; z.v = xor_bb(ctx, x.v, y.v); each([&](int64_t i) { return x.m[i] ^ y.m[i]; }); break;
        case 1: op = "and_bb"; z.v = and_bb(ctx, x.v, y.v); each([&](int64_t i) { return x.m[i] & y.m[i]; }); break;
        case 2: case 3: q = vals(width()); op = "xor_bp"; z.v = xor_bp(ctx, x.v, pub(q)); each([&](int64_t i) { return x.m[i] ^ q[i]; }); break;
        case 4: case 5: q = vals(width()); op = "and_bp"; z.v = and_bp(ctx, x.v, pub(q)); each([&](int64_t i) { return x.m[i] & q[i]; }); break;
        case 6: case 7: {  // one amount for all, or one per element (which SPDZ2K declares unsupported)
          const bool left = g.chance(50), per = !p.spdz2k && g.chance(40);
          Sizes sz;
          const int64_t top = g.chance(50) ? bits : std::min<int64_t>(bits, 12);
          for (int64_t i = 0; i < (per ? n : 1); i++) sz.push_back(g.below(top));
          op = fmt::format("{}shift_b{} {}", left ? "l" : "r", per ? "*" : "", sz[0]);
          z.v = left ? lshift_b(ctx, x.v, sz) : rshift_b(ctx, x.v, sz);
          each([&](int64_t i) { return left ? x.m[i] << sz[per ? i : 0] : x.m[i] >> sz[per ? i : 0]; });
          break;
        }
        case 11: {
          const size_t nb = x.v.storage_type().as<BShare>()->nbits();
          if (p.spdz2k || g.chance(50)) {
            size_t lo = g.below(p.spdz2k ? nb + 1 : bits + 1), hi = g.below(p.spdz2k ? nb + 1 : bits + 1);
            if (lo > hi) std::swap(lo, hi);
            op = fmt::format("bitrev_b {}..{}", lo, hi);
            z.v = bitrev_b(ctx, x.v, lo, hi);
            each([&](int64_t i) {
              uint128_t r = 0;
              for (size_t q2 = 0; q2 < bits; q2++)
                if ((x.m[i] >> q2) & 1) r |= uint128_t(1) << (q2 >= lo && q2 < hi ? lo + hi - 1 - q2 : q2);
              return r;
            });
            break;
          }
          if (nb < 2 || (nb & (nb - 1)) != 0) { s--; continue; }
          const bool de = g.chance(50);
          const size_t st = g.below(Log2Ceil(nb));
          op = fmt::format("{}_b {}", de ? "bitdeintl" : "bitintl", st);
          z.v = de ? bitdeintl_b(ctx, x.v, st) : bitintl_b(ctx, x.v, st);
          each([&](int64_t i) {  // pieces of 2^st bits: the even ones make up the lower half, the odd ones the upper
            uint128_t r = 0;
            for (size_t q2 = 0; q2 < nb; q2++) {
              const size_t c2 = q2 >> st, to = (c2 % 2) * (nb / 2) + ((c2 / 2) << st) + (q2 & ((size_t(1) << st) - 1));
              const size_t from2 = de ? q2 : to, to2 = de ? to : q2;
              if ((x.m[i] >> from2) & 1) r |= uint128_t(1) << to2;
            }
            return r;
          });
          break;
        }
        case 8: op = "b2a"; z.v = a2b(ctx, b2a(ctx, x.v)); z.m = x.m; break;
        case 9: {
          if (full_only) { s--; continue; }
          int64_t b = g.below(bits);
          E w{xor_bp(ctx, x.v, pub(vals(0))), x.m};
          Model top(n, uint128_t(1) << (bits - 1));
          if (g.chance(50)) { w.v = xor_bp(ctx, w.v, pub(top)); for (auto& e : w.m) e ^= top[0]; }
          w.v = xor_bb(ctx, w.v, a2b(ctx, p2a(ctx, pub(Model(n, 0)))));  // full width
          op = fmt::format("arshift_b {}", b);
          z.v = arshift_b(ctx, w.v, {b});
          each([&](int64_t i) { return static_cast<uint128_t>(Signed(w.m[i], bits) >> b); });
          break;
        }
        default: {
          if (bits != 64 && !g.chance(40)) { s--; continue; }
          op = "add_bb";
          if (p.cost >= 20 && g.chance(60)) { s--; continue; }
          z.v = add_bb(ctx, a2b(ctx, b2a(ctx, x.v)), a2b(ctx, b2a(ctx, y.v)));
          each([&](int64_t i) { return x.m[i] + y.m[i]; });
        }
      }
      auto rev = g.chance(70) ? b2p(ctx, z.v) : a2p(ctx, b2a(ctx, z.v));
      auto got = ReadRing(rev.data());
      res.ops.push_back(op.substr(0, op.find(' ')));
      res.n += got.size();
      if (got != z.m) {
        res.bad_op = op.substr(0, op.find(' '));
        res.bad = fmt::format("step {} {}: operands {} ({}) and {} ({}){}: got {} want {}", s, op, x.v.storage_type(), Hex(x.m[0]), y.v.storage_type(), Hex(y.m[0]),
                              q.empty() ? "" : " public " + Hex(q[0]), got.empty() ? "nothing" : Hex(got[0]), Hex(z.m[0]));
        return res;
      }
      pool[g.below(pool.size())] = z;
    }
    return res;
  });
  if (!CheckOk(c, r, std::string("widths:") + p.name)) return;
  for (auto& q : r.out) {
    if (!q->bad.empty()) { Fail(c, fmt::format("widths:{}:{}", p.name, q->bad_op), q->bad); return; }
    Count("revealed elements compared", q->n);
  }
  for (auto& op : r.out[0]->ops) Cover(fmt::format("widths/{}/{}/{}", p.name, FieldName(f), op));
  Count("operations checked", r.out[0]->ops.size());
}

int main(int argc, char** argv) {
  std::vector<Group> gs;
  for (auto& p : Protos()) {
    uint64_t q = p.cost >= 20 ? 120 : 700;
    gs.push_back({p.name, q, q * 15, [p](Case& c) {
      PlanOpt o;
      o.len = p.cost >= 20 ? 5 : 8;
      RunCase(c, p, o);
    }});
  }
  for (auto& p : Protos()) {
    if (p.npc == 1) continue;
    uint64_t q = p.cost >= 20 ? 100 : 500;
    gs.push_back({std::string("widths-") + p.name, q, q * 15, [p](Case& c) { WidthCase(c, p); }});
  }
  return Main(argc, argv, gs);
}
