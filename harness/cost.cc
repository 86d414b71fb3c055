// C06: a kernel with a declared cost takes the declared rounds and traffic.
#include "prog.h"

#include "libspu/mpc/common/communicator.h"
using namespace spu;
using namespace spu::mpc;
using namespace vh;

namespace {
struct Obs {
  std::string name;
  bool dynamic = false, ran = false;
  int64_t lat = -1, bits = -1;  // declared (bits for the whole tensor)
  float tol = 0;
  int64_t got_lat = 0, got_bits = 0;
};
struct Op {
  const char* name;
  std::function<void(SPUContext*, const Value&, const Value&, const Value&, const Value&, const Value&, const Value&)> run;
};
// a, a2: arithmetic; b, b2: boolean, full width; p: public
const std::vector<Op>& Ops() {
#define R [](SPUContext * c, const Value& a, const Value& a2, const Value& b, const Value& b2, const Value& p, const Value& b1)
  static const std::vector<Op> ops = {
      {"p2a", R { p2a(c, p); }},
      {"a2p", R { a2p(c, a); }},
      {"negate_a", R { negate_a(c, a); }},
      {"add_ap", R { add_ap(c, a, p); }},
      {"add_aa", R { add_aa(c, a, a2); }},
      {"mul_ap", R { mul_ap(c, a, p); }},
      {"mul_aa", R { mul_aa(c, a, a2); }},
      {"square_a", R { square_a(c, a); }},
      {"mul_a1b", R { mul_a1b(c, a, b1); }},
      {"lshift_a", R { lshift_a(c, a, {3}); }},
      {"trunc_a", R { trunc_a(c, a, 3, SignType::Unknown); }},
      {"msb_a2b", R { msb_a2b(c, a); }},
      {"p2b", R { p2b(c, p); }},
      {"b2p", R { b2p(c, b); }},
      {"a2b", R { a2b(c, a); }},
      {"b2a", R { b2a(c, b); }},
      {"xor_bp", R { xor_bp(c, b, p); }},
      {"xor_bb", R { xor_bb(c, b, b2); }},
      {"and_bp", R { and_bp(c, b, p); }},
      {"and_bb", R { and_bb(c, b, b2); }},
      {"lshift_b", R { lshift_b(c, b, {2}); }},
      {"rshift_b", R { rshift_b(c, b, {2}); }},
      {"arshift_b", R { arshift_b(c, b, {2}); }},
      {"bitrev_b", R { bitrev_b(c, b, 1, 9); }},
      {"bitintl_b", R { bitintl_b(c, b, 0); }},
      {"bitdeintl_b", R { bitdeintl_b(c, b, 0); }},
      {"equal_aa", R { equal_aa(c, a, a2); }},
      {"equal_ap", R { equal_ap(c, a, p); }},
      {"add_bb", R { add_bb(c, b, b2); }},
      {"rand_a", R { rand_a(c, a.shape()); }},
      {"rand_b", R { rand_b(c, a.shape()); }},
      {"mmul_aa", R { mmul_aa(c, a, a2); }},
      {"mmul_ap", R { mmul_ap(c, a, p); }},
  };
#undef R
  return ops;
}

void RunCase(Case& c, const Proto& p) {
  FieldType f = c.rng.pick(FieldsOf(p));
  bool mat = c.rng.chance(25);
  Shape sh;
  int64_t M = c.rng.range(1, 6), K = c.rng.range(1, 6), N = c.rng.range(1, 6);
  if (!mat) sh = RandShape(c.rng, 3, 60, false);
  if (p.spdz2k && sh.size() == 0) sh.push_back(c.rng.range(1, 20));
  std::vector<size_t> which;
  for (size_t i = 0; i < Ops().size(); i++) {
    bool mm = std::string(Ops()[i].name).rfind("mmul", 0) == 0;
    if (mm == mat && (mat || c.rng.chance(30))) which.push_back(i);
  }
  std::string ops;
  for (auto w : which) ops += std::string(Ops()[w].name) + " ";
  Describe(c, fmt::format("{} {} {} {}", p.name, FieldName(f), mat ? fmt::format("{}x{}x{}", M, K, N) : Str(sh), ops));
  MpcOpt o;
  o.cfg.protocol = p.kind;
  o.cfg.field = f;
  o.npc = p.npc;
  o.spdz2k = p.spdz2k;
  o.seed = c.seed;
  o.jitter = c.rng.u64();
  uint64_t vseed = c.rng.u64();
  auto r = RunMpc(o, [&](SPUContext* ctx, size_t) {
    Rng g(vseed);
    auto pub = [&](const Shape& s, size_t bits) {
      std::vector<uint128_t> v(s.numel());
      for (auto& e : v) e = RingVal(g, bits);
      return Value(MakeRing(makeType<Pub2kTy>(f), s, v), DT_INVALID);
    };
    const size_t B = FieldBits(f) - (p.kind == SECURENN ? 2 : 0);
    Shape s1 = mat ? Shape{M, K} : sh, s2 = mat ? Shape{K, N} : sh;
    Value p0 = pub(s1, B), p1 = pub(s2, B);
    Value a = p2a(ctx, p0), a2 = p2a(ctx, p1), b, b2, b1;
    if (!mat) {
      b = a2b(ctx, a);
      b2 = a2b(ctx, a2);
      std::vector<uint128_t> bits(s1.numel());
      for (auto& e : bits) e = g.below(2);
      bits[0] = 1;
      b1 = p2b(ctx, Value(MakeRing(makeType<Pub2kTy>(f), s1, bits), DT_INVALID));
    }
    auto* comm = ctx->prot()->getState<Communicator>();
    std::vector<Obs> out;
    for (auto w : which) {
      Obs ob;
      ob.name = Ops()[w].name;
      if (!ctx->prot()->hasKernel(ob.name)) {
        out.push_back(ob);
        continue;
      }
      auto* k = ctx->prot()->getKernel(ob.name);
      auto before = comm->getStats();
      Ops()[w].run(ctx, a, a2, b, b2, p1, b1);
      auto d = comm->getStats() - before;
      ob.ran = true;
      ob.dynamic = k->kind() == Kernel::Kind::Dynamic;
      ob.got_lat = d.latency;
      ob.got_bits = d.comm * 8;
      ob.tol = k->getCommTolerance();
      ce::Params env{{"K", FieldBits(f)}, {"N", p.npc}, {"m", size_t(M)}, {"n", size_t(N)}, {"k", size_t(K)}};
      auto l = k->latency(), cm = k->comm();
      if (l) ob.lat = l->eval(env);
      if (cm) ob.bits = cm->eval(env) * (mat ? 1 : s1.numel());
      out.push_back(ob);
    }
    return out;
  });
  if (!CheckOk(c, r, std::string("cost:") + p.name)) return;
  for (size_t i = 0; i < r.out.size(); i++) {
    for (auto& ob : *r.out[i]) {
      if (!ob.ran || ob.dynamic || ob.lat < 0 || ob.bits < 0) continue;
      if (ob.lat != ob.got_lat) Fail(c, fmt::format("cost:{}:{}:rounds", p.name, ob.name), fmt::format("party {} declared {} took {}", i, ob.lat, ob.got_lat));
      float diff = ob.bits == 0 ? ob.got_bits : std::abs(float(ob.got_bits - ob.bits)) / ob.bits;
      if (ob.got_bits < ob.bits || diff > ob.tol) Fail(c, fmt::format("cost:{}:{}:bits", p.name, ob.name), fmt::format("party {} declared {} sent {} (tolerance {})", i, ob.bits, ob.got_bits, ob.tol));
      Count("kernel calls measured");
      Cover(fmt::format("{}/{}/{}", p.name, ob.name, FieldName(f)));
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<Group> gs;
  for (auto& p : Protos()) {
    if (p.npc == 1) continue;
    uint64_t q = p.cost >= 20 ? 60 : 200;
    gs.push_back({p.name, q, q * 20, [p](Case& c) { RunCase(c, p); }});
  }
  return Main(argc, argv, gs);
}
