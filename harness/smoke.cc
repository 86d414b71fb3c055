#include "mpc.h"
#include "libspu/mpc/api.h"
#include "libspu/mpc/common/communicator.h"
#include "libspu/mpc/common/pv2k.h"
using namespace spu;
using namespace vh;
int main(int argc, char** argv) {
  return Main(argc, argv, {{"mul", 50, 500, [](Case& c) {
    MpcOpt o;
    struct P { ProtocolKind k; size_t n; bool sp; };
    std::vector<P> ps = {{REF2K, 1, false}, {SEMI2K, 2, false}, {SEMI2K, 3, false}, {ABY3, 3, false}, {SECURENN, 3, false}, {SWIFT, 3, false}, {SEMI2K, 2, true}, {CHEETAH, 2, false}};
    auto p = ps[c.index % ps.size()];
    o.cfg.protocol = p.k; o.npc = p.n; o.spdz2k = p.sp; o.cfg.field = FM64; o.seed = c.seed;
    Describe(c, fmt::format("proto {} npc {} spdz {}", (int)p.k, p.n, p.sp));
    uint128_t a = RingVal(c.rng, 64), b = RingVal(c.rng, 64);
    auto t0 = std::chrono::steady_clock::now();
    auto r = RunMpc(o, [&](SPUContext* ctx, size_t) {
      auto x = mpc::p2s(ctx, mpc::make_p(ctx, a, {3}));
      auto y = mpc::p2s(ctx, mpc::make_p(ctx, b, {3}));
      auto z = mpc::mul_ss(ctx, x, y);
      z = mpc::xor_ss(ctx, z, x);
      return ReadRing(mpc::s2p(ctx, z).data());
    });
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    std::cerr << c.desc << " " << dt << " msgs " << r.world->num_msgs() << "\n";
    if (!CheckOk(c, r, "mul")) return;
    for (auto& v : r.out) for (auto x : *v) if (x != (((a * b) ^ a) & Mask(64))) Fail(c, "mul", Hex(x) + " want " + Hex((a * b) & Mask(64)));
    Count("values", 3 * p.n);
    Cover(c.desc);
  }}});
}
