// Running a function at all parties of a fresh in-process world.
#pragma once
#include <exception>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <vector>

#include "vh.h"
#include "vmon/vmon.h"
#include "yacl/link/link.h"

#include "libspu/core/config.h"
#include "libspu/core/context.h"
#include "libspu/core/ndarray_ref.h"
#include "libspu/core/type_util.h"
#include "libspu/mpc/factory.h"
#include "libspu/mpc/spdz2k/protocol.h"

namespace vh {

struct MpcOpt {
  spu::RuntimeConfig cfg;
  size_t npc = 2;
  uint64_t seed = 1;
  bool spdz2k = false;  // its engine is not reachable through the factory
  bool record_payload = false;
  uint64_t jitter = 0;
  double watchdog_s = 100;
  std::function<void(vmon::Msg&, std::string&)> on_send;
  bool populate = true;
};

template <typename T>
struct MpcRes {
  std::vector<std::optional<T>> out;
  std::vector<std::string> err;  // per party, "" if it returned
  std::shared_ptr<vmon::World> world;
  bool ok() const {
    for (auto& e : err) {
      if (!e.empty()) return false;
    }
    return true;
  }
  std::string errors() const {
    std::string s;
    for (size_t i = 0; i < err.size(); i++) {
      if (!err[i].empty()) s += fmt::format("party {}: {}; ", i, err[i].substr(0, 400));
    }
    return s;
  }
};

// f(lctx, rank) -> T at each of n parties.
template <typename F,
          typename T = std::invoke_result_t<F, const std::shared_ptr<yacl::link::Context>&, size_t>>
MpcRes<T> RunLink(const MpcOpt& o, F f) {
  MpcRes<T> r;
  r.out.resize(o.npc);
  r.err.resize(o.npc);
  r.world = std::make_shared<vmon::World>("w", o.npc);
  r.world->record_payload = o.record_payload;
  r.world->jitter_seed = o.jitter;
  r.world->on_send = o.on_send;
  r.world->watchdog_s = o.watchdog_s;
  std::vector<size_t> members(o.npc);
  for (size_t i = 0; i < o.npc; i++) members[i] = i;
  std::vector<std::thread> ts;
  for (size_t i = 0; i < o.npc; i++) {
    ts.emplace_back([&, i] {
      vmon::SetThread(static_cast<int>(i), o.seed);
      try {
        auto lctx = std::make_shared<yacl::link::Context>(r.world, "root", i, members);
        r.out[i] = f(lctx, i);
      } catch (const std::exception& e) {
        r.err[i] = e.what();
        if (r.err[i].empty()) r.err[i] = "exception";
      } catch (...) {
        r.err[i] = "unknown exception";
      }
      r.world->MarkDone(static_cast<int>(i));
    });
  }
  for (auto& t : ts) t.join();
  return r;
}

inline void Register(spu::SPUContext* ctx, const MpcOpt& o,
                     const std::shared_ptr<yacl::link::Context>& lctx) {
  if (o.spdz2k) {
    spu::mpc::regSpdz2kProtocol(ctx, lctx);
  } else {
    spu::mpc::Factory::RegisterProtocol(ctx, lctx);
  }
}

// f(ctx*, rank) -> T with the protocol registered.
template <typename F, typename T = std::invoke_result_t<F, spu::SPUContext*, size_t>>
MpcRes<T> RunMpc(const MpcOpt& o, F f) {
  return RunLink(o, [&](const std::shared_ptr<yacl::link::Context>& lctx, size_t rank) -> T {
    spu::RuntimeConfig cfg = o.cfg;
    if (o.populate) spu::populateRuntimeConfig(cfg);
    spu::SPUContext ctx(cfg, lctx);
    Register(&ctx, o, lctx);
    return f(&ctx, rank);
  });
}

// If the world hit the watchdog the case says nothing; otherwise errors fail.
template <typename T>
bool CheckOk(Case& c, const MpcRes<T>& r, const std::string& key) {
  if (r.world->timed_out()) {
    Inconclusive(c, "watchdog: " + r.errors());
    return false;
  }
  if (!r.ok()) {
    Fail(c, key + (r.world->deadlocked() ? ":deadlock" : ":exception"), r.errors());
    return false;
  }
  return true;
}

// ---- ring helpers ----------------------------------------------------------
inline uint128_t Mask(size_t bits) {
  return bits >= 128 ? ~uint128_t(0) : ((uint128_t(1) << bits) - 1);
}
inline size_t FieldBits(spu::FieldType f) { return spu::SizeOf(f) * 8; }
inline int128_t Signed(uint128_t v, size_t bits) {
  if (bits >= 128) return static_cast<int128_t>(v);
  if ((v >> (bits - 1)) & 1) v |= ~Mask(bits);
  return static_cast<int128_t>(v);
}
// A compact tensor of ring elements with the given element type.
inline spu::NdArrayRef MakeRing(const spu::Type& ty, const spu::Shape& shape,
                                const std::vector<uint128_t>& v) {
  spu::NdArrayRef a(ty, shape);
  const size_t w = ty.size();
  auto* p = static_cast<uint8_t*>(a.data());
  for (size_t i = 0; i < v.size(); i++) std::memcpy(p + i * w, &v[i], w);
  return a;
}
// Reads the elements in row-major order, element by element through strides.
inline std::vector<uint128_t> ReadRing(const spu::NdArrayRef& a) {
  std::vector<uint128_t> r;
  const size_t w = a.elsize();
  const int64_t n = a.numel();
  if (n == 0) return r;
  const auto& sh = a.shape();
  const auto& st = a.strides();
  std::vector<int64_t> idx(sh.size(), 0);
  const auto* base = static_cast<const uint8_t*>(static_cast<const void*>(a.buf()->data<uint8_t>())) + a.offset();
  for (int64_t k = 0; k < n; k++) {
    int64_t off = 0;
    for (size_t d = 0; d < sh.size(); d++) off += idx[d] * st[d];
    uint128_t v = 0;
    std::memcpy(&v, base + off * static_cast<int64_t>(w), std::min<size_t>(w, 16));
    r.push_back(v);
    for (int64_t d = static_cast<int64_t>(sh.size()) - 1; d >= 0; d--) {
      if (++idx[d] < sh[d]) break;
      idx[d] = 0;
    }
  }
  return r;
}
// Ring values: corner cases and random ones of random magnitude.
inline uint128_t RingVal(Rng& g, size_t bits) {
  switch (g.below(8)) {
    case 0:
      return g.below(3) & Mask(bits);
    case 1:
      return (Mask(bits) - g.below(3)) & Mask(bits);
    case 2:
      return ((uint128_t(1) << (bits - 1)) + g.below(3) - 1) & Mask(bits);
    case 3:
      return (uint128_t(1) << g.below(bits));
    case 4: {
      uint128_t v = g.u128() & Mask(1 + g.below(bits));
      return v & Mask(bits);
    }
    case 5: {
      uint128_t v = g.u128() & Mask(1 + g.below(bits));
      return (uint128_t(0) - v) & Mask(bits);
    }
    default:
      return g.u128() & Mask(bits);
  }
}
inline spu::Shape RandShape(Rng& g, int max_rank, int64_t max_numel, bool allow_empty = true) {
  spu::Shape s;
  int r = static_cast<int>(g.below(max_rank + 1));
  int64_t n = 1;
  for (int i = 0; i < r; i++) {
    int64_t d;
    if (allow_empty && g.chance(3)) d = 0;
    else if (g.chance(25)) d = 1;
    else d = 1 + static_cast<int64_t>(g.below(std::max<int64_t>(1, std::min<int64_t>(max_numel / std::max<int64_t>(n, 1), 12))));
    n *= d;
    s.push_back(d);
  }
  return s;
}
inline const char* FieldName(spu::FieldType f) {
  return f == spu::FM32 ? "FM32" : f == spu::FM64 ? "FM64" : "FM128";
}
}  // namespace vh
