// C13: protocols finish, agree and consume every message under any timing.
// C14: no pseudo-random stream is used twice, shared streams stay in step.
// C25: forked and independent contexts do not influence one another.
#include "prog.h"

#include <map>
#include <set>

#include "libspu/core/trace.h"
#include "libspu/mpc/common/communicator.h"
#include "libspu/mpc/common/prg_state.h"
#include "libspu/mpc/common/pv2k.h"
using namespace spu;
using namespace vh;

namespace {
using Vec = std::vector<uint128_t>;
struct Out {
  std::vector<Vec> open;  // every value, revealed
};

Out Execute(SPUContext* ctx, const Plan& pl) {
  Out o;
  auto vals = RunPlan(ctx, pl);
  for (auto& v : vals) {
    o.open.push_back(ReadRing(Reveal(ctx, v).data()));
  }
  return o;
}
// "" or which step of the plan is wrong
std::string Compare(const Plan& pl, const Out& o) {
  for (size_t s = 0; s < pl.steps.size(); s++)
    if (o.open[s] != pl.nodes[s].val) {
      for (size_t k = 0; k < o.open[s].size() && k < pl.nodes[s].val.size(); k++)
        if (o.open[s][k] != pl.nodes[s].val[k])
          return fmt::format("%{} = {} element {}: {} want {}", s, pl.steps[s].text, k, Hex(o.open[s][k]), Hex(pl.nodes[s].val[k]));
      return fmt::format("%{} = {}: size", s, pl.steps[s].text);
    }
  return "";
}
using Channel = std::vector<std::pair<std::string, size_t>>;
std::map<std::pair<int, int>, Channel> Channels(vmon::World& w) {
  std::map<std::pair<int, int>, Channel> r;
  auto log = w.TakeLog();
  for (auto& m : log) r[{m.src, m.dst}].push_back({m.tag, m.size});
  return r;
}
std::string Diff(const std::map<std::pair<int, int>, Channel>& a, const std::map<std::pair<int, int>, Channel>& b) {
  for (auto& [k, x] : a) {
    auto it = b.find(k);
    if (it == b.end()) return fmt::format("no messages from {} to {} the other time", k.first, k.second);
    auto& y = it->second;
    for (size_t i = 0; i < std::max(x.size(), y.size()); i++) {
      if (i >= x.size() || i >= y.size()) return fmt::format("{} to {}: {} messages, then {}", k.first, k.second, x.size(), y.size());
      if (x[i] != y[i]) return fmt::format("{} to {} message {}: {} of {} bytes, then {} of {}", k.first, k.second, i, x[i].first, x[i].second, y[i].first, y[i].second);
    }
  }
  if (a.size() != b.size()) return "different channels";
  return "";
}

RuntimeConfig Vary(Rng& g, RuntimeConfig c, const Proto& p) {
  if (g.chance(30)) c.experimental_enable_intra_op_par = true;
  if (g.chance(30)) c.experimental_disable_mmul_split = true;
  if (g.chance(30)) c.experimental_disable_vectorization = true;
  if (g.chance(30)) c.max_concurrency = g.range(1, 4);
  return c;
}

// ---- C13 ----------------------------------------------------------------------
void SchedCase(Case& c, const Proto& p) {
  auto& g = c.rng;
  vmon::g_num_threads = 4;
  FieldType f = g.pick(FieldsOf(p));
  PlanOpt po;
  po.len = p.cost >= 20 ? 5 : 10;
  Plan pl = PlanGen(g, p, f, po).Make();
  Describe(c, pl.text());
  auto key = std::string("sched:") + p.name;
  std::vector<std::vector<Out>> outs;
  std::vector<std::map<std::pair<int, int>, Channel>> chans;
  auto opt = OptFor(pl, c.seed);
  opt.cfg = Vary(g, opt.cfg, p);
  for (int run = 0; run < 3; run++) {
    opt.jitter = run == 0 ? 0 : g.u64() | 1;
    auto r = RunMpc(opt, [&](SPUContext* ctx, size_t) { return Execute(ctx, pl); });
    if (!CheckOk(c, r, key)) return;
    if (auto u = r.world->undelivered()) { Fail(c, key + ":undelivered", fmt::format("{} messages were never received", u)); return; }
    Count("messages matched", r.world->num_msgs());
    Count("schedules run");
    outs.emplace_back();
    for (auto& q : r.out) outs.back().push_back(*q);
    chans.push_back(Channels(*r.world));
    for (auto& [k, v] : chans.back()) std::sort(v.begin(), v.end());  // worker threads send in any order
    for (size_t i = 0; i < p.npc; i++) {
      auto e = Compare(pl, outs.back()[i]);
      if (!e.empty()) { Fail(c, key + ":result", fmt::format("schedule {} party {}: {}", run, i, e)); return; }
    }
    if (run == 0) continue;
    auto d = Diff(chans[0], chans[run]);
    if (!d.empty()) { Fail(c, key + ":messages", d); return; }
  }
  for (auto& s : pl.steps) Cover(fmt::format("{}/{}/{}", p.name, FieldName(f), s.op));
}

// Operations on tensors large enough to be split over threads and contexts.
void LargeCase(Case& c, const Proto& p) {
  auto& g = c.rng;
  vmon::g_num_threads = 4;
  FieldType f = g.pick(FieldsOf(p));
  PlanOpt po;
  po.len = 4;
  const int64_t tile = p.kind == CHEETAH ? 2048 + 2048 * static_cast<int64_t>(g.below(2)) : 50000;  // where the splitting starts
  switch (g.below(5)) {
    case 0: po.base = {tile + 1 + static_cast<int64_t>(g.below(tile / 10))}; break;
    case 1: po.base = {3, tile / 2 + 1 + static_cast<int64_t>(g.below(tile / 100))}; break;
    case 2: po.base = {2, tile + static_cast<int64_t>(g.below(20))}; break;
    case 3: po.base = {static_cast<int64_t>(g.range(2, 3)), 2, tile / 3 + static_cast<int64_t>(g.below(tile / 20))}; break;
    default: po.base = {tile / 2 + static_cast<int64_t>(g.below(9)), 3}; break;
  }
  Plan pl = PlanGen(g, p, f, po).Make();
  Describe(c, pl.text().substr(0, 3000));
  auto key = std::string("large:") + p.name;
  auto opt = OptFor(pl, c.seed);
  opt.cfg.experimental_enable_intra_op_par = g.chance(80);
  opt.cfg.max_concurrency = g.range(0, 4);
  opt.jitter = g.u64() | 1;
  vmon::g_num_threads = static_cast<int>(g.range(1, 4));
  auto r = RunMpc(opt, [&](SPUContext* ctx, size_t) { return Execute(ctx, pl); });
  vmon::g_num_threads = 4;
  if (!CheckOk(c, r, key)) return;
  if (auto u = r.world->undelivered()) { Fail(c, key + ":undelivered", fmt::format("{} messages were never received", u)); return; }
  for (size_t i = 0; i < p.npc; i++) {
    auto e = Compare(pl, *r.out[i]);
    if (!e.empty()) { Fail(c, key, fmt::format("party {}: {}", i, e)); return; }
  }
  Count("schedules run");
  Count("messages matched", r.world->num_msgs());
  for (auto& s : pl.steps) Cover(fmt::format("large/{}/{}/{}", p.name, FieldName(f), s.op));
}

// ---- C25 ----------------------------------------------------------------------
// A tree of contexts forked while the parent goes on working; every context runs
// its own program in its own thread.
void ForkCase(Case& c, const Proto& p) {
  auto& g = c.rng;
  vmon::g_num_threads = 4;
  FieldType f = g.pick(FieldsOf(p));
  PlanOpt po;
  po.len = p.cost >= 20 ? 3 : 5;
  const size_t kids = static_cast<size_t>(g.range(1, 3));
  const bool nested = g.chance(40);
  std::vector<Plan> plans;
  const size_t n = kids + (nested ? 1 : 0) + 2;
  for (size_t k = 0; k < n; k++) plans.push_back(PlanGen(g, p, f, po).Make());
  std::string text = fmt::format("{} {} kids {} nested {}", p.name, FieldName(f), kids, nested);
  for (auto& q : plans) text += " | " + q.text();
  Describe(c, text);
  auto key = std::string("fork:") + p.name;
  auto opt = OptFor(plans[0], c.seed);
  opt.cfg = Vary(g, opt.cfg, p);
  opt.jitter = g.u64() | 1;
  const uint64_t delays = g.u64();
  struct Res { std::vector<Out> out; std::vector<std::string> err; bool low = false; std::string bad; };
  auto r = RunMpc(opt, [&](SPUContext* ctx, size_t rank) {
    Res q;
    q.out.resize(n), q.err.resize(n);
    q.low = ctx->prot()->hasLowCostFork();
    // parent first, so that its streams have advanced before the forks
    q.out[0] = Execute(ctx, plans[0]);
    std::vector<std::unique_ptr<SPUContext>> kid;
    try {
      for (size_t k = 0; k < kids; k++) kid.push_back(ctx->fork());
      if (nested) kid.push_back(kid[0]->fork());
    } catch (const std::exception& x) {
      q.bad = x.what();
      return q;
    }
    // a tracer belongs to one thread: a fork's is made before its parent goes on
    for (auto& k : kid) GET_TRACER(k.get());
    std::set<std::string> ids = {ctx->id()};
    for (size_t k = 0; k < kid.size(); k++) {
      if (!ids.insert(kid[k]->id()).second) throw std::runtime_error("two contexts share the id " + kid[k]->id());
      const auto& parent = nested && k == kids ? kid[0]->id() : ctx->id();
      if (kid[k]->pid() != parent) throw std::runtime_error("a fork names the wrong parent");
      if (kid[k]->getField() != ctx->getField() || kid[k]->getFxpBits() != ctx->getFxpBits()) throw std::runtime_error("a fork has another configuration");
      if (kid[k]->prot()->getKernelNames() != ctx->prot()->getKernelNames()) throw std::runtime_error("a fork has other kernels");
    }
    Rng d(delays + rank);
    std::vector<std::thread> ts;
    std::vector<uint64_t> wait;
    for (size_t k = 0; k < kid.size(); k++) wait.push_back(d.below(2000));
    for (size_t k = 0; k < kid.size(); k++)
      ts.emplace_back([&, k, rank] {
        vmon::SetThread(static_cast<int>(rank), opt.seed + 1 + k);
        std::this_thread::sleep_for(std::chrono::microseconds(wait[k]));
        try {
          q.out[k + 1] = Execute(kid[k].get(), plans[k + 1]);
        } catch (const std::exception& x) {
          q.err[k + 1] = x.what();
          if (q.err[k + 1].empty()) q.err[k + 1] = "exception";
        }
      });
    try {
      q.out[n - 1] = Execute(ctx, plans[n - 1]);  // the parent works on meanwhile
    } catch (const std::exception& x) {
      q.err[n - 1] = x.what();
    }
    for (auto& t : ts) t.join();
    return q;
  });
  if (!CheckOk(c, r, key)) return;
  const auto& q0 = *r.out[0];
  for (auto& q : r.out) if (q->bad.empty() != q0.bad.empty()) { Fail(c, key + ":refusal", q->bad + q0.bad); return; }
  if (!q0.bad.empty()) {
    if (q0.low) { Fail(c, key + ":refusal", "declared cheap to fork, but: " + q0.bad); return; }
    Count("forks refused");
    return;
  }
  for (size_t i = 0; i < p.npc; i++) {
    auto& q = *r.out[i];
    for (size_t k = 0; k < n; k++) {
      if (!q.err[k].empty()) { Fail(c, key + ":exception", fmt::format("party {} context {}: {}", i, k, q.err[k])); return; }
      auto e = Compare(plans[k], q.out[k]);
      if (!e.empty()) { Fail(c, key, fmt::format("party {} context {}: {}", i, k, e)); return; }
      Count("programs run in their own context");
    }
  }
  if (auto u = r.world->undelivered()) { Fail(c, key + ":undelivered", fmt::format("{} messages were never received", u)); return; }
  Cover(fmt::format("{}/{}/{}/{}", p.name, FieldName(f), kids, nested));
}

// Random histories of registering, looking up and forking on a tree of objects.
struct Counter : State {
  int64_t v = 0;
  bool low = false, can = true;
  std::unique_ptr<State> fork() override {
    if (!can) return State::fork();
    auto n = std::make_unique<Counter>();
    n->v = v * 10 + 1, n->low = low, n->can = can;
    return n;
  }
  bool hasLowCostFork() const override { return low; }
  static const char* kBindName() { return "s0"; }
};
template <int N> struct Named : Counter {
  std::unique_ptr<State> fork() override {
    if (!can) return State::fork();
    auto n = std::make_unique<Named<N>>();
    n->v = v * 10 + 1, n->low = low, n->can = can;
    return n;
  }
  static const char* kBindName() { static const std::string s = "s" + std::to_string(N); return s.c_str(); }
};
struct Mark : Kernel {
  int64_t id;
  explicit Mark(int64_t i) : id(i) {}
  void evaluate(KernelEvalContext* x) const override { x->pushOutput(static_cast<int64_t>(id)); }
};
void RegistryCase(Case& c) {
  auto& g = c.rng;
  struct Obj { std::unique_ptr<Object> o; std::map<std::string, int64_t> kernels; struct S { int64_t v; bool low, can; }; std::map<int, S> states; std::string parent; int kids = 0; };
  std::vector<Obj> os;
  os.push_back({std::make_unique<Object>("root"), {}, {}, "", 0});
  std::set<std::string> ids = {"root"};
  std::string text;
  auto bad = [&](const std::string& m) { Fail(c, "registry", m + " after" + text); };
  for (int step = 0; step < 40; step++) {
    auto k = g.below(os.size());
    auto& x = os[k];
    const int n = static_cast<int>(g.below(4));
    const auto name = "k" + std::to_string(g.below(6));
    bool threw = false, want = false;
    switch (g.below(6)) {
      case 0: {
        text += fmt::format(" reg{} {}", k, name);
        want = x.kernels.count(name) != 0;
        try { x.o->regKernel(name, std::make_unique<Mark>(step)); } catch (const std::exception&) { threw = true; }
        if (!want) x.kernels[name] = step;
        break;
      }
      case 1: {
        text += fmt::format(" add{} s{}", k, n);
        want = x.states.count(n) != 0;
        Obj::S s{static_cast<int64_t>(g.below(1000)), g.chance(70), g.chance(90)};
        auto put = [&](auto st) {
          st->v = s.v, st->low = s.low, st->can = s.can;
          auto nm = std::string(std::remove_reference_t<decltype(*st)>::kBindName());
          try { x.o->addState(nm, std::move(st)); } catch (const std::exception&) { threw = true; }
        };
        if (n == 0) put(std::make_unique<Named<0>>()); else if (n == 1) put(std::make_unique<Named<1>>());
        else if (n == 2) put(std::make_unique<Named<2>>()); else put(std::make_unique<Named<3>>());
        if (!want) x.states[n] = s;
        break;
      }
      case 2: {
        if (os.size() > 12) continue;
        text += fmt::format(" fork{}", k);
        for (auto& [i, s] : x.states) want = want || !s.can;
        std::unique_ptr<Object> f;
        try { f = x.o->fork(); } catch (const std::exception&) { threw = true; }
        if (threw || want) break;
        if (f->pid() != x.o->id()) return bad("wrong parent id");
        if (!ids.insert(f->id()).second) return bad("two objects with the id " + f->id());
        Obj y{std::move(f), x.kernels, x.states, x.o->id(), 0};
        for (auto& [i, s] : y.states) s.v = s.v * 10 + 1;
        os.push_back(std::move(y));
        break;
      }
      default: {  // touch a state
        text += fmt::format(" touch{} s{}", k, n);
        want = x.states.count(n) == 0;
        try {
          Counter* s = n == 0 ? static_cast<Counter*>(x.o->getState<Named<0>>()) : n == 1 ? static_cast<Counter*>(x.o->getState<Named<1>>())
                       : n == 2 ? static_cast<Counter*>(x.o->getState<Named<2>>()) : static_cast<Counter*>(x.o->getState<Named<3>>());
          if (s == nullptr) return bad("state of the wrong kind");
          if (!want) s->v++, x.states[n].v++;
        } catch (const std::exception&) { threw = true; }
      }
    }
    if (threw != want) return bad(want ? "accepted" : "refused");
    // everything everywhere is as the model says
    for (auto& y : os) {
      bool low = true;
      std::vector<std::string> names;
      for (auto& [nm, id] : y.kernels) {
        names.push_back(nm);
        if (!y.o->hasKernel(nm)) return bad("kernel " + nm + " is missing");
        auto* m = dynamic_cast<Mark*>(y.o->getKernel(nm));
        if (m == nullptr || m->id != id) return bad("kernel " + nm + " is another one");
      }
      if (y.o->getKernelNames() != names) return bad("kernel names");
      for (int i = 0; i < 6; i++) {
        auto nm = "k" + std::to_string(i);
        if (y.kernels.count(nm) != 0) continue;
        if (y.o->hasKernel(nm)) return bad("kernel " + nm + " appeared");
        bool t = false;
        try { y.o->getKernel(nm); } catch (const std::exception&) { t = true; }
        if (!t) return bad("an unknown kernel was found");
      }
      for (auto& [i, s] : y.states) {
        low = low && s.low;
        Counter* q = i == 0 ? static_cast<Counter*>(y.o->getState<Named<0>>()) : i == 1 ? static_cast<Counter*>(y.o->getState<Named<1>>())
                     : i == 2 ? static_cast<Counter*>(y.o->getState<Named<2>>()) : static_cast<Counter*>(y.o->getState<Named<3>>());
        if (q->v != s.v) return bad(fmt::format("state s{} of {} is {}, should be {}", i, y.o->id(), q->v, s.v));
      }
      if (y.o->hasLowCostFork() != low) return bad("hasLowCostFork");
      Count("object states compared");
    }
  }
  Cover(fmt::format("registry {}", os.size()));
}

// ---- C14 ----------------------------------------------------------------------
void PrgCase(Case& c, const Proto& p) {
  auto& g = c.rng;
  vmon::g_num_threads = 4;
  FieldType f = g.pick(FieldsOf(p));
  PlanOpt po;
  po.len = p.cost >= 20 ? 5 : 12;
  po.allow_empty = false;
  Plan pl = PlanGen(g, p, f, po).Make(), pl2 = PlanGen(g, p, f, po).Make();
  const bool fork = g.chance(40);
  Describe(c, fmt::format("{} | fork {} {}", pl.text(), fork, pl2.text()));
  auto key = std::string("prg:") + p.name;
  auto opt = OptFor(pl, c.seed);
  opt.jitter = g.chance(30) ? g.u64() | 1 : 0;
  opt.cfg = Vary(g, opt.cfg, p);
  vmon::PrgLogEnable(true);
  auto r = RunMpc(opt, [&](SPUContext* ctx, size_t) {
    bool forked = false;
    RunPlan(ctx, pl);
    if (fork) {
      try {
        auto kid = ctx->fork();
        forked = true;
        RunPlan(kid.get(), pl2);
        RunPlan(ctx, pl);
      } catch (const std::exception&) {
        if (forked) throw;
      }
    } else {
      RunPlan(ctx, pl2);
    }
    return true;
  });
  auto log = vmon::PrgLogTake();
  vmon::PrgLogEnable(false);
  if (!CheckOk(c, r, key)) return;
  using Stream = std::pair<uint128_t, uint128_t>;
  std::map<Stream, std::map<int, std::vector<vmon::PrgUse>>> st;
  for (auto& u : log) if (u.end > u.begin) st[{u.seed, u.iv}][u.party].push_back(u);
  for (auto& [s, by] : st) {
    for (auto& [party, us] : by) {
      // blocks of one stream drawn by one party
      std::map<uint64_t, std::pair<uint64_t, int>> seen;
      Count("draws examined", us.size());
      auto v = us;
      std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.begin < b.begin; });
      // Trusted-first-party triples: rank 0 replays everybody's stream, its own included.
      // A worker thread that has not sent anything yet belongs to an unknown party (-1).
      const size_t allow = party < 0 ? p.npc - 1 : party == 0 && p.kind == SEMI2K ? 1 : 0;
      size_t replays = 0;
      for (size_t i = 1; i < v.size(); i++) {
        if (v[i].begin >= v[i - 1].end) { replays = 0; continue; }
        if (v[i].begin == v[i - 1].begin && v[i].end == v[i - 1].end && ++replays <= allow) continue;
        Fail(c, key + ":reused", fmt::format("party {} draws blocks [{}, {}) and [{}, {}) of the same stream ({} bytes and {})", party, v[i - 1].begin, v[i - 1].end, v[i].begin, v[i].end, v[i - 1].nbytes, v[i].nbytes));
        return;
      }
    }
    Count("streams examined");
    if (by.size() < 2 || by.count(-1) != 0) continue;
    // shared streams: the holders draw the same pieces
    auto pieces = [](const std::vector<vmon::PrgUse>& us) {
      std::map<uint64_t, uint64_t> r;
      for (auto& u : us) r[u.begin] = u.end;
      return r;
    };
    auto a = pieces(by.begin()->second);
    for (auto it = std::next(by.begin()); it != by.end(); ++it) {
      auto b = pieces(it->second);
      Count("shared streams compared");
      if (a == b) continue;
      Fail(c, key + ":desync", fmt::format("parties {} and {} share a stream but draw it differently: {} pieces up to {}, {} pieces up to {}", by.begin()->first, it->first, a.size(), a.rbegin()->second, b.size(), b.rbegin()->second));
      return;
    }
  }
  for (auto& s : pl.steps) Cover(fmt::format("{}/{}/{}/{}", p.name, FieldName(f), s.op, fork));
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<Group> gs;
  for (auto& p : Protos()) {
    if (p.npc == 1) continue;
    uint64_t q = p.cost >= 20 ? 50 : 300;
    gs.push_back({std::string("sched-") + p.name, q, q * 15, [p](Case& c) { SchedCase(c, p); }});
    if (p.cost < 20 && p.npc < 4) gs.push_back({std::string("large-") + p.name, p.kind == ABY3 ? 12UL : p.kind == CHEETAH ? 8UL : 4UL, 200, [p](Case& c) { LargeCase(c, p); }});
    gs.push_back({std::string("fork-") + p.name, q, q * 15, [p](Case& c) { ForkCase(c, p); }});
    gs.push_back({std::string("prg-") + p.name, q, q * 15, [p](Case& c) { PrgCase(c, p); }});
  }
  gs.push_back({"registry", 4000, 100000, RegistryCase});
  return Main(argc, argv, gs);
}
