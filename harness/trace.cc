// C29: profiling records and action logs tell what was executed, and change nothing.
#include "prog.h"

#include <algorithm>
#include <map>
#include <mutex>
#include <set>
#include <sstream>

#include "spdlog/sinks/ostream_sink.h"

#include "libspu/core/trace.h"
using namespace spu;
using namespace vh;

namespace {
struct Sink {
  std::ostringstream os;
  std::shared_ptr<spdlog::logger> logger;
  Sink() {
    logger = std::make_shared<spdlog::logger>("t", std::make_shared<spdlog::sinks::ostream_sink_mt>(os));
    logger->set_pattern("%v");
    logger->set_level(spdlog::level::trace);
  }
  std::vector<std::string> Lines() {
    logger->flush();
    std::vector<std::string> r;
    std::istringstream is(os.str());
    for (std::string l; std::getline(is, l);) r.push_back(l);
    return r;
  }
};

// ---- random trees of actions against a model ---------------------------------
struct Node {
  int64_t flag, mask;
  std::string name;
  int args;          // how many arguments the action is given
  size_t before, after;  // bytes exchanged in the action's body (0 = nothing)
  int n_before, n_after;
  std::vector<Node> kids;
};
Node GenNode(Rng& g, int depth, int& n) {
  Node x;
  const int64_t mods[] = {TR_HLO, TR_HAL, TR_MPC};
  const int64_t mod = mods[g.below(3)];
  const int64_t acts[] = {TR_LAR, TR_LAR, TR_LOG, TR_REC, TR_REC | TR_LOGB | TR_LOGE};
  x.flag = mod | acts[g.below(5)];
  switch (g.below(5)) {
    case 0: x.mask = ~int64_t(0); break;
    case 1: case 2: x.mask = ~mod; break;
    case 3: x.mask = ~int64_t(TR_LOG); break;
    default: x.mask = g.chance(20) ? 0 : ~int64_t(mods[g.below(3)] | (g.chance(30) ? TR_REC : 0)); break;
  }
  x.name = fmt::format("f{}", n++);
  x.args = static_cast<int>(g.below(3));
  x.n_before = static_cast<int>(g.below(3)), x.n_after = static_cast<int>(g.below(2));
  x.before = g.below(200), x.after = g.below(200);
  if (depth > 0) for (auto k = g.below(4); k > 0 && n < 40; k--) x.kids.push_back(GenNode(g, depth - 1, n));
  return x;
}
struct Rec { std::string name, detail; int64_t flag; size_t bytes, msgs; };
struct Want { std::vector<Rec> recs; std::vector<std::string> lines; size_t sent = 0, msgs = 0; int depth = 0; };
void Model1(const Node& x, int64_t cur, Want& w) {
  const std::string mod = (x.flag & TR_MPC) != 0 ? "mpc" : (x.flag & TR_HAL) != 0 ? "hal" : "hlo";
  const size_t b0 = w.sent, m0 = w.msgs;
  std::string detail;
  if ((x.flag & cur & TR_LOGB) != 0) {
    detail = x.args == 0 ? "" : x.args == 1 ? "7" : "7, x";
    w.lines.push_back(fmt::format("[B] {}{}.{}({})", std::string(2 * static_cast<size_t>(w.depth), ' '), mod, x.name, detail));
    w.depth++;
  }
  w.sent += x.before * static_cast<size_t>(x.n_before), w.msgs += static_cast<size_t>(x.n_before);
  for (auto& k : x.kids) Model1(k, cur & x.mask, w);
  w.sent += x.after * static_cast<size_t>(x.n_after), w.msgs += static_cast<size_t>(x.n_after);
  if ((x.flag & cur & TR_LOGE) != 0) {
    w.depth--;
    w.lines.push_back(fmt::format("[E] {}{}.{}({})", std::string(2 * static_cast<size_t>(w.depth), ' '), mod, x.name, detail));
  }
  if ((x.flag & cur & TR_REC) != 0 && (x.flag & cur & TR_MODALL) != 0) w.recs.push_back({x.name, detail, x.flag, w.sent - b0, w.msgs - m0});
}
void Exchange(const std::shared_ptr<yacl::link::Context>& l, size_t bytes, int n) {
  for (int i = 0; i < n; i++) {
    l->SendAsync(l->NextRank(), yacl::Buffer(std::string(bytes, 'a').data(), static_cast<int64_t>(bytes)), "x");
    l->Recv(l->PrevRank(), "x");
  }
}
template <typename F>
void Act(const std::shared_ptr<Tracer>& t, const std::shared_ptr<yacl::link::Context>& l, const Node& x, F body) {
  if (x.args == 0) { TraceAction a(t, l, x.flag, x.mask, x.name); body(); }
  else if (x.args == 1) { TraceAction a(t, l, x.flag, x.mask, x.name, 7); body(); }
  else { TraceAction a(t, l, x.flag, x.mask, x.name, 7, "x"); body(); }
}
void RunNode(const std::string& id, const std::shared_ptr<yacl::link::Context>& l, const Node& x) {
  Act(getTracer(id, ""), l, x, [&] {
    Exchange(l, x.before, x.n_before);
    for (auto& k : x.kids) RunNode(id, l, k);
    Exchange(l, x.after, x.n_after);
  });
}
std::string CheckRecs(const std::vector<Rec>& want, const std::vector<ActionRecord>& got, bool linked) {
  for (size_t i = 0; i < std::max(want.size(), got.size()); i++) {
    if (i >= want.size()) return fmt::format("a record too many: {} (wanted {})", got[i].name, want.size());
    if (i >= got.size()) return fmt::format("no record of {} ({} of {} recorded)", want[i].name, got.size(), want.size());
    auto &w = want[i]; auto& r = got[i];
    if (w.name != r.name || w.flag != r.flag || w.detail != r.detail) return fmt::format("record {}: {}({}) flag {:x}, wanted {}({}) flag {:x}", i, r.name, r.detail, r.flag, w.name, w.detail, w.flag);
    if (r.end < r.start) return r.name + " ends before it starts";
    if (!linked) continue;
    if (r.send_bytes_end - r.send_bytes_start != w.bytes || r.recv_bytes_end - r.recv_bytes_start != w.bytes)
      return fmt::format("{}: {} bytes sent, {} received, the link carried {}", r.name, r.send_bytes_end - r.send_bytes_start, r.recv_bytes_end - r.recv_bytes_start, w.bytes);
    if (r.send_actions_end - r.send_actions_start != w.msgs || r.recv_actions_end - r.recv_actions_start != w.msgs)
      return fmt::format("{}: {} sends, {} receives, the link carried {}", r.name, r.send_actions_end - r.send_actions_start, r.recv_actions_end - r.recv_actions_start, w.msgs);
  }
  return "";
}
int64_t RandFlag(Rng& g) {
  int64_t f = 0;
  for (int64_t m : {TR_HLO, TR_HAL, TR_MPC}) if (g.chance(60)) f |= m;
  if (g.chance(80)) f |= TR_REC;
  if (g.chance(50)) f |= TR_LOG;
  return f;
}

void TreeCase(Case& c) {
  auto& g = c.rng;
  const size_t npc = 2 + g.below(2);
  const int64_t flag = RandFlag(g);
  int n = 0;
  std::vector<Node> roots;
  for (auto k = g.range(1, 4); k > 0; k--) roots.push_back(GenNode(g, 4, n));
  const size_t loud = g.below(npc);  // one party logs
  Describe(c, fmt::format("flag {:x}, {} actions, {} parties", flag, n, npc));
  Want w;
  for (auto& x : roots) Model1(x, flag, w);
  Want quiet;
  for (auto& x : roots) Model1(x, flag & ~int64_t(TR_LOG), quiet);
  Sink sink;
  const auto id = [&](size_t i) { return fmt::format("c{}-{}", c.index, i); };
  for (size_t i = 0; i < npc; i++) {
    // set up twice: the first is forgotten
    initTrace(id(i), RandFlag(g) & ~int64_t(TR_LOG), sink.logger);
    { TraceAction a(getTracer(id(i), ""), nullptr, TR_MPC | TR_REC, ~int64_t(0), "old"); }
    initTrace(id(i), i == loud ? flag : flag & ~int64_t(TR_LOG), sink.logger);
    if (getGlobalTraceFlag(id(i)) != (i == loud ? flag : flag & ~int64_t(TR_LOG))) { Fail(c, "tree:flag", "the flag is not kept"); return; }
  }
  MpcOpt o;
  o.npc = npc;
  o.seed = c.seed;
  o.jitter = g.u64() | 1;
  auto r = RunLink(o, [&](const std::shared_ptr<yacl::link::Context>& l, size_t rank) {
    for (auto& x : roots) RunNode(id(rank), l, x);
    return true;
  });
  if (!CheckOk(c, r, "tree")) return;
  for (size_t i = 0; i < npc; i++) {
    auto t = getTracer(id(i), "");
    auto e = CheckRecs(i == loud ? w.recs : quiet.recs, t->getProfState()->getRecords(), true);
    if (!e.empty()) { Fail(c, "tree:records", fmt::format("party {}: {}", i, e)); return; }
    if (t->getDepth() != 0 || t->getFlag() != (i == loud ? flag : flag & ~int64_t(TR_LOG))) { Fail(c, "tree:state", "the tracer does not return to its state"); return; }
    std::set<int64_t> ids;
    for (auto& x : t->getProfState()->getRecords()) if (!ids.insert(x.id).second) { Fail(c, "tree:id", "two actions share an id"); return; }
    Count("records compared", ids.size());
  }
  auto lines = sink.Lines();
  for (size_t k = 0; k < std::max(lines.size(), w.lines.size()); k++) {
    auto a = k < lines.size() ? lines[k] : "nothing", b = k < w.lines.size() ? w.lines[k] : "nothing";
    if (a != b) { Fail(c, "tree:log", fmt::format("line {}: {}, wanted {}", k, a, b)); return; }
  }
  Count("log lines compared", lines.size());
  Cover(fmt::format("tree/{:x}/{}", flag, std::min(n / 8, 5)));
}

// ---- forks that record at the same time ----------------------------------------
void ForkTraceCase(Case& c) {
  auto& g = c.rng;
  const int64_t flag = TR_MODALL | TR_REC;
  const size_t kids = static_cast<size_t>(g.range(2, 6));
  const int each = static_cast<int>(g.range(20, 400));
  const std::string id = fmt::format("k{}", c.index);
  const int rounds = 2;
  Describe(c, fmt::format("{} forks, {} actions each, set up {} times", kids, each, rounds));
  for (int round = 0; round < rounds; round++) {
    const int64_t mask = g.chance(40) ? ~int64_t(TR_HAL) : ~int64_t(0);
    initTrace(id, flag);
    auto t = getTracer(id, "");
    if (t->getProfState()->getRecords().size() != 0) { Fail(c, "fork:stale", "records of the earlier run are still there"); return; }
    std::map<std::string, int> want;
    {
      TraceAction outer(t, nullptr, TR_MPC | TR_LOG, mask, "outer");
      std::vector<std::shared_ptr<Tracer>> ts;
      for (size_t k = 0; k < kids; k++) {
        ts.push_back(getTracer(fmt::format("{}-{}", id, k), id));
        if (getTracer(fmt::format("{}-{}", id, k), id) != ts[k]) { Fail(c, "fork:again", "another tracer for the same context"); return; }
        if (ts[k]->getFlag() != (flag & mask)) { Fail(c, "fork:flag", fmt::format("a fork starts with flag {:x}, its parent has {:x}", ts[k]->getFlag(), flag & mask)); return; }
      }
      std::vector<std::thread> th;
      for (size_t k = 0; k < kids; k++)
        th.emplace_back([&, k] {
          for (int i = 0; i < each; i++) {
            TraceAction a(ts[k], nullptr, TR_MPC | TR_LAR, ~int64_t(TR_MPC), fmt::format("m{}.{}", k, i));
            TraceAction b(ts[k], nullptr, TR_HAL | TR_LAR, ~int64_t(TR_HAL), fmt::format("h{}.{}", k, i));
            TraceAction d(ts[k], nullptr, TR_MPC | TR_LAR, ~int64_t(TR_MPC), "inner");
          }
        });
      for (int i = 0; i < each; i++) TraceAction a(t, nullptr, TR_MPC | TR_LAR, ~int64_t(TR_MPC), fmt::format("p.{}", i));
      for (auto& x : th) x.join();
    }
    for (int i = 0; i < each; i++) {
      want[fmt::format("p.{}", i)]++;
      for (size_t k = 0; k < kids; k++) {
        want[fmt::format("m{}.{}", k, i)]++;
        if (mask == ~int64_t(0)) want[fmt::format("h{}.{}", k, i)]++;
      }
    }
    std::map<std::string, int> got;
    std::set<int64_t> ids;
    for (auto& r : t->getProfState()->getRecords()) got[r.name]++, ids.insert(r.id);
    if (ids.size() != t->getProfState()->getRecords().size()) { Fail(c, "fork:id", "two actions share an id"); return; }
    for (auto& [k, v] : want) if (got[k] != v) { Fail(c, round == 0 ? "fork:lost" : "fork:second", fmt::format("round {}: {} recorded {} times, executed {}", round, k, got[k], v)); return; }
    for (auto& [k, v] : got) if (v != 0 && want.count(k) == 0) { Fail(c, "fork:extra", k + " recorded"); return; }
    Count("records compared", ids.size());
  }
  Cover(fmt::format("fork/{}/{}", kids, each / 100));
}

// ---- programs -------------------------------------------------------------------
using Vec = std::vector<uint128_t>;
struct Out {
  std::vector<Vec> open;
  std::vector<ActionRecord> recs;
  std::vector<std::string> forked, forked2;  // names recorded by two forks running the program again
  size_t sent = 0, msgs = 0;
  bool fork = false;
};
void ProgCase(Case& c, const Proto& p) {
  auto& g = c.rng;
  vmon::g_num_threads = 4;
  FieldType f = g.pick(FieldsOf(p));
  PlanOpt po;
  po.len = p.cost >= 20 ? 4 : 8;
  Plan pl = PlanGen(g, p, f, po).Make();
  Describe(c, pl.text());
  auto key = std::string("prog:") + p.name;
  const size_t loud = g.below(p.npc);
  std::vector<Out> base;
  std::vector<std::pair<std::string, size_t>> msgs0;
  for (int run = 0; run < 4; run++) {
    // 0: all off; 1: profile of hal and mpc; 2: log at one party; 3: profile of the hlo layer only
    auto opt = OptFor(pl, c.seed);
    opt.cfg.enable_hal_profile = run == 1;
    opt.cfg.enable_pphlo_profile = run == 3;
    opt.cfg.enable_action_trace = false;
    Sink sink;
    initTrace("unused", 0, sink.logger);
    auto r = RunMpc(opt, [&](SPUContext* ctx, size_t rank) {
      Out o;
      auto cfg = opt.cfg;
      if (run == 2 && rank == loud) cfg.enable_action_trace = true;
      setupTrace(ctx, cfg);
      auto st = ctx->lctx()->GetStats();
      const size_t b0 = st->sent_bytes, m0 = st->sent_actions;
      auto go = [&](SPUContext* x) {
        auto vals = RunPlan(x, pl);
        std::vector<Vec> r;
        for (auto& v : vals) r.push_back(ReadRing(Reveal(x, v).data()));
        return r;
      };
      o.open = go(ctx);
      o.sent = st->sent_bytes - b0, o.msgs = st->sent_actions - m0;
      auto prof = GET_TRACER(ctx)->getProfState();
      o.recs = prof->getRecords();
      if (run == 1 && ctx->prot()->hasLowCostFork()) {
        o.fork = true;
        for (auto* names : {&o.forked, &o.forked2}) {
          auto kid = ctx->fork();
          const size_t n = prof->getRecords().size();
          go(kid.get());
          for (size_t k = n; k < prof->getRecords().size(); k++) names->push_back(prof->getRecords()[k].name);
        }
      }
      return o;
    });
    if (!CheckOk(c, r, key)) return;
    std::vector<std::pair<std::string, size_t>> msgs;
    if (run != 1) for (auto& m : r.world->TakeLog()) msgs.push_back({fmt::format("{}>{} {}", m.src, m.dst, m.tag), m.size});
    std::sort(msgs.begin(), msgs.end());
    if (run == 0) msgs0 = msgs;
    else if (run != 1 && msgs != msgs0) { Fail(c, key + ":messages", fmt::format("run {}: other messages than without profiling", run)); return; }
    for (size_t i = 0; i < p.npc; i++) {
      auto& o = *r.out[i];
      if (run == 0) base.push_back(o);
      for (size_t s = 0; s < pl.steps.size(); s++)
        if (o.open[s] != pl.nodes[s].val) { Fail(c, key + ":result", fmt::format("run {}: {} is wrong", run, pl.steps[s].text)); return; }
      if (o.sent != base[i].sent || o.msgs != base[i].msgs) { Fail(c, key + ":traffic", fmt::format("run {}: {} bytes in {} sends, without profiling {} in {}", run, o.sent, o.msgs, base[i].sent, base[i].msgs)); return; }
      if (run != 1 && !o.recs.empty()) { Fail(c, key + ":unwanted", "recorded though not enabled: " + o.recs[0].name); return; }
      if (run != 1) continue;
      auto& q = *r.out[0];
      if (o.recs.size() != q.recs.size()) { Fail(c, key + ":parties", fmt::format("party {} has {} records, party 0 {}", i, o.recs.size(), q.recs.size())); return; }
      size_t bytes = 0, sends = 0;
      for (size_t k = 0; k < o.recs.size(); k++) {
        auto& x = o.recs[k];
        if (x.name != q.recs[k].name || x.flag != q.recs[k].flag) { Fail(c, key + ":parties", fmt::format("record {}: {} and {}", k, x.name, q.recs[k].name)); return; }
        if ((x.flag & (TR_HAL | TR_MPC)) == 0 || (x.flag & TR_REC) == 0) { Fail(c, key + ":flag", x.name); return; }
        if (x.end < x.start || x.send_bytes_end < x.send_bytes_start) { Fail(c, key + ":interval", x.name); return; }
        bytes += x.send_bytes_end - x.send_bytes_start, sends += x.send_actions_end - x.send_actions_start;
      }
      if (bytes != o.sent || sends != o.msgs) { Fail(c, key + ":sum", fmt::format("the records add up to {} bytes in {} sends, the link sent {} in {}", bytes, sends, o.sent, o.msgs)); return; }
      Count("records compared", o.recs.size());
      if (o.fork) {
        std::vector<std::string> a;
        for (auto& x : o.recs) a.push_back(x.name);
        auto b = o.forked, d = o.forked2;
        std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end()), std::sort(d.begin(), d.end());
        if (a != b || a != d) { Fail(c, key + ":forked", fmt::format("the program leaves {} records, in forks {} and {}", a.size(), b.size(), d.size())); return; }
        Count("records compared", b.size() + d.size());
      }
    }
    auto lines = sink.Lines();
    if (run != 2 && !lines.empty()) { Fail(c, key + ":unwanted-log", lines[0]); return; }
    if (run == 2) {
      std::vector<std::string> open;
      for (auto& l : lines) {
        auto rest = l.size() > 4 ? l.substr(4) : "";
        if (l.rfind("[B] ", 0) == 0) {
          if (rest.find_first_not_of(' ') != std::min<size_t>(58, 2 * open.size())) { Fail(c, key + ":log", "wrong depth: " + l); return; }
          open.push_back(rest);
        } else if (l.rfind("[E] ", 0) == 0 && !open.empty() && open.back() == rest) {
          open.pop_back();
        } else if (l.rfind("[", 0) == 0) {
          Fail(c, key + ":log", "unpaired: " + l);
          return;
        }
      }
      if (!open.empty()) { Fail(c, key + ":log", "no end of " + open.back()); return; }
      if (lines.empty() && !pl.steps.empty()) { Fail(c, key + ":log", "nothing logged"); return; }
      Count("log lines compared", lines.size());
    }
  }
  for (auto& s : pl.steps) Cover(fmt::format("{}/{}/{}", p.name, FieldName(f), s.op));
}
}  // namespace

int main(int argc, char** argv) {
  std::vector<Group> gs;
  gs.push_back({"tree", 1500, 40000, TreeCase});
  gs.push_back({"fork", 200, 4000, ForkTraceCase});
  for (auto& p : Protos()) {
    if (p.npc == 1) continue;
    uint64_t q = p.cost >= 20 ? 40 : 150;
    gs.push_back({std::string("prog-") + p.name, q, q * 15, [p](Case& c) { ProgCase(c, p); }});
  }
  return Main(argc, argv, gs);
}
