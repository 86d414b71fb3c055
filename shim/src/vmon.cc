#include "vmon/vmon.h"

#include <time.h>

#include <cstdlib>
#include <chrono>
#include <cstring>
#include <memory>
#include <string>
#include <thread>

#include "yacl/link/link.h"
#include "yacl/link/test_util.h"
#include "yacl/utils/parallel.h"

namespace vmon {
namespace {
thread_local int tls_party = -1;
thread_local uint64_t tls_seed = 0;
thread_local uint64_t tls_ctr = 0;
thread_local bool tls_set = false;
std::atomic<uint64_t> g_orphans{1};

uint64_t Mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

double CpuSeconds() {
  timespec ts;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}
}  // namespace

std::atomic<int> g_par_mode{kParDefault};
std::atomic<int64_t> g_par_chunk{1};
std::atomic<uint64_t> g_par_regions{0};
std::atomic<int> g_num_threads{4};

void SetThread(int party, uint64_t seed) {
  tls_party = party;
  tls_seed = Mix(seed * 1000003 + static_cast<uint64_t>(party + 1));
  tls_ctr = 0;
  tls_set = true;
}
int ThreadParty() { return tls_party; }
void AdoptParty(int party) {
  if (!tls_set) {
    tls_party = party;
  }
}
uint64_t NextRand64() {
  if (!tls_set) {
    tls_seed = Mix(0xabcdef12345ULL + g_orphans.fetch_add(1) * 0x1000193);
    tls_ctr = 0;
    tls_set = true;
  }
  return Mix(tls_seed ^ Mix(++tls_ctr));
}
uint128_t NextRand128() {
  uint64_t a = NextRand64();
  uint64_t b = NextRand64();
  return yacl::MakeUint128(a, b);
}

namespace {
std::atomic<bool> g_prg_on{false};
std::mutex g_prg_mu;
std::vector<PrgUse> g_prg;
}  // namespace
void PrgLogEnable(bool on) {
  std::lock_guard<std::mutex> g(g_prg_mu);
  g_prg.clear();
  g_prg_on = on;
}
void PrgLogAdd(int kind, uint128_t seed, uint128_t iv, uint64_t b, uint64_t e,
               uint64_t nbytes) {
  if (!g_prg_on) return;
  std::lock_guard<std::mutex> g(g_prg_mu);
  g_prg.push_back({tls_party, kind, seed, iv, b, e, nbytes, g_prg.size()});
}
std::vector<PrgUse> PrgLogTake() {
  std::lock_guard<std::mutex> g(g_prg_mu);
  return std::move(g_prg);
}

// ---------------------------------------------------------------------------
static void Jitter(uint64_t seed, uint64_t x) {
  if (seed == 0) return;
  uint64_t r = Mix(seed ^ Mix(x));
  switch (r % 5) {
    case 0:
      std::this_thread::yield();
      break;
    case 1:
      std::this_thread::sleep_for(std::chrono::microseconds((r >> 8) % 200));
      break;
    default:
      break;
  }
}

void World::Send(int src, int dst, char kind, const std::string& key,
                 std::string payload, std::string_view tag) {
  uint64_t order;
  {
    std::lock_guard<std::mutex> g(mu_);
    order = order_;
  }
  Jitter(jitter_seed, Mix(src * 131 + dst) ^ payload.size() ^ order);
  std::lock_guard<std::mutex> g(mu_);
  Msg m;
  m.src = src;
  m.dst = dst;
  m.kind = kind;
  m.key = key;
  m.tag = std::string(tag);
  m.size = payload.size();
  m.order = order_++;
  m.src_seq = src_seq_[src]++;
  m.received = false;
  if (on_send) on_send(m, payload);
  if (record_payload) m.payload = payload;
  auto bk = std::make_pair(dst, key);
  if (box_.count(bk) != 0) {
    throw yacl::LinkError("duplicate message key " + key);
  }
  box_[bk] = {std::move(payload), log_.size()};
  log_.push_back(std::move(m));
  cv_.notify_all();
}

std::string World::Recv(int dst, int src, const std::string& key,
                        std::string_view tag) {
  Jitter(jitter_seed, Mix(src * 137 + dst * 31) ^ key.size() ^ 0x5555);
  std::unique_lock<std::mutex> g(mu_);
  const auto bk = std::make_pair(dst, key);
  const auto t0 = std::chrono::steady_clock::now();
  uint64_t last_order = order_;
  double last_cpu = CpuSeconds();
  auto last_change = t0;
  while (true) {
    auto it = box_.find(bk);
    if (it != box_.end()) {
      std::string r = std::move(it->second.first);
      log_[it->second.second].received = true;
      log_[it->second.second].recv_tag = std::string(tag);
      box_.erase(it);
      return r;
    }
    if (aborted_) {
      throw yacl::LinkError("aborted: " + why_);
    }
    if (done_[src] != 0) {
      throw yacl::LinkError("peer gone: party " + std::to_string(dst) +
                            " waits for " + key + " tag " + std::string(tag));
    }
    cv_.wait_for(g, std::chrono::milliseconds(200));
    auto now = std::chrono::steady_clock::now();
    double cpu = CpuSeconds();
    // Nobody sends and nobody computes: the parties wait for one another.
    if (order_ != last_order || cpu - last_cpu > 0.5) {
      last_order = order_;
      last_cpu = cpu;
      last_change = now;
    } else if (std::chrono::duration<double>(now - last_change).count() > 12) {
      if (!aborted_) {
        aborted_ = true;
        deadlocked_ = true;
        why_ = "deadlock: party " + std::to_string(dst) + " waits for " + key +
               " tag " + std::string(tag);
        cv_.notify_all();
      }
      throw yacl::LinkError(why_);
    }
    if (std::chrono::duration<double>(now - t0).count() > watchdog_s) {
      aborted_ = true;
      timed_out_ = true;
      why_ = "watchdog";
      cv_.notify_all();
      throw yacl::LinkError(why_);
    }
  }
}

void World::MarkDone(int party) {
  std::lock_guard<std::mutex> g(mu_);
  done_[party] = 1;
  cv_.notify_all();
}
void World::Abort(const std::string& why) {
  std::lock_guard<std::mutex> g(mu_);
  aborted_ = true;
  why_ = why;
  cv_.notify_all();
}
std::vector<Msg> World::TakeLog() {
  std::lock_guard<std::mutex> g(mu_);
  auto r = std::move(log_);
  log_.clear();
  // receivers index into log_; keep mailboxes consistent only when empty
  if (!box_.empty()) {
    log_ = r;
  }
  return r;
}
size_t World::undelivered() {
  std::lock_guard<std::mutex> g(mu_);
  return box_.size();
}
}  // namespace vmon

namespace yacl::link {
Context::Context(std::shared_ptr<vmon::World> world, std::string id,
                 size_t rank, std::vector<size_t> members)
    : world_(std::move(world)),
      id_(std::move(id)),
      rank_(rank),
      members_(std::move(members)) {}
Context::~Context() = default;

std::unique_ptr<Context> Context::Spawn(const std::string& id) {
  std::string sub;
  {
    std::lock_guard<std::mutex> g(mu_);
    sub = id_ + "-" + (id.empty() ? std::to_string(child_counter_++) : id);
  }
  auto c = std::make_unique<Context>(world_, sub, rank_, members_);
  c->recv_timeout_ms_ = recv_timeout_ms_;
  return c;
}
std::unique_ptr<Context> Context::SubWorld(
    std::string_view suffix, const std::vector<std::string>& ids) {
  std::vector<size_t> m;
  size_t r = 0;
  for (auto& s : ids) {
    size_t i = static_cast<size_t>(std::stoul(s));
    if (i == rank_) r = m.size();
    m.push_back(members_.at(i));
  }
  return std::make_unique<Context>(world_, id_ + "-" + std::string(suffix), r, m);
}
std::string Context::NextId() {
  std::lock_guard<std::mutex> g(mu_);
  return id_ + ":" + std::to_string(counter_++);
}
void Context::SendInternal(size_t dst, const std::string& key,
                           ByteContainerView v, std::string_view tag,
                           char kind) {
  YACL_ENFORCE(dst < members_.size(), "rank={} out of range={}", dst,
               members_.size());
  vmon::AdoptParty(static_cast<int>(members_[rank_]));
  std::string p(reinterpret_cast<const char*>(v.data()), v.size());
  world_->Send(static_cast<int>(members_[rank_]),
               static_cast<int>(members_[dst]), kind, key, std::move(p), tag);
  stats_->sent_actions++;
  stats_->sent_bytes += v.size();
}
Buffer Context::RecvInternal(size_t src, const std::string& key,
                             std::string_view tag) {
  YACL_ENFORCE(src < members_.size(), "rank={} out of range={}", src,
               members_.size());
  vmon::AdoptParty(static_cast<int>(members_[rank_]));
  auto s = world_->Recv(static_cast<int>(members_[rank_]),
                        static_cast<int>(members_[src]), key, tag);
  stats_->recv_actions++;
  stats_->recv_bytes += s.size();
  return Buffer(s.data(), s.size());
}
void Context::SendAsync(size_t dst, ByteContainerView value,
                        std::string_view tag) {
  YACL_ENFORCE(dst < members_.size(), "rank={} out of range={}", dst,
               members_.size());
  uint64_t n;
  {
    std::lock_guard<std::mutex> g(mu_);
    n = p2p_counter_[{rank_, dst}]++;
  }
  SendInternal(dst,
               id_ + ":P2P-" + std::to_string(n) + ":" + std::to_string(rank_) +
                   "->" + std::to_string(dst),
               value, tag, 'p');
}
Buffer Context::Recv(size_t src, std::string_view tag) {
  YACL_ENFORCE(src < members_.size(), "rank={} out of range={}", src,
               members_.size());
  uint64_t n;
  {
    std::lock_guard<std::mutex> g(mu_);
    n = p2p_counter_[{src, rank_}]++;
  }
  return RecvInternal(src,
                      id_ + ":P2P-" + std::to_string(n) + ":" +
                          std::to_string(src) + "->" + std::to_string(rank_),
                      tag);
}

std::vector<Buffer> AllGather(const std::shared_ptr<Context>& ctx,
                              ByteContainerView input, std::string_view tag) {
  const auto id = ctx->NextId() + ":ALLGATHER";
  const size_t n = ctx->WorldSize();
  std::vector<Buffer> r(n);
  for (size_t i = 1; i < n; i++) {
    size_t dst = (ctx->Rank() + i) % n;
    ctx->SendInternal(dst, id + ":" + std::to_string(ctx->Rank()), input, tag,
                      'c');
  }
  for (size_t i = 0; i < n; i++) {
    if (i == ctx->Rank()) {
      r[i] = Buffer(input.data(), input.size());
    } else {
      r[i] = ctx->RecvInternal(i, id + ":" + std::to_string(i), tag);
    }
  }
  return r;
}
std::vector<Buffer> Gather(const std::shared_ptr<Context>& ctx,
                           ByteContainerView input, size_t root,
                           std::string_view tag) {
  const auto id = ctx->NextId() + ":GATHER";
  const size_t n = ctx->WorldSize();
  std::vector<Buffer> r;
  if (ctx->Rank() != root) {
    ctx->SendInternal(root, id + ":" + std::to_string(ctx->Rank()), input, tag,
                      'c');
    return r;
  }
  r.resize(n);
  for (size_t i = 0; i < n; i++) {
    if (i == root) {
      r[i] = Buffer(input.data(), input.size());
    } else {
      r[i] = ctx->RecvInternal(i, id + ":" + std::to_string(i), tag);
    }
  }
  return r;
}
Buffer Broadcast(const std::shared_ptr<Context>& ctx, ByteContainerView input,
                 size_t root, std::string_view tag) {
  const auto id = ctx->NextId() + ":BCAST";
  if (ctx->Rank() == root) {
    for (size_t i = 0; i < ctx->WorldSize(); i++) {
      if (i != root) ctx->SendInternal(i, id, input, tag, 'c');
    }
    return Buffer(input.data(), input.size());
  }
  return ctx->RecvInternal(root, id, tag);
}
void Barrier(const std::shared_ptr<Context>& ctx, std::string_view tag) {
  uint8_t b = 0;
  AllGather(ctx, ByteContainerView(&b, 1), tag);
}

static std::shared_ptr<TraceLogger> g_trace_logger;
static std::mutex g_trace_mu;
void TraceLogger::SetLogger(std::shared_ptr<TraceLogger> l) {
  std::lock_guard<std::mutex> g(g_trace_mu);
  g_trace_logger = std::move(l);
}

namespace test {
std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id,
                                                 size_t n) {
  auto w = std::make_shared<vmon::World>(id, n);
  std::vector<size_t> m(n);
  for (size_t i = 0; i < n; i++) m[i] = i;
  std::vector<std::shared_ptr<Context>> r;
  for (size_t i = 0; i < n; i++) {
    r.push_back(std::make_shared<Context>(w, id, i, m));
  }
  return r;
}
}  // namespace test
}  // namespace yacl::link

namespace yacl::internal {
void RunChunks(int64_t begin, int64_t end, int64_t grain,
               const std::function<void(int64_t, int64_t, size_t)>& f,
               size_t* nchunks) {
  const int64_t n = end - begin;
  // VERIF_PAR: a run for the race detector; every region that can be split is
  static const bool force = std::getenv("VERIF_PAR") != nullptr;
  const int mode = force ? vmon::kParThreads : vmon::g_par_mode.load();
  int64_t chunk;
  if (mode == vmon::kParDefault) {
    const int64_t nt = std::max<int64_t>(1, vmon::g_num_threads.load());
    chunk = std::max<int64_t>(grain, (n + nt - 1) / nt);
  } else {
    chunk = std::max<int64_t>(1, vmon::g_par_chunk.load());
    // at most 64 chunks
    chunk = std::max<int64_t>(chunk, (n + 63) / 64);
  }
  if (tls_in_parallel || n <= chunk) {
    *nchunks = 1;
    f(begin, end, 0);
    return;
  }
  std::vector<std::pair<int64_t, int64_t>> cs;
  for (int64_t b = begin; b < end; b += chunk) {
    cs.emplace_back(b, std::min(end, b + chunk));
  }
  *nchunks = cs.size();
  vmon::g_par_regions++;
  if (mode == vmon::kParReverse) std::reverse(cs.begin(), cs.end());
  if (mode != vmon::kParThreads) {
    tls_in_parallel = true;
    try {
      for (size_t i = 0; i < cs.size(); i++) f(cs[i].first, cs[i].second, i);
    } catch (...) {
      tls_in_parallel = false;
      throw;
    }
    tls_in_parallel = false;
    return;
  }
  const size_t nt = std::min<size_t>(4, cs.size());
  std::exception_ptr ep;
  std::mutex mu;
  std::vector<std::thread> ts;
  const int party = vmon::ThreadParty();
  for (size_t t = 0; t < nt; t++) {
    ts.emplace_back([&, t] {
      vmon::AdoptParty(party);
      tls_in_parallel = true;
      try {
        for (size_t i = t; i < cs.size(); i += nt) {
          f(cs[i].first, cs[i].second, i);
        }
      } catch (...) {
        std::lock_guard<std::mutex> g(mu);
        if (!ep) ep = std::current_exception();
      }
    });
  }
  for (auto& t : ts) t.join();
  if (ep) std::rethrow_exception(ep);
}
}  // namespace yacl::internal
