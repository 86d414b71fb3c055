// Observation and control points of the stand-in third-party layer.
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
#include <condition_variable>

#include "yacl/base/int128.h"

namespace vmon {

// ---- thread identity and deterministic "secure" randomness ----------------
// Every party thread gets (party, seed); SecureRandSeed & friends then draw
// from a per-thread counter-based generator, so that a run replays. Threads
// the code under test starts on its own inherit the identity of the link
// context they use, with a fresh sub-stream.
void SetThread(int party, uint64_t seed);
int ThreadParty();
void AdoptParty(int party);  // only if the thread has no identity yet
uint64_t NextRand64();
uint128_t NextRand128();

// ---- record of pseudo-random stream consumption ---------------------------
struct PrgUse {
  int party;
  int kind;  // CryptoType
  uint128_t seed;
  uint128_t iv;
  uint64_t begin;  // first 16-byte block
  uint64_t end;    // one past the last block
  uint64_t nbytes;
  uint64_t order;
};
void PrgLogEnable(bool on);
void PrgLogAdd(int kind, uint128_t seed, uint128_t iv, uint64_t b, uint64_t e,
               uint64_t nbytes);
std::vector<PrgUse> PrgLogTake();

// ---- parallel_for control --------------------------------------------------
enum ParMode : int { kParDefault = 0, kParChunked = 1, kParReverse = 2, kParThreads = 3 };
extern std::atomic<int> g_par_mode;
extern std::atomic<int64_t> g_par_chunk;    // chunk size used in modes 1..3
extern std::atomic<uint64_t> g_par_regions; // regions that ran with >1 chunk
extern std::atomic<int> g_num_threads;

// ---- the in-process world --------------------------------------------------
struct Msg {
  int src;
  int dst;
  char kind;  // 'p' point to point, 'c' collective
  std::string key;
  std::string tag;
  std::string recv_tag;
  size_t size;
  std::string payload;  // only when recording payloads
  uint64_t order;       // global send order
  uint64_t src_seq;     // per-(src) send order
  bool received;
};

// Raised at a receiver whose peer has finished without sending.
class PeerGone;

class World {
 public:
  World(std::string id, size_t n) : id_(std::move(id)), n_(n), done_(n, 0) {}
  const std::string& id() const { return id_; }
  size_t size() const { return n_; }

  void Send(int src, int dst, char kind, const std::string& key,
            std::string payload, std::string_view tag);
  std::string Recv(int dst, int src, const std::string& key,
                   std::string_view tag);

  // The party's main function returned (or threw).
  void MarkDone(int party);
  void Abort(const std::string& why);

  // options, set before the parties start
  bool record_payload = false;
  uint64_t jitter_seed = 0;  // != 0: random delays at send/recv
  // called under the world lock for every message before delivery
  std::function<void(Msg&, std::string& payload)> on_send;
  double watchdog_s = 100;

  std::vector<Msg> TakeLog();
  size_t undelivered();
  bool timed_out() const { return timed_out_; }
  bool deadlocked() const { return deadlocked_; }
  uint64_t num_msgs() const { return order_; }

 private:
  std::string id_;
  size_t n_;
  std::mutex mu_;
  std::condition_variable cv_;
  std::vector<int> done_;
  std::map<std::pair<int, std::string>, std::pair<std::string, size_t>> box_;
  std::vector<Msg> log_;
  uint64_t order_ = 0;
  std::map<int, uint64_t> src_seq_;
  bool aborted_ = false;
  bool timed_out_ = false;
  bool deadlocked_ = false;
  std::string why_;
};
}  // namespace vmon
