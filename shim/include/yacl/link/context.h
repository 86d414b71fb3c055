// Stand-in for yacl::link: an in-process world of parties whose every message
// is keyed like yacl's (context id, src, dst, per-channel sequence number for
// p2p; context id and per-context counter for collectives) and recorded for
// the monitors (see vmon/world.h).
#pragma once
#include <atomic>
#include <cstdint>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <string_view>
#include <vector>

#include "spdlog/spdlog.h"
#include "yacl/base/buffer.h"
#include "yacl/base/byte_container_view.h"
#include "yacl/base/exception.h"

namespace vmon {
class World;
}

namespace yacl::link {
inline constexpr size_t kAllRank = static_cast<size_t>(-1);

struct Statistics {
  std::atomic<size_t> sent_actions{0};
  std::atomic<size_t> sent_bytes{0};
  std::atomic<size_t> recv_actions{0};
  std::atomic<size_t> recv_bytes{0};
};

struct ContextDesc {
  struct Party {
    std::string id;
    std::string host;
  };
  std::string id = "root";
  std::vector<Party> parties;
};

class Context {
 public:
  Context(std::shared_ptr<vmon::World> world, std::string id, size_t rank,
          std::vector<size_t> members);
  ~Context();

  std::string Id() const { return id_; }
  size_t WorldSize() const { return members_.size(); }
  size_t Rank() const { return rank_; }
  size_t PrevRank(size_t stride = 1) const {
    return (rank_ + WorldSize() - stride % WorldSize()) % WorldSize();
  }
  size_t NextRank(size_t stride = 1) const {
    return (rank_ + stride) % WorldSize();
  }
  void ConnectToMesh() {}
  std::unique_ptr<Context> Spawn(const std::string& id = "");
  std::unique_ptr<Context> SubWorld(std::string_view id_suffix,
                                    const std::vector<std::string>& party_ids);
  void WaitLinkTaskFinish() {}

  void SendAsync(size_t dst_rank, ByteContainerView value,
                 std::string_view tag);
  void SendAsync(size_t dst_rank, Buffer&& value, std::string_view tag) {
    SendAsync(dst_rank, ByteContainerView(value.data<uint8_t>(), value.size()),
              tag);
  }
  void SendAsyncThrottled(size_t dst_rank, ByteContainerView value,
                          std::string_view tag) {
    SendAsync(dst_rank, value, tag);
  }
  void SendAsyncThrottled(size_t dst_rank, Buffer&& value,
                          std::string_view tag) {
    SendAsync(dst_rank, std::move(value), tag);
  }
  void Send(size_t dst_rank, ByteContainerView value, std::string_view tag) {
    SendAsync(dst_rank, value, tag);
  }
  Buffer Recv(size_t src_rank, std::string_view tag);

  void SetThrottleWindowSize(size_t) {}
  void SetRecvTimeout(uint64_t ms) { recv_timeout_ms_ = ms; }
  uint64_t GetRecvTimeout() const { return recv_timeout_ms_; }

  std::shared_ptr<const Statistics> GetStats() const { return stats_; }

  // used by the collective algorithms.
  std::string NextId();
  void SendInternal(size_t dst, const std::string& key, ByteContainerView v,
                    std::string_view tag, char kind);
  Buffer RecvInternal(size_t src, const std::string& key, std::string_view tag);

 private:
  std::shared_ptr<vmon::World> world_;
  std::string id_;
  size_t rank_;
  std::vector<size_t> members_;  // local rank -> global party
  std::mutex mu_;
  uint64_t counter_ = 0;
  uint64_t child_counter_ = 0;
  std::map<std::pair<size_t, size_t>, uint64_t> p2p_counter_;
  uint64_t recv_timeout_ms_ = 180 * 1000;
  std::shared_ptr<Statistics> stats_ = std::make_shared<Statistics>();
};

class RecvTimeoutGuard {
 public:
  RecvTimeoutGuard(std::shared_ptr<Context> c, uint64_t ms)
      : c_(std::move(c)), old_(c_->GetRecvTimeout()) {
    c_->SetRecvTimeout(ms);
  }
  ~RecvTimeoutGuard() { c_->SetRecvTimeout(old_); }

 private:
  std::shared_ptr<Context> c_;
  uint64_t old_;
};
}  // namespace yacl::link
