// Ideal correlated OT in place of yacl's Ferret / SoftSpoken extensions: the
// sender draws the strings and the receiver is handed the ones it chose.
// Everything above it (OT post-processing, packing, the protocols) is real.
#pragma once
#include <vector>

#include "yacl/base/dynamic_bitset.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/link/link.h"

#include "libspu/core/prelude.h"
#include "libspu/mpc/cheetah/ot/ot_util.h"
#include "libspu/mpc/cheetah/ot/yacl/yacl_util.h"

namespace spu::mpc::cheetah {
namespace yc = yacl::crypto;
namespace yl = yacl::link;

class YaclOTeAdapter {
 public:
  YaclOTeAdapter(const std::shared_ptr<yl::Context>& ctx, bool is_sender)
      : ctx_(ctx), is_sender_(is_sender) {}
  virtual ~YaclOTeAdapter() = default;
  void send_rcot(absl::Span<uint128_t> data) { send_cot(data); }
  void recv_rcot(absl::Span<uint128_t> data, absl::Span<uint8_t> choices) {
    for (auto& c : choices) c = yc::SecureRandU64() & 1;
    recv_cot(data, choices);
  }
  void send_cot(absl::Span<uint128_t> data) {
    SPU_ENFORCE(is_sender_);
    std::vector<uint128_t> m(data.size() + 1);
    m[0] = Delta;
    for (size_t i = 0; i < data.size(); i++) {
      m[i + 1] = data[i] = yc::SecureRandU128();
    }
    ctx_->SendAsync(ctx_->NextRank(),
                    yacl::ByteContainerView(m.data(), m.size() * 16), "ideal-cot");
  }
  void recv_cot(absl::Span<uint128_t> data, absl::Span<const uint8_t> choices) {
    SPU_ENFORCE(!is_sender_ && data.size() == choices.size());
    auto b = ctx_->Recv(ctx_->NextRank(), "ideal-cot");
    SPU_ENFORCE(static_cast<size_t>(b.size()) == 16 * (data.size() + 1),
                "OT extension: peers disagree on the number of OTs");
    std::vector<uint128_t> m(data.size() + 1);
    std::memcpy(m.data(), b.data(), b.size());
    for (size_t i = 0; i < data.size(); i++) {
      data[i] = m[i + 1] ^ ((choices[i] & 1) ? m[0] : 0);
    }
  }
  void OneTimeSetup() {
    if (is_sender_) Delta = yc::SecureRandU128() | 1;
  }
  uint128_t Delta{0};
  uint128_t GetDelta() const { return Delta; }

 private:
  std::shared_ptr<yl::Context> ctx_;
  bool is_sender_;
};
class YaclFerretOTeAdapter : public YaclOTeAdapter {
 public:
  using YaclOTeAdapter::YaclOTeAdapter;
};
class YaclSsOTeAdapter : public YaclOTeAdapter {
 public:
  using YaclOTeAdapter::YaclOTeAdapter;
};
}  // namespace spu::mpc::cheetah
