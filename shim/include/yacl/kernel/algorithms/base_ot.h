// Ideal base OT: the sender's two blocks travel in the clear and the receiver
// keeps the chosen one (functionality only).
#pragma once
#include <memory>
#include "yacl/kernel/type/ot_store.h"
#include "yacl/crypto/rand/rand.h"
#include "yacl/link/link.h"
namespace yacl::crypto {
inline void BaseOtRecv(const std::shared_ptr<link::Context>& ctx,
                       const dynamic_bitset<uint128_t>& choices,
                       absl::Span<uint128_t> recv) {
  auto buf = ctx->Recv(ctx->NextRank(), "IDEAL_BASE_OT");
  YACL_ENFORCE(buf.size() == static_cast<int64_t>(recv.size() * 32));
  auto* p = buf.data<uint128_t>();
  for (size_t i = 0; i < recv.size(); i++) std::memcpy(&recv[i], p + 2 * i + (choices.test(i) ? 1 : 0), 16);
}
inline void BaseOtSend(const std::shared_ptr<link::Context>& ctx,
                       absl::Span<std::array<uint128_t, 2>> send) {
  for (auto& s : send) s = {SecureRandU128(), SecureRandU128()};
  ctx->SendAsync(ctx->NextRank(), ByteContainerView(reinterpret_cast<const uint8_t*>(send.data()), send.size() * 32), "IDEAL_BASE_OT");
}
}  // namespace yacl::crypto
