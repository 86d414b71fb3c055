// EmpFerretOt has the interface of YaclFerretOt; emp-ot is not installed, so it
// forwards to the (real) YaclFerretOt code.
#include "libspu/mpc/cheetah/ot/emp/ferret.h"
#include "libspu/mpc/cheetah/ot/yacl/ferret.h"
namespace spu::mpc::cheetah {
struct EmpFerretOt::Impl { YaclFerretOt ot; Impl(std::shared_ptr<Communicator> c, bool s) : ot(std::move(c), s, false) {} };
EmpFerretOt::EmpFerretOt(std::shared_ptr<Communicator> conn, bool is_sender, bool) : impl_(std::make_shared<Impl>(std::move(conn), is_sender)) {}
EmpFerretOt::~EmpFerretOt() = default;
int EmpFerretOt::Rank() const { return impl_->ot.Rank(); }
void EmpFerretOt::Flush() { impl_->ot.Flush(); }
void EmpFerretOt::SendCMCC(absl::Span<const uint8_t> msg_array, size_t N, size_t bit_width) { impl_->ot.SendCMCC(msg_array, N, bit_width); }
void EmpFerretOt::SendCMCC(absl::Span<const uint32_t> msg_array, size_t N, size_t bit_width) { impl_->ot.SendCMCC(msg_array, N, bit_width); }
void EmpFerretOt::SendCMCC(absl::Span<const uint64_t> msg_array, size_t N, size_t bit_width) { impl_->ot.SendCMCC(msg_array, N, bit_width); }
void EmpFerretOt::SendCMCC(absl::Span<const uint128_t> msg_array, size_t N, size_t bit_width) { impl_->ot.SendCMCC(msg_array, N, bit_width); }
void EmpFerretOt::RecvCMCC(absl::Span<const uint8_t> one_oo_N_choices, size_t N, absl::Span<uint8_t> output, size_t bit_width) { impl_->ot.RecvCMCC(one_oo_N_choices, N, output, bit_width); }
void EmpFerretOt::RecvCMCC(absl::Span<const uint8_t> one_oo_N_choices, size_t N, absl::Span<uint32_t> output, size_t bit_width) { impl_->ot.RecvCMCC(one_oo_N_choices, N, output, bit_width); }
void EmpFerretOt::RecvCMCC(absl::Span<const uint8_t> one_oo_N_choices, size_t N, absl::Span<uint64_t> output, size_t bit_width) { impl_->ot.RecvCMCC(one_oo_N_choices, N, output, bit_width); }
void EmpFerretOt::RecvCMCC(absl::Span<const uint8_t> one_oo_N_choices, size_t N, absl::Span<uint128_t> output, size_t bit_width) { impl_->ot.RecvCMCC(one_oo_N_choices, N, output, bit_width); }
void EmpFerretOt::SendRMRC(absl::Span<uint8_t> output0, absl::Span<uint8_t> output1, size_t bit_width) { impl_->ot.SendRMRC(output0, output1, bit_width); }
void EmpFerretOt::SendRMRC(absl::Span<uint32_t> output0, absl::Span<uint32_t> output1, size_t bit_width) { impl_->ot.SendRMRC(output0, output1, bit_width); }
void EmpFerretOt::SendRMRC(absl::Span<uint64_t> output0, absl::Span<uint64_t> output1, size_t bit_width) { impl_->ot.SendRMRC(output0, output1, bit_width); }
void EmpFerretOt::SendRMRC(absl::Span<uint128_t> output0, absl::Span<uint128_t> output1, size_t bit_width) { impl_->ot.SendRMRC(output0, output1, bit_width); }
void EmpFerretOt::RecvRMRC(absl::Span<uint8_t> binary_choices, absl::Span<uint8_t> output, size_t bit_width) { impl_->ot.RecvRMRC(binary_choices, output, bit_width); }
void EmpFerretOt::RecvRMRC(absl::Span<uint8_t> binary_choices, absl::Span<uint32_t> output, size_t bit_width) { impl_->ot.RecvRMRC(binary_choices, output, bit_width); }
void EmpFerretOt::RecvRMRC(absl::Span<uint8_t> binary_choices, absl::Span<uint64_t> output, size_t bit_width) { impl_->ot.RecvRMRC(binary_choices, output, bit_width); }
void EmpFerretOt::RecvRMRC(absl::Span<uint8_t> binary_choices, absl::Span<uint128_t> output, size_t bit_width) { impl_->ot.RecvRMRC(binary_choices, output, bit_width); }
void EmpFerretOt::SendCAMCC(absl::Span<const uint8_t> corr, absl::Span<uint8_t> output, int bit_width) { impl_->ot.SendCAMCC(corr, output, bit_width); }
void EmpFerretOt::SendCAMCC(absl::Span<const uint32_t> corr, absl::Span<uint32_t> output, int bit_width) { impl_->ot.SendCAMCC(corr, output, bit_width); }
void EmpFerretOt::SendCAMCC(absl::Span<const uint64_t> corr, absl::Span<uint64_t> output, int bit_width) { impl_->ot.SendCAMCC(corr, output, bit_width); }
void EmpFerretOt::SendCAMCC(absl::Span<const uint128_t> corr, absl::Span<uint128_t> output, int bit_width) { impl_->ot.SendCAMCC(corr, output, bit_width); }
void EmpFerretOt::RecvCAMCC(absl::Span<const uint8_t> binary_choices, absl::Span<uint8_t> output, int bit_width) { impl_->ot.RecvCAMCC(binary_choices, output, bit_width); }
void EmpFerretOt::RecvCAMCC(absl::Span<const uint8_t> binary_choices, absl::Span<uint32_t> output, int bit_width) { impl_->ot.RecvCAMCC(binary_choices, output, bit_width); }
void EmpFerretOt::RecvCAMCC(absl::Span<const uint8_t> binary_choices, absl::Span<uint64_t> output, int bit_width) { impl_->ot.RecvCAMCC(binary_choices, output, bit_width); }
void EmpFerretOt::RecvCAMCC(absl::Span<const uint8_t> binary_choices, absl::Span<uint128_t> output, int bit_width) { impl_->ot.RecvCAMCC(binary_choices, output, bit_width); }
void EmpFerretOt::SendCAMCC_Collapse(absl::Span<const uint8_t> corr, absl::Span<uint8_t> output, int bit_width_begin, int num_level) { impl_->ot.SendCAMCC_Collapse(corr, output, bit_width_begin, num_level); }
void EmpFerretOt::SendCAMCC_Collapse(absl::Span<const uint32_t> corr, absl::Span<uint32_t> output, int bit_width_begin, int num_level) { impl_->ot.SendCAMCC_Collapse(corr, output, bit_width_begin, num_level); }
void EmpFerretOt::SendCAMCC_Collapse(absl::Span<const uint64_t> corr, absl::Span<uint64_t> output, int bit_width_begin, int num_level) { impl_->ot.SendCAMCC_Collapse(corr, output, bit_width_begin, num_level); }
void EmpFerretOt::SendCAMCC_Collapse(absl::Span<const uint128_t> corr, absl::Span<uint128_t> output, int bit_width_begin, int num_level) { impl_->ot.SendCAMCC_Collapse(corr, output, bit_width_begin, num_level); }
void EmpFerretOt::RecvCAMCC_Collapse(absl::Span<const uint8_t> binary_choices, absl::Span<uint8_t> output, int bit_width_begin, int num_level) { impl_->ot.RecvCAMCC_Collapse(binary_choices, output, bit_width_begin, num_level); }
void EmpFerretOt::RecvCAMCC_Collapse(absl::Span<const uint8_t> binary_choices, absl::Span<uint32_t> output, int bit_width_begin, int num_level) { impl_->ot.RecvCAMCC_Collapse(binary_choices, output, bit_width_begin, num_level); }
void EmpFerretOt::RecvCAMCC_Collapse(absl::Span<const uint8_t> binary_choices, absl::Span<uint64_t> output, int bit_width_begin, int num_level) { impl_->ot.RecvCAMCC_Collapse(binary_choices, output, bit_width_begin, num_level); }
void EmpFerretOt::RecvCAMCC_Collapse(absl::Span<const uint8_t> binary_choices, absl::Span<uint128_t> output, int bit_width_begin, int num_level) { impl_->ot.RecvCAMCC_Collapse(binary_choices, output, bit_width_begin, num_level); }
void EmpFerretOt::SendRMCC(absl::Span<uint8_t> output0, absl::Span<uint8_t> output1, size_t bit_width) { impl_->ot.SendRMCC(output0, output1, bit_width); }
void EmpFerretOt::SendRMCC(absl::Span<uint32_t> output0, absl::Span<uint32_t> output1, size_t bit_width) { impl_->ot.SendRMCC(output0, output1, bit_width); }
void EmpFerretOt::SendRMCC(absl::Span<uint64_t> output0, absl::Span<uint64_t> output1, size_t bit_width) { impl_->ot.SendRMCC(output0, output1, bit_width); }
void EmpFerretOt::SendRMCC(absl::Span<uint128_t> output0, absl::Span<uint128_t> output1, size_t bit_width) { impl_->ot.SendRMCC(output0, output1, bit_width); }
void EmpFerretOt::RecvRMCC(absl::Span<const uint8_t> binary_choices, absl::Span<uint8_t> output, size_t bit_width) { impl_->ot.RecvRMCC(binary_choices, output, bit_width); }
void EmpFerretOt::RecvRMCC(absl::Span<const uint8_t> binary_choices, absl::Span<uint32_t> output, size_t bit_width) { impl_->ot.RecvRMCC(binary_choices, output, bit_width); }
void EmpFerretOt::RecvRMCC(absl::Span<const uint8_t> binary_choices, absl::Span<uint64_t> output, size_t bit_width) { impl_->ot.RecvRMCC(binary_choices, output, bit_width); }
void EmpFerretOt::RecvRMCC(absl::Span<const uint8_t> binary_choices, absl::Span<uint128_t> output, size_t bit_width) { impl_->ot.RecvRMCC(binary_choices, output, bit_width); }
}  // namespace spu::mpc::cheetah
