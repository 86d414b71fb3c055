// Ideal functionalities in place of Cheetah's SEAL-based multiplication and
// matrix products: one side sends its input, the other returns a random share.
#include "yacl/crypto/rand/rand.h"
#include "yacl/link/link.h"

#include "libspu/mpc/cheetah/arith/cheetah_dot.h"
#include "libspu/mpc/cheetah/arith/cheetah_mul.h"
#include "libspu/mpc/utils/ring_ops.h"

namespace spu::mpc::cheetah {
namespace {
void SendArr(yacl::link::Context* c, const NdArrayRef& a) {
  auto x = a.isCompact() ? a : a.clone();
  c->SendAsync(c->NextRank(),
               yacl::ByteContainerView(x.data(), x.numel() * x.elsize()), "ideal-he");
}
NdArrayRef RecvArr(yacl::link::Context* c, const Type& t, const Shape& s) {
  auto b = c->Recv(c->NextRank(), "ideal-he");
  NdArrayRef r(t, s);
  SPU_ENFORCE(b.size() == r.numel() * r.elsize(), "HE peers disagree on shapes");
  if (b.size() != 0) std::memcpy(r.data(), b.data(), b.size());
  return r;
}
FieldType FieldOf(const NdArrayRef& x) { return x.eltype().as<Ring2k>()->field(); }
NdArrayRef Ring(const NdArrayRef& x) { return x.as(makeType<RingTy>(FieldOf(x))); }
}  // namespace

struct CheetahMul::Impl {
  std::shared_ptr<yacl::link::Context> lctx;
};
CheetahMul::CheetahMul(std::shared_ptr<yacl::link::Context> lctx, bool)
    : impl_(std::make_unique<Impl>()) {
  impl_->lctx = std::move(lctx);
}
CheetahMul::~CheetahMul() = default;
int CheetahMul::Rank() const { return static_cast<int>(impl_->lctx->Rank()); }
size_t CheetahMul::OLEBatchSize() const { return 256; }
void CheetahMul::LazyInitKeys(FieldType, uint32_t) {}
NdArrayRef CheetahMul::MulOLE(const NdArrayRef& in, yacl::link::Context* conn,
                              bool is_evaluator, uint32_t) {
  if (conn == nullptr) conn = impl_->lctx.get();
  auto x = Ring(in);
  if (!is_evaluator) {
    SendArr(conn, x);
    return RecvArr(conn, x.eltype(), x.shape());
  }
  auto y = RecvArr(conn, x.eltype(), x.shape());
  auto r = ring_rand(FieldOf(in), x.shape());
  SendArr(conn, r);
  return ring_sub(ring_mul(x, y), r);
}
NdArrayRef CheetahMul::MulOLE(const NdArrayRef& in, bool is_evaluator, uint32_t w) {
  return MulOLE(in, nullptr, is_evaluator, w);
}
NdArrayRef CheetahMul::MulShare(const NdArrayRef& x0, const NdArrayRef& y0,
                                yacl::link::Context* conn, bool is_evaluator, uint32_t) {
  if (conn == nullptr) conn = impl_->lctx.get();
  auto x = Ring(x0), y = Ring(y0);
  if (!is_evaluator) {
    SendArr(conn, x);
    SendArr(conn, y);
    return RecvArr(conn, x.eltype(), x.shape());
  }
  auto px = RecvArr(conn, x.eltype(), x.shape());
  auto py = RecvArr(conn, x.eltype(), x.shape());
  auto r = ring_rand(FieldOf(x0), x.shape());
  SendArr(conn, r);
  return ring_sub(ring_mul(ring_add(x, px), ring_add(y, py)), r);
}
NdArrayRef CheetahMul::MulShare(const NdArrayRef& x, const NdArrayRef& y,
                                bool is_evaluator, uint32_t w) {
  return MulShare(x, y, nullptr, is_evaluator, w);
}

struct CheetahDot::Impl {
  std::shared_ptr<yacl::link::Context> lctx;
};
CheetahDot::CheetahDot(const std::shared_ptr<yacl::link::Context>& lctx, bool)
    : impl_(std::make_unique<Impl>()) {
  impl_->lctx = lctx;
}
CheetahDot::~CheetahDot() = default;
void CheetahDot::LazyInitKeys(FieldType) {}
NdArrayRef CheetahDot::DotOLE(const NdArrayRef& inp, const Shape3D& d, bool lhs) {
  return DotOLE(inp, impl_->lctx.get(), d, lhs);
}
NdArrayRef CheetahDot::DotOLE(const NdArrayRef& in, yacl::link::Context* conn,
                              const Shape3D& d, bool lhs) {
  if (conn == nullptr) conn = impl_->lctx.get();
  auto x = Ring(in);
  const Shape want = lhs ? Shape{d[0], d[1]} : Shape{d[1], d[2]};
  SPU_ENFORCE(x.shape() == want, "DotOLE: shape mismatch");
  if (lhs) {
    SendArr(conn, x);
    return RecvArr(conn, x.eltype(), {d[0], d[2]});
  }
  auto y = RecvArr(conn, x.eltype(), {d[0], d[1]});
  auto r = ring_rand(FieldOf(in), {d[0], d[2]});
  SendArr(conn, r);
  return ring_sub(ring_mmul(y, x), r);
}
NdArrayRef CheetahDot::BatchDotOLE(const NdArrayRef&, yacl::link::Context*,
                                   const Shape4D&, bool) {
  SPU_THROW("not provided");
}
}  // namespace spu::mpc::cheetah
