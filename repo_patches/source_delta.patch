From 786c2310f6fe8904a1875dec2710438b2d15a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 01/55] fix: bit reversal of a range ending at the ring width

(1 << end) is undefined when end equals the bit width of the storage type,
which corrupted the lowest bits (and ignored the input's removal for the full
range) in ring_bitrev and aby3 BitrevB.
---
 src/libspu/mpc/aby3/boolean.cc   | 8 +++++++-
 src/libspu/mpc/utils/ring_ops.cc | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index d83066a..cf7b139 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -502,7 +502,13 @@ NdArrayRef BitrevB::proc(KernelEvalContext*, const NdArrayRef& in, size_t start,
           }
         }
 
-        out_el_t mask = ((out_el_t)1U << end) - ((out_el_t)1U << start);
+        // Note: (1 << end) is undefined when end is the width of out_el_t.
+        out_el_t mask = 0;
+        if (start < end) {
+          mask = ((out_el_t)~(out_el_t)0 >>
+                  (sizeof(out_el_t) * 8 - (end - start)))
+                 << start;
+        }
         return (el & ~mask) | tmp;
       };
 
diff --git a/src/libspu/mpc/utils/ring_ops.cc b/src/libspu/mpc/utils/ring_ops.cc
index e0e67b2..4cf9354 100644
--- a/src/libspu/mpc/utils/ring_ops.cc
+++ b/src/libspu/mpc/utils/ring_ops.cc
@@ -154,7 +154,11 @@ void ring_bitrev_impl(NdArrayRef& ret, const NdArrayRef& x, size_t start,
         }
       }
 
-      U mask = ((U)1U << end) - ((U)1U << start);
+      // Note: (1 << end) is undefined when end is the bit width of U.
+      U mask = 0;
+      if (start < end) {
+        mask = ((U)~(U)0 >> (sizeof(U) * 8 - (end - start))) << start;
+      }
       return (in & ~mask) | tmp;
     };
 
-- 
2.43.0


From 4b9064cac00f75c2954abd7bfe1ff5d5a43d4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 02/55] fix: ring_neg/ring_not on unsigned ring elements

Negating the smallest signed value is undefined behaviour.
---
 src/libspu/mpc/utils/ring_ops.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/utils/ring_ops.cc b/src/libspu/mpc/utils/ring_ops.cc
index 4cf9354..62ca202 100644
--- a/src/libspu/mpc/utils/ring_ops.cc
+++ b/src/libspu/mpc/utils/ring_ops.cc
@@ -44,7 +44,7 @@ namespace {
     const auto field = x.eltype().as<Ring2k>()->field();                \
     const int64_t numel = ret.numel();                                  \
     return DISPATCH_ALL_FIELDS(field, [&]() {                           \
-      using T = std::make_signed_t<ring2k_t>;                           \
+      using T = ring2k_t;                                               \
       NdArrayView<T> _x(x);                                             \
       NdArrayView<T> _ret(ret);                                         \
       pforeach(0, numel, [&](int64_t idx) { _ret[idx] = OP _x[idx]; }); \
-- 
2.43.0


From 902ae8dc312b585755c4c6ef924adc82755b3014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 03/55] fix: aby3 shifts of narrow boolean shares

A boolean share may be stored in fewer bits than the ring; shifting by the
storage width or more is undefined and returned the value unshifted.
---
 src/libspu/mpc/aby3/boolean.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index cf7b139..c89b63d 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -400,8 +400,11 @@ NdArrayRef LShiftB::proc(KernelEvalContext* ctx, const NdArrayRef& in,
       pforeach(0, in.numel(), [&](int64_t idx) {
         const auto& v = _in[idx];
         auto shift_bit = is_splat ? bits[0] : bits[idx];
-        _out[idx][0] = static_cast<out_el_t>(v[0]) << shift_bit;
-        _out[idx][1] = static_cast<out_el_t>(v[1]) << shift_bit;
+        // shifting by the storage width or more is undefined in C++.
+        const bool in_range =
+            shift_bit < static_cast<int64_t>(sizeof(out_el_t) * 8);
+        _out[idx][0] = in_range ? static_cast<out_el_t>(v[0]) << shift_bit : 0;
+        _out[idx][1] = in_range ? static_cast<out_el_t>(v[1]) << shift_bit : 0;
       });
 
       return out;
@@ -432,8 +435,14 @@ NdArrayRef RShiftB::proc(KernelEvalContext*, const NdArrayRef& in,
       pforeach(0, in.numel(), [&](int64_t idx) {
         const auto& v = _in[idx];
         auto shift_bit = is_splat ? bits[0] : bits[idx];
-        _out[idx][0] = static_cast<out_el_t>(v[0] >> shift_bit);
-        _out[idx][1] = static_cast<out_el_t>(v[1] >> shift_bit);
+        // shifting by the storage width or more is undefined in C++, the
+        // storage may be narrower than the ring.
+        const bool in_range =
+            shift_bit < static_cast<int64_t>(sizeof(v[0]) * 8);
+        _out[idx][0] =
+            in_range ? static_cast<out_el_t>(v[0] >> shift_bit) : 0;
+        _out[idx][1] =
+            in_range ? static_cast<out_el_t>(v[1] >> shift_bit) : 0;
       });
 
       return out;
-- 
2.43.0


From 0048ccd74e38995a90eb316235239f2ca080cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 04/55] fix: cheetah permutation of a single element

---
 src/libspu/mpc/cheetah/permute.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libspu/mpc/cheetah/permute.cc b/src/libspu/mpc/cheetah/permute.cc
index 72d3fe2..8bc8e0f 100644
--- a/src/libspu/mpc/cheetah/permute.cc
+++ b/src/libspu/mpc/cheetah/permute.cc
@@ -74,6 +74,10 @@ NdArrayRef SecureInvPerm(KernelEvalContext* ctx, NdArrayRef& x,
   const auto field = x.eltype().as<RingTy>()->field();
   const auto num_packets = pv.size();
   SPU_ENFORCE(num_packets > 0, "permutation vector should not be empty.");
+  if (num_packets == 1) {
+    // the network needs at least two wires, and there is nothing to permute.
+    return x;
+  }
   // build graph structure
   const auto graph = generate_as_waksman_topology(num_packets);
   const auto width = graph.size();
-- 
2.43.0


From e63727c4eec916c49449daf26880e4e080643855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 05/55] fix: cheetah AND of shares with zero valid bits

The AND of a share and public zeros has no valid bits; ANDing it again threw.
---
 src/libspu/mpc/cheetah/boolean.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libspu/mpc/cheetah/boolean.cc b/src/libspu/mpc/cheetah/boolean.cc
index d6ad486..288a49d 100644
--- a/src/libspu/mpc/cheetah/boolean.cc
+++ b/src/libspu/mpc/cheetah/boolean.cc
@@ -17,6 +17,8 @@
 #include "libspu/core/ndarray_ref.h"
 #include "libspu/mpc/cheetah/ot/basic_ot_prot.h"
 #include "libspu/mpc/cheetah/state.h"
+#include "libspu/mpc/cheetah/type.h"
+#include "libspu/mpc/utils/ring_ops.h"
 
 namespace spu::mpc::cheetah {
 
@@ -28,6 +30,11 @@ NdArrayRef AndBB::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
   if (numel == 0) {
     return NdArrayRef(lhs.eltype(), lhs.shape());
   }
+  if (lhs.eltype().as<BShrTy>()->nbits() == 0) {
+    // lhs is known to be zero (e.g. the AND of a share and public zeros).
+    return ring_zeros(lhs.eltype().as<Ring2k>()->field(), lhs.shape())
+        .as(lhs.eltype());
+  }
 
   return TiledDispatchOTFunc(
              ctx, lhs, rhs,
-- 
2.43.0


From 549c0aa39ba2366a4c6e9fcafd5a4aabbf212d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 06/55] fix: spdz2k public-to-boolean conversion of all-zero
 inputs

Divided by zero as the widest element has no bits.
---
 src/libspu/mpc/spdz2k/boolean.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/spdz2k/boolean.cc b/src/libspu/mpc/spdz2k/boolean.cc
index 7f230a2..66687f2 100644
--- a/src/libspu/mpc/spdz2k/boolean.cc
+++ b/src/libspu/mpc/spdz2k/boolean.cc
@@ -43,7 +43,8 @@ NdArrayRef P2Value(FieldType out_field, const NdArrayRef& in, size_t k,
 
     size_t valid_nbits = k;
     if (new_nbits == 0) {
-      valid_nbits = std::min(k, maxBitWidth<PShrT>(in));
+      // a boolean share holds at least one bit, even of an all-zero input.
+      valid_nbits = std::min(k, std::max<size_t>(1, maxBitWidth<PShrT>(in)));
     } else if (new_nbits < k) {
       valid_nbits = new_nbits;
     }
-- 
2.43.0


From e02cd45bcb9aab94d72b186c7bded2bfec8e6549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:23 +0000
Subject: [PATCH 07/55] fix: spdz2k boolean shares of tensors with a last
 dimension of one

The bit-wise views assumed that the last stride is one: it is zero for a
dimension of size one, and arbitrary for slices and transposes.
---
 src/libspu/mpc/spdz2k/value.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/value.cc b/src/libspu/mpc/spdz2k/value.cc
index 029f065..1b132ff 100644
--- a/src/libspu/mpc/spdz2k/value.cc
+++ b/src/libspu/mpc/spdz2k/value.cc
@@ -57,7 +57,7 @@ NdArrayRef makeBShare(const NdArrayRef& s1, const NdArrayRef& s2,
   int64_t res_numel = res.numel();
 
   DISPATCH_ALL_FIELDS(field, [&]() {
-    NdArrayView<std::array<ring2k_t, 2>> _res(res);
+    auto* _res = res.data<std::array<ring2k_t, 2>>();
 
     pforeach(0, res_numel * k, [&](int64_t i) {
       _res[i][0] = 0;
@@ -97,21 +97,24 @@ NdArrayRef getShare(const NdArrayRef& in, int64_t share_idx) {
     Shape new_shape = in.shape();
     new_shape.back() *= nbits;
 
+    // The bits of an element are adjacent, so the bit-wise view below is only
+    // valid for compact inputs.
+    const NdArrayRef x = in.isCompact() ? in : in.clone();
+
     if (nbits == k) {
-      Strides new_strides = in.strides();
-      std::transform(new_strides.cbegin(), new_strides.cend() - 1,
-                     new_strides.begin(), [k](int64_t s) { return 2 * s * k; });
-      new_strides.back() *= 2;
+      Strides new_strides = makeCompactStrides(new_shape);
+      std::transform(new_strides.cbegin(), new_strides.cend(),
+                     new_strides.begin(), [](int64_t s) { return 2 * s; });
       return NdArrayRef{
-          in.buf(), ty, new_shape, new_strides,
-          in.offset() + share_idx * static_cast<int64_t>(ty.size())};
+          x.buf(), ty, new_shape, new_strides,
+          x.offset() + share_idx * static_cast<int64_t>(ty.size())};
     } else {
       NdArrayRef ret(ty, new_shape);
 
       DISPATCH_ALL_FIELDS(field, [&]() {
         size_t numel = in.numel();
         NdArrayView<ring2k_t> _ret(ret);
-        NdArrayView<std::array<ring2k_t, 2>> _in(in);
+        const auto* _in = x.data<std::array<ring2k_t, 2>>();
 
         pforeach(0, numel, [&](int64_t i) {
           for (size_t j = 0; j < nbits; ++j) {
-- 
2.43.0


From e89a6e97a4cc7e6b37fc5755518332d4591b571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:46 +0000
Subject: [PATCH 08/55] fix: spdz2k AND of a share and public zeros

The result was given zero bits, which the share layout cannot represent.
---
 src/libspu/mpc/spdz2k/value.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/spdz2k/value.cc b/src/libspu/mpc/spdz2k/value.cc
index 1b132ff..1e1ed03 100644
--- a/src/libspu/mpc/spdz2k/value.cc
+++ b/src/libspu/mpc/spdz2k/value.cc
@@ -163,8 +163,9 @@ size_t minNumBits(const NdArrayRef& lhs, const NdArrayRef& rhs) {
   const auto rhs_field = rhs_ty->field();
   return DISPATCH_ALL_FIELDS(rhs_field, [&]() {
     using PShrT = ring2k_t;
+    // a boolean share holds at least one bit, even if rhs is all zeros.
     return std::min(lhs.eltype().as<BShare>()->nbits(),
-                    maxBitWidth<PShrT>(rhs));
+                    std::max<size_t>(1, maxBitWidth<PShrT>(rhs)));
   });
 }
 
-- 
2.43.0


From 99462e97c88d7a6561acca060def20ad855e7bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:21 +0000
Subject: [PATCH 09/55] fix: pad and expand of empty tensors

expand() copied one element into an empty buffer and never terminated, and
the interior padding of an empty dimension gave a negative size.
---
 src/libspu/core/ndarray_ref.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 7fc7bc4..9eb3756 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -32,7 +32,8 @@ Shape deducePadShape(const Shape& input_shape, const Sizes& edge_padding_low,
   SPU_ENFORCE(interior_padding.size() == input_shape.size());
   for (size_t i = 0; i < input_shape.size(); i++) {
     dims.emplace_back(edge_padding_low[i] + edge_padding_high[i] +
-                      interior_padding[i] * (input_shape[i] - 1) +
+                      interior_padding[i] *
+                          std::max<int64_t>(input_shape[i] - 1, 0) +
                       input_shape[i]);
   }
 
@@ -363,6 +364,9 @@ NdArrayRef NdArrayRef::reverse(const Axes& dimensions) const {
 NdArrayRef NdArrayRef::expand(const Shape& to_shape) const {
   SPU_ENFORCE(numel() == 1, "Only support expanding scalar");
   NdArrayRef ret(eltype(), to_shape);
+  if (ret.numel() == 0) {
+    return ret;
+  }
   // compute number of elements need to copy
   size_t numel = ret.numel();
   size_t num_bytes = numel * elsize();
-- 
2.43.0


From a1edef1b7f924cf5218e8cb464d93da31e6f37eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:49 +0000
Subject: [PATCH 10/55] fix: slice that keeps one element of a dimension by its
 stride

The dimension kept a non-zero stride, so a later broadcast along it read
other elements or out of bounds.
---
 src/libspu/core/ndarray_ref.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 9eb3756..2493f67 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -305,14 +305,16 @@ NdArrayRef NdArrayRef::slice(const Index& start_indices,
     new_shape[idx] = std::max(end_indices[idx] - start_indices[idx],
                               static_cast<int64_t>(0));
 
-    if (new_shape[idx] == 1) {
-      new_strides[idx] = 0;
-    } else if (!slice_strides.empty()) {
+    if (!slice_strides.empty()) {
       auto n = new_shape[idx] / slice_strides[idx];
       auto q = new_shape[idx] % slice_strides[idx];
       new_shape[idx] = n + static_cast<int64_t>(q != 0);
       new_strides[idx] *= slice_strides[idx];
     }
+    if (new_shape[idx] == 1) {
+      // a single element dimension could be broadcasted later.
+      new_strides[idx] = 0;
+    }
   }
 
   return NdArrayRef(buf(), eltype(), new_shape, new_strides,
-- 
2.43.0


From f71af7c25028f799e787cfd61d76daa19ca2a65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:24 +0000
Subject: [PATCH 11/55] fix: forced retyping of arrays with negative strides

The strides were computed in unsigned arithmetic.
---
 src/libspu/core/ndarray_ref.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 2493f67..8bd95cd 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -195,12 +195,14 @@ NdArrayRef NdArrayRef::as(const Type& new_ty, bool force) const {
     return NdArrayRef(buf(), new_ty, shape(), strides(), offset());
   }
   // Force view, we need to adjust strides
-  auto distance = ((strides().empty() ? 1 : strides().back()) * elsize());
-  SPU_ENFORCE(distance % new_ty.size() == 0);
+  const auto old_size = static_cast<int64_t>(elsize());
+  const auto new_size = static_cast<int64_t>(new_ty.size());
+  auto distance = ((strides().empty() ? 1 : strides().back()) * old_size);
+  SPU_ENFORCE(distance % new_size == 0);
 
   Strides new_strides = strides();
   std::transform(new_strides.begin(), new_strides.end(), new_strides.begin(),
-                 [&](int64_t s) { return (elsize() * s) / new_ty.size(); });
+                 [&](int64_t s) { return (old_size * s) / new_size; });
 
   return NdArrayRef(buf(), new_ty, shape(), new_strides, offset());
 }
-- 
2.43.0


From 1f7d0a53af63ba3313c198039f88f080b0085149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:55 +0000
Subject: [PATCH 12/55] fix: conversion of the most negative integers to half

Their magnitude was computed in the signed type and overflowed.
---
 src/libspu/core/half.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/libspu/core/half.h b/src/libspu/core/half.h
index e1bca7c..88227f6 100644
--- a/src/libspu/core/half.h
+++ b/src/libspu/core/half.h
@@ -1211,14 +1211,17 @@ template <std::float_round_style R, typename T>
 unsigned int int2half(T value) {
   unsigned int bits = static_cast<unsigned>(value < 0) << 15;
   if (!value) return bits;
-  if (bits) value = -value;
-  if (value > 0xFFFF) return overflow<R>(bits);
-  unsigned int m = static_cast<unsigned int>(value), exp = 24;
+  // the magnitude of the most negative value does not fit a signed type
+  const unsigned long long abs = bits
+                                     ? 0 - static_cast<unsigned long long>(value)
+                                     : static_cast<unsigned long long>(value);
+  if (abs > 0xFFFF) return overflow<R>(bits);
+  unsigned int m = static_cast<unsigned int>(abs), exp = 24;
   for (; m < 0x400; m <<= 1, --exp);
   for (; m > 0x7FF; m >>= 1, ++exp);
   bits |= (exp << 10) + m;
-  return (exp > 24) ? rounded<R, false>(bits, (value >> (exp - 25)) & 1,
-                                        (((1 << (exp - 25)) - 1) & value) != 0)
+  return (exp > 24) ? rounded<R, false>(bits, (abs >> (exp - 25)) & 1,
+                                        (((1 << (exp - 25)) - 1) & abs) != 0)
                     : bits;
 }
 
-- 
2.43.0


From e9e348e32eb707278bf873886fd8703b4ba838df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:33 +0000
Subject: [PATCH 13/55] fix: tiles read freed operands when another tile fails

---
 src/libspu/mpc/utils/tiling_util.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libspu/mpc/utils/tiling_util.h b/src/libspu/mpc/utils/tiling_util.h
index 53b91a5..4fcef7c 100644
--- a/src/libspu/mpc/utils/tiling_util.h
+++ b/src/libspu/mpc/utils/tiling_util.h
@@ -74,6 +74,8 @@ Value tiled(Fn&& fn, SPUContext* ctx, const Value& x, Args&&... args) {
     sub_ctxs.push_back(ctx->fork());
   }
 
+  // Outlives the tasks: destroying `futures` waits for them on an exception.
+  auto data = x.data();
   std::vector<std::future<Value>> futures;
 
   // initialize slice indices
@@ -84,7 +86,6 @@ Value tiled(Fn&& fn, SPUContext* ctx, const Value& x, Args&&... args) {
     end_indices[dim] = 1;
   }
 
-  auto data = x.data();
   for (int64_t slice_idx = 0; slice_idx < num_slice_dim * num_slice;
        slice_idx++) {
     auto async_res = std::async(
@@ -189,6 +190,9 @@ Value tiled(Fn&& fn, SPUContext* ctx, const Value& x, const Value& y,
     sub_ctxs.push_back(ctx->fork());
   }
 
+  // Outlives the tasks: destroying `futures` waits for them on an exception.
+  auto data_x = x.data();
+  auto data_y = y.data();
   std::vector<std::future<Value>> futures;
 
   // initialize slice indices
@@ -199,8 +203,6 @@ Value tiled(Fn&& fn, SPUContext* ctx, const Value& x, const Value& y,
     end_indices[dim] = 1;
   }
 
-  auto data_x = x.data();
-  auto data_y = y.data();
   for (int64_t slice_idx = 0; slice_idx < num_slice_dim * num_slice;
        slice_idx++) {
     auto async_res = std::async(
-- 
2.43.0


From 839d907c85166635b30947a75219e0cfc1aeda1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:25 +0000
Subject: [PATCH 14/55] fix: aby3 OPShr shares the type id of OShr

---
 src/libspu/mpc/aby3/type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/aby3/type.h b/src/libspu/mpc/aby3/type.h
index f2b541e..efdebfa 100644
--- a/src/libspu/mpc/aby3/type.h
+++ b/src/libspu/mpc/aby3/type.h
@@ -48,7 +48,7 @@ class OPShrTy : public TypeImpl<OPShrTy, RingTy, Secret, OPShare> {
 
  public:
   using Base::Base;
-  static std::string_view getStaticId() { return "aby3.OShr"; }
+  static std::string_view getStaticId() { return "aby3.OPShr"; }
 
   explicit OPShrTy(FieldType field) { field_ = field; }
 
-- 
2.43.0


From ef3f2aaac800f7e6deeb931ebb25e11f81361086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:25 +0000
Subject: [PATCH 15/55] fix: parsed spdz2k boolean share type has no size

---
 src/libspu/mpc/spdz2k/type.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libspu/mpc/spdz2k/type.cc b/src/libspu/mpc/spdz2k/type.cc
index 88363a2..cf06dde 100644
--- a/src/libspu/mpc/spdz2k/type.cc
+++ b/src/libspu/mpc/spdz2k/type.cc
@@ -45,6 +45,7 @@ void BShrTy::fromString(std::string_view detail) {
   auto field = magic_enum::enum_cast<FieldType>(field_str);
   SPU_ENFORCE(field.has_value(), "parse failed from={}", field_str);
   field_ = field.value();
+  k_ = SizeOf(field_) * 8 / 2;
 };
 
 std::string BShrTy::toString() const {
-- 
2.43.0


From ff06df42c0701757f7818c86d7bcbf9151b4d27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:26 +0000
Subject: [PATCH 16/55] fix: malformed value protos overflow the value buffer

---
 src/libspu/core/value.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libspu/core/value.cc b/src/libspu/core/value.cc
index 46e1626..15b722e 100644
--- a/src/libspu/core/value.cc
+++ b/src/libspu/core/value.cc
@@ -141,6 +141,9 @@ Value Value::fromProto(const ValueProto& value) {
     partial.set_is_complex(false);
     ValueProto partial_proto;
     partial_proto.meta = partial;
+    SPU_ENFORCE(value.chunks.size() % 2 == 0,
+                "complex value with odd number of chunks {}",
+                value.chunks.size());
     auto n = value.chunks.size() / 2;
     std::copy_n(value.chunks.begin(), n,
                 std::back_inserter(partial_proto.chunks));
@@ -166,6 +169,9 @@ Value Value::fromProto(const ValueProto& value) {
               eltype);
 
   Shape shape(meta.shape().dims().begin(), meta.shape().dims().end());
+  SPU_ENFORCE(std::all_of(shape.begin(), shape.end(),
+                          [](int64_t d) { return d >= 0; }),
+              "negative dimension in shape={}", shape);
 
   const auto& chunks = value.chunks;
   const size_t total_bytes = chunks.empty() ? 0 : chunks[0].total_bytes();
@@ -185,6 +191,9 @@ Value Value::fromProto(const ValueProto& value) {
   for (const auto& [offset, chunk] : ordered_chunks) {
     SPU_ENFORCE(offset == chunk_end_pos,
                 "offset {} is not match to last chunk's end pos", offset);
+    SPU_ENFORCE(chunk->content().size() <= total_bytes - offset,
+                "chunk at {} with size {} exceeds total_bytes {}", offset,
+                chunk->content().size(), total_bytes);
     memcpy(data.data<uint8_t>() + offset, chunk->content().data(),
            chunk->content().size());
     chunk_end_pos += chunk->content().size();
-- 
2.43.0


From 9dba5f61578d9d35b06c96b20566462e0893dee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:26 +0000
Subject: [PATCH 17/55] fix: parsed share types with more bits than their
 storage

---
 src/libspu/core/type.cc                   | 2 ++
 src/libspu/mpc/aby3/type.cc               | 1 +
 src/libspu/mpc/cheetah/type.cc            | 1 +
 src/libspu/mpc/experimental/swift/type.cc | 1 +
 src/libspu/mpc/securenn/type.cc           | 1 +
 src/libspu/mpc/semi2k/type.cc             | 1 +
 src/libspu/mpc/spdz2k/type.cc             | 1 +
 7 files changed, 8 insertions(+)

diff --git a/src/libspu/core/type.cc b/src/libspu/core/type.cc
index 4308119..1a6318e 100644
--- a/src/libspu/core/type.cc
+++ b/src/libspu/core/type.cc
@@ -133,6 +133,8 @@ void GfmpTy::fromString(std::string_view detail) {
   SPU_ENFORCE(field.has_value(), "parse failed from={}", detail);
   field_ = field.value();
   mersenne_prime_exp_ = std::stoul(std::string(mp_exp_str));
+  SPU_ENFORCE(mersenne_prime_exp_ == GetMersennePrimeExp(field_),
+              "prime does not match the field, {}", detail);
   prime_ = (static_cast<uint128_t>(1) << mersenne_prime_exp_) - 1;
 }
 
diff --git a/src/libspu/mpc/aby3/type.cc b/src/libspu/mpc/aby3/type.cc
index fe83c82..6650e08 100644
--- a/src/libspu/mpc/aby3/type.cc
+++ b/src/libspu/mpc/aby3/type.cc
@@ -39,6 +39,7 @@ void BShrTy::fromString(std::string_view detail) {
   SPU_ENFORCE(back_type.has_value(), "parse failed from={}", detail);
   back_type_ = back_type.value();
   nbits_ = std::stoul(std::string(nbits_str));
+  SPU_ENFORCE(nbits_ <= SizeOf(back_type_) * 8, "too many bits, {}", detail);
 }
 
 std::string BShrTy::toString() const {
diff --git a/src/libspu/mpc/cheetah/type.cc b/src/libspu/mpc/cheetah/type.cc
index ede298f..45799ec 100644
--- a/src/libspu/mpc/cheetah/type.cc
+++ b/src/libspu/mpc/cheetah/type.cc
@@ -39,6 +39,7 @@ void BShrTy::fromString(std::string_view detail) {
   SPU_ENFORCE(field.has_value(), "parse failed from={}", detail);
   field_ = field.value();
   nbits_ = std::stoul(std::string(nbits_str));
+  SPU_ENFORCE(nbits_ <= SizeOf(field_) * 8, "too many bits, {}", detail);
 };
 
 std::string BShrTy::toString() const {
diff --git a/src/libspu/mpc/experimental/swift/type.cc b/src/libspu/mpc/experimental/swift/type.cc
index 047ec6b..3ca0e01 100644
--- a/src/libspu/mpc/experimental/swift/type.cc
+++ b/src/libspu/mpc/experimental/swift/type.cc
@@ -39,6 +39,7 @@ void BShrTy::fromString(std::string_view detail) {
   SPU_ENFORCE(field.has_value(), "parse failed from={}", detail);
   field_ = field.value();
   nbits_ = std::stoul(std::string(nbits_str));
+  SPU_ENFORCE(nbits_ <= SizeOf(field_) * 8, "too many bits, {}", detail);
 };
 
 std::string BShrTy::toString() const {
diff --git a/src/libspu/mpc/securenn/type.cc b/src/libspu/mpc/securenn/type.cc
index f9bb37e..6fb4cb3 100644
--- a/src/libspu/mpc/securenn/type.cc
+++ b/src/libspu/mpc/securenn/type.cc
@@ -39,6 +39,7 @@ void BShrTy::fromString(std::string_view detail) {
   SPU_ENFORCE(field.has_value(), "parse failed from={}", detail);
   field_ = field.value();
   nbits_ = std::stoul(std::string(nbits_str));
+  SPU_ENFORCE(nbits_ <= SizeOf(field_) * 8, "too many bits, {}", detail);
 };
 
 std::string BShrTy::toString() const {
diff --git a/src/libspu/mpc/semi2k/type.cc b/src/libspu/mpc/semi2k/type.cc
index 331cf64..cfab1b8 100644
--- a/src/libspu/mpc/semi2k/type.cc
+++ b/src/libspu/mpc/semi2k/type.cc
@@ -39,6 +39,7 @@ void BShrTy::fromString(std::string_view detail) {
   SPU_ENFORCE(field.has_value(), "parse failed from={}", detail);
   field_ = field.value();
   nbits_ = std::stoul(std::string(nbits_str));
+  SPU_ENFORCE(nbits_ <= SizeOf(field_) * 8, "too many bits, {}", detail);
 };
 
 std::string BShrTy::toString() const {
diff --git a/src/libspu/mpc/spdz2k/type.cc b/src/libspu/mpc/spdz2k/type.cc
index cf06dde..5794bdd 100644
--- a/src/libspu/mpc/spdz2k/type.cc
+++ b/src/libspu/mpc/spdz2k/type.cc
@@ -41,6 +41,7 @@ void BShrTy::fromString(std::string_view detail) {
   SPU_ENFORCE(back_type.has_value(), "parse failed from={}", detail);
   back_type_ = back_type.value();
   nbits_ = std::stoul(std::string(nbits_str));
+  SPU_ENFORCE(nbits_ <= SizeOf(back_type_) * 8, "too many bits, {}", detail);
   auto field_str = detail.substr(last_comma + 1);
   auto field = magic_enum::enum_cast<FieldType>(field_str);
   SPU_ENFORCE(field.has_value(), "parse failed from={}", field_str);
-- 
2.43.0


From fc72c96f6d907f9a4498198f5311b1c13dbcd26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:16 +0000
Subject: [PATCH 18/55] fix: cheetah permutation share type not registered

Values of this type serialize but could not be parsed back.
---
 src/libspu/mpc/cheetah/type.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/cheetah/type.cc b/src/libspu/mpc/cheetah/type.cc
index 45799ec..9cb6d62 100644
--- a/src/libspu/mpc/cheetah/type.cc
+++ b/src/libspu/mpc/cheetah/type.cc
@@ -27,7 +27,7 @@ void registerTypes() {
 
   static std::once_flag flag;
   std::call_once(flag, []() {
-    TypeContext::getTypeContext()->addTypes<AShrTy, BShrTy>();
+    TypeContext::getTypeContext()->addTypes<AShrTy, BShrTy, PShrTy>();
   });
 }
 
-- 
2.43.0


From ae7b9821a467c720b9173f77a2f47bb82cdcdcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:45 +0000
Subject: [PATCH 19/55] fix: spdz2k boolean share type name depends on the link
 order

config.cc formats FieldType where its operator<< is not declared, so its copy
of the formatter prints a number; when the linker keeps that copy, the type
serializes to a text that cannot be parsed.
---
 src/libspu/mpc/spdz2k/type.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/spdz2k/type.cc b/src/libspu/mpc/spdz2k/type.cc
index 5794bdd..a663578 100644
--- a/src/libspu/mpc/spdz2k/type.cc
+++ b/src/libspu/mpc/spdz2k/type.cc
@@ -51,7 +51,7 @@ void BShrTy::fromString(std::string_view detail) {
 
 std::string BShrTy::toString() const {
   return fmt::format("{},{},{}", magic_enum::enum_name(back_type_), nbits_,
-                     field_);
+                     magic_enum::enum_name(field_));
 }
 
 }  // namespace spu::mpc::spdz2k
-- 
2.43.0


From c4a1fa93b0d7293ed7f9c8f6698402f307481c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:36 +0000
Subject: [PATCH 20/55] fix: spdz2k bit interleaving of single elements and
 views

The bit-wise accesses assumed that the last stride is one: it is zero for a
dimension of size one, and arbitrary for slices and transposes.
---
 src/libspu/mpc/spdz2k/boolean.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/boolean.cc b/src/libspu/mpc/spdz2k/boolean.cc
index 66687f2..59e4c32 100644
--- a/src/libspu/mpc/spdz2k/boolean.cc
+++ b/src/libspu/mpc/spdz2k/boolean.cc
@@ -587,8 +587,10 @@ NdArrayRef BitIntlB::proc(KernelEvalContext* ctx, const NdArrayRef& in,
         _out[idx] = BitIntl<T>(_in[idx], stride, k);
       });
     } else {
-      NdArrayView<std::array<T, 2>> _in(in);
-      NdArrayView<std::array<T, 2>> _out(out);
+      // The bits of an element are adjacent, which needs a compact input.
+      const NdArrayRef x = in.isCompact() ? in : in.clone();
+      const auto* _in = x.data<std::array<T, 2>>();
+      auto* _out = out.data<std::array<T, 2>>();
       size_t num_per_group = 1 << stride;
       size_t group_num = k / num_per_group + (k % num_per_group != 0);
       size_t half_group_num = (group_num + 1) / 2;
@@ -634,8 +636,10 @@ NdArrayRef BitDeintlB::proc(KernelEvalContext* ctx, const NdArrayRef& in,
         _out[idx] = BitDeintl<T>(_in[idx], stride, k);
       });
     } else {
-      NdArrayView<std::array<T, 2>> _in(in);
-      NdArrayView<std::array<T, 2>> _out(out);
+      // The bits of an element are adjacent, which needs a compact input.
+      const NdArrayRef x = in.isCompact() ? in : in.clone();
+      const auto* _in = x.data<std::array<T, 2>>();
+      auto* _out = out.data<std::array<T, 2>>();
 
       size_t num_per_group = 1 << stride;
       size_t group_num = k / num_per_group + (k % num_per_group != 0);
-- 
2.43.0


From 0e931c2469518b3b027d9d6b4a07ca09d2a1d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 21/55] fix: lowmc decryption overwrites its ciphertext

---
 src/libspu/mpc/utils/lowmc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/utils/lowmc.cc b/src/libspu/mpc/utils/lowmc.cc
index 1d61025..bc9771a 100644
--- a/src/libspu/mpc/utils/lowmc.cc
+++ b/src/libspu/mpc/utils/lowmc.cc
@@ -257,7 +257,8 @@ NdArrayRef LowMC::decrypt(const NdArrayRef& ciphertext) {
   const auto& shape = ciphertext.shape();
 
   // just the inverse procedure of encrypt
-  auto c = ciphertext;
+  // copy here, the steps below work in place
+  auto c = ciphertext.clone();
   for (uint64_t r = rounds_; r > 0; r--) {
     ring_xor_(c, round_keys_[r].broadcast_to(shape, {}));
 
-- 
2.43.0


From 54d5309a00a352cd59e7a63b970646d764b75c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 22/55] fix: broadcast to a lower rank writes before the
 strides

---
 src/libspu/core/ndarray_ref.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 8bd95cd..0f1f0f1 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -257,6 +257,12 @@ NdArrayRef NdArrayRef::broadcast_to(const Shape& to_shape,
     }
   } else {
     for (size_t idx = 0; idx < strides().size(); ++idx) {
+      if (idx >= new_strides.size()) {
+        // only leading dimensions of one element can be dropped
+        SPU_ENFORCE(shape()[strides().size() - 1 - idx] == 1,
+                    "cannot broadcast {} to {}", shape(), to_shape);
+        continue;
+      }
       new_strides[new_strides.size() - 1 - idx] =
           strides()[strides().size() - 1 - idx];
     }
-- 
2.43.0


From 804251fb0a4adf03e0d1c6fd3242847e894acd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 23/55] fix: printed cost expressions lose the grouping of
 subtractions

---
 src/libspu/core/cexpr.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libspu/core/cexpr.cc b/src/libspu/core/cexpr.cc
index 8476d55..e92e5a1 100644
--- a/src/libspu/core/cexpr.cc
+++ b/src/libspu/core/cexpr.cc
@@ -78,9 +78,9 @@ class BinaryExpr : public BaseBinaryExpr {
   std::string expr() const override {
     // return fmt::format("({}){}({})", lhs_->expr(), Name, rhs_->expr());
     std::stringstream ss;
-    auto print_operand = [&](const CExpr& operand) {
+    auto print_operand = [&](const CExpr& operand, size_t min_priority) {
       if (auto bin_op = std::dynamic_pointer_cast<BaseBinaryExpr>(operand)) {
-        if (bin_op->priority() < this->priority()) {
+        if (bin_op->priority() < min_priority) {
           ss << "(" << operand->expr() << ")";
         } else {
           ss << operand->expr();
@@ -89,9 +89,11 @@ class BinaryExpr : public BaseBinaryExpr {
         ss << operand->expr();
       }
     };
-    print_operand(lhs_);
+    // subtraction is not associative, keep the grouping of its right operand
+    const bool is_sub = std::is_same_v<Fn, std::minus<>>;
+    print_operand(lhs_, kPriority);
     ss << Name;
-    print_operand(rhs_);
+    print_operand(rhs_, is_sub ? kPriority + 1 : kPriority);
     return ss.str();
   }
 
-- 
2.43.0


From 55a1b650625926a46ff330a813bf66e999a6808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:06 +0000
Subject: [PATCH 24/55] fix: spdz2k random arithmetic shares always throw

---
 src/libspu/mpc/spdz2k/arithmetic.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/arithmetic.cc b/src/libspu/mpc/spdz2k/arithmetic.cc
index ceb7e75..7f0312a 100644
--- a/src/libspu/mpc/spdz2k/arithmetic.cc
+++ b/src/libspu/mpc/spdz2k/arithmetic.cc
@@ -106,8 +106,7 @@ NdArrayRef RandA::proc(KernelEvalContext* ctx, const Shape& shape) const {
   // - https://eprint.iacr.org/2019/599.pdf
   // It's safer to keep the number within [-2**(k-2), 2**(k-2)) for comparison
   // operations.
-  auto x = ring_rshift(prg_state->genPriv(field, shape), {2})
-               .as(makeType<AShrTy>(field));
+  auto x = ring_rshift(prg_state->genPriv(field, shape), {2});
   auto x_mac = beaver->AuthArrayRef(x, field, k, s);
   return makeAShare(x, x_mac, field);
 }
-- 
2.43.0


From 1fe12caf7206e9b46049f65838541e457f46dc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:09 +0000
Subject: [PATCH 25/55] fix: rsqrt forks the context only when its protocol can
 be forked

---
 src/libspu/kernel/hal/fxp_approx.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/fxp_approx.cc b/src/libspu/kernel/hal/fxp_approx.cc
index 6fa4208..c95cbd7 100644
--- a/src/libspu/kernel/hal/fxp_approx.cc
+++ b/src/libspu/kernel/hal/fxp_approx.cc
@@ -666,7 +666,8 @@ Value f_rsqrt(SPUContext* ctx, const Value& x) {
 
   // TODO: we should avoid fork context in hal layer, it will make global
   // scheduling harder and also make profiling harder.
-  if (ctx->config().experimental_enable_intra_op_par) {
+  if (ctx->config().experimental_enable_intra_op_par &&
+      ctx->prot()->hasLowCostFork()) {
     auto sub_ctx = ctx->fork();
     auto r = std::async(rsqrt_init_guess,
                         dynamic_cast<SPUContext*>(sub_ctx.get()), x, z);
-- 
2.43.0


From aa7e2ee709f19ebbe6c23f13df02e707231a38dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 26/55] fix: fixed-point to integer casts with 31 or more
 fraction bits

---
 src/libspu/kernel/hal/type_cast.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/type_cast.cc b/src/libspu/kernel/hal/type_cast.cc
index b432b86..240d63c 100644
--- a/src/libspu/kernel/hal/type_cast.cc
+++ b/src/libspu/kernel/hal/type_cast.cc
@@ -51,7 +51,8 @@ Value fxp2int(SPUContext* ctx, const Value& x, DataType to_type) {
   SPU_ENFORCE(x.isFxp());
 
   const int64_t fxp_bits = ctx->getFxpBits();
-  const Value kOneMinusEps = _constant(ctx, (1 << fxp_bits) - 1, x.shape());
+  const Value kOneMinusEps =
+      _constant(ctx, (static_cast<uint128_t>(1) << fxp_bits) - 1, x.shape());
 
   // (x + 0.99 * (x < 0)) >> fxp_bits
   return _arshift(ctx, _add(ctx, x, _mul(ctx, kOneMinusEps, _msb(ctx, x))),
-- 
2.43.0


From 0f3ddb3673381021cfec0afeb0e7658eaec3fb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 27/55] fix: rng_uniform returns the requested shape

---
 src/libspu/kernel/hal/random.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/random.cc b/src/libspu/kernel/hal/random.cc
index ddf0b59..694c61c 100644
--- a/src/libspu/kernel/hal/random.cc
+++ b/src/libspu/kernel/hal/random.cc
@@ -55,7 +55,10 @@ Value rng_uniform(SPUContext* ctx, const Value& lo, const Value& hi,
     ele = dist(gen);
   }
 
-  return constant(ctx, buffer, lo.dtype());
+  return constant(ctx,
+                  PtBufferView(buffer.data(), PT_F32, to_shape,
+                               makeCompactStrides(to_shape)),
+                  lo.dtype(), to_shape);
 }
 
 Value random(SPUContext* ctx, Visibility vis, DataType dtype,
-- 
2.43.0


From d3255175dc20bc71d5690328fb7f8f3d76a5d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 28/55] fix: associative_reduce drops the last axis when it has
 one element

---
 src/libspu/kernel/hal/utils.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libspu/kernel/hal/utils.h b/src/libspu/kernel/hal/utils.h
index 9955944..3c5ccc0 100644
--- a/src/libspu/kernel/hal/utils.h
+++ b/src/libspu/kernel/hal/utils.h
@@ -163,6 +163,10 @@ spu::Value associative_reduce(Fn&& fn, SPUContext* ctx, const Value& in) {
     out_shape = Shape(shape.begin(), shape.end() - 1);
   }
 
+  if (N == 1) {
+    return hal::reshape(ctx, in, out_shape);
+  }
+
   // Edge case: if the last dimension has <= 1 element or tensor is empty
   if (N < 2 || shape.numel() == 0) {
     return in;
-- 
2.43.0


From b9062b143c13bdc5e02ca663a9fdf48344e4697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:36 +0000
Subject: [PATCH 29/55] fix: two-operand cleartext functions accept half
 precision

---
 src/libspu/kernel/hal/fxp_cleartext.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/fxp_cleartext.cc b/src/libspu/kernel/hal/fxp_cleartext.cc
index b5061d5..dec71d6 100644
--- a/src/libspu/kernel/hal/fxp_cleartext.cc
+++ b/src/libspu/kernel/hal/fxp_cleartext.cc
@@ -103,7 +103,8 @@ Value applyFloatingPointFn(SPUContext* ctx, const Value& x, const Value& y,
 
   DataType dtype;
   const auto out = encodeToRing(flp_x, field, fxp_bits, &dtype);
-  SPU_ENFORCE(dtype == DT_F32 || dtype == DT_F64, "sanity failed");
+  SPU_ENFORCE(dtype == DT_F16 || dtype == DT_F32 || dtype == DT_F64,
+              "sanity failed");
   return Value(out.as(x.storage_type()), dtype);
 }
 
-- 
2.43.0


From 59115958c2508c8bf9d73a135492537ddde4f5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 30/55] fix: clamp public negative start indices of a partly
 secret dynamic slice

---
 src/libspu/kernel/hlo/indexing.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hlo/indexing.cc b/src/libspu/kernel/hlo/indexing.cc
index c233b55..18190a7 100644
--- a/src/libspu/kernel/hlo/indexing.cc
+++ b/src/libspu/kernel/hlo/indexing.cc
@@ -796,7 +796,8 @@ spu::Value SecretDynamicSlice(SPUContext *ctx, const spu::Value &operand,
     for (size_t rank = 0; rank < operand.shape().size(); ++rank) {
       if (start_indices[rank].isPublic()) {
         start[rank] = hal::getScalarValue<int64_t>(ctx, start_indices[rank]);
-        start[rank] = std::min(limit[rank] - slice_size[rank], start[rank]);
+        start[rank] = std::min(std::max(start[rank], static_cast<int64_t>(0)),
+                               limit[rank] - slice_size[rank]);
         limit[rank] = start[rank] + slice_size[rank];
         new_start_indices[rank] = zero_s;
       } else {
-- 
2.43.0


From 551e598b74169949ad8a5121e6e73bd14a361a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 31/55] fix: swift rand_a uses the common gamma on party 2

---
 src/libspu/mpc/experimental/swift/arithmetic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/experimental/swift/arithmetic.cc b/src/libspu/mpc/experimental/swift/arithmetic.cc
index 9e178b4..82ce827 100644
--- a/src/libspu/mpc/experimental/swift/arithmetic.cc
+++ b/src/libspu/mpc/experimental/swift/arithmetic.cc
@@ -635,7 +635,7 @@ NdArrayRef RandA::proc(KernelEvalContext* ctx, const Shape& shape) const {
   if (rank == 2) {
     alpha2 = r1;
     beta = r0;
-    gamma = r3;
+    gamma = r2;
   }
 
   auto beta_plus_gamma = ring_add(beta, gamma);
-- 
2.43.0


From 2b616b916758814ca9a89410fcd0701d5b847ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 32/55] fix: shift of an empty tensor by public amounts

---
 src/libspu/kernel/hlo/shift.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libspu/kernel/hlo/shift.cc b/src/libspu/kernel/hlo/shift.cc
index 0b6f3f1..3bf9caf 100644
--- a/src/libspu/kernel/hlo/shift.cc
+++ b/src/libspu/kernel/hlo/shift.cc
@@ -52,6 +52,11 @@ spu::Value shift_impl(SPUContext *ctx, const spu::Value &lhs,
                       const spu::Value &rhs, const Fn &f) {
   SPU_ENFORCE(rhs.shape() == lhs.shape());
 
+  // edge case: empty tensor has no shift amount at all.
+  if (lhs.numel() == 0) {
+    return lhs;
+  }
+
   if (rhs.isPublic()) {
     return shift_impl_p(ctx, lhs, rhs, f);
   }
-- 
2.43.0


From 5a78fedc862e05cd984ec927d1f4edde5ab14a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 33/55] fix: round-to-even of an empty tensor

---
 src/libspu/kernel/hlo/basic_unary.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libspu/kernel/hlo/basic_unary.cc b/src/libspu/kernel/hlo/basic_unary.cc
index 44cc9e3..472a3d4 100644
--- a/src/libspu/kernel/hlo/basic_unary.cc
+++ b/src/libspu/kernel/hlo/basic_unary.cc
@@ -118,6 +118,13 @@ spu::Value Round_RNTE(SPUContext *ctx, const spu::Value &in) {
   // so comp = b && (c || a)
   SPU_ENFORCE(!in.isComplex());
   SPU_ENFORCE(in.isFxp(), "Round only supports fxp");
+
+  // edge case: the bit width of an empty boolean share says nothing, so the
+  // slices below may not be packable.
+  if (in.numel() == 0) {
+    return in;
+  }
+
   const int64_t fxp_bits = ctx->getFxpBits();
   const auto k1 = hal::_constant(ctx, 1U, in.shape());
 
-- 
2.43.0


From fdaa799686ec5a4e67ec58433c30a59d8ddb6b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 34/55] fix: sorting keys of two owners followed by a secret
 key are not merged

---
 src/libspu/kernel/hal/permute.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index d2f2013..bda827b 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -1170,8 +1170,8 @@ std::vector<size_t> _find_mergeable_keys(SPUContext *ctx,
       } else {
         split_indices.push_back(idx + 1);
       }
-      pre_owner = cur_key.isPrivate() ? _get_owner(cur_key) : -1;
     }
+    pre_owner = cur_key.isPrivate() ? _get_owner(cur_key) : -1;
   }
   std::reverse(split_indices.begin(), split_indices.end());
   return split_indices;
-- 
2.43.0


From 0d60ff18c95eeb5ecfbeea4fa7266abfbbfa5d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 35/55] fix: secret indexing of a boolean shared array

---
 src/libspu/mpc/api.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/libspu/mpc/api.cc b/src/libspu/mpc/api.cc
index 223401f..4a09f6c 100644
--- a/src/libspu/mpc/api.cc
+++ b/src/libspu/mpc/api.cc
@@ -743,10 +743,9 @@ OptionalAPI<Value> oram_onehot_sp(SPUContext* ctx, const Value& x,
 Value oram_read_ss(SPUContext* ctx, const Value& x, const Value& y,
                    int64_t offset) {
   SPU_TRACE_MPC_DISP(ctx, x, offset);
-  SPU_ENFORCE(IsO(x) && IsA(y), "expect OShare and AShare, got {} and {}",
-              x.storage_type(), y.storage_type());
+  SPU_ENFORCE(IsO(x), "expect OShare, got {}", x.storage_type());
 
-  return dynDispatch(ctx, "oram_read_aa", x, y, offset);
+  return dynDispatch(ctx, "oram_read_aa", x, _2a(ctx, y), offset);
 };
 
 Value oram_read_sp(SPUContext* ctx, const Value& x, const Value& y,
-- 
2.43.0


From f549ab3f8905dac3900d91cee380f76366cab29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 36/55] fix: shift by the ring width in swift truncation by
 zero bits

---
 src/libspu/mpc/experimental/swift/arithmetic.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/experimental/swift/arithmetic.cc b/src/libspu/mpc/experimental/swift/arithmetic.cc
index 82ce827..ef44ba3 100644
--- a/src/libspu/mpc/experimental/swift/arithmetic.cc
+++ b/src/libspu/mpc/experimental/swift/arithmetic.cc
@@ -1957,7 +1957,8 @@ std::pair<NdArrayRef, NdArrayRef> TruncA::Trgen(KernelEvalContext* ctx,
     using shr_t = std::array<el_t, 3>;
 
     // 0b11...110000
-    const el_t high_bits = ((el_t)(~0) << (k - bits));
+    const el_t high_bits =
+        bits == 0 ? el_t(0) : ((el_t)(~el_t(0)) << (k - bits));
 
     NdArrayView<el_t> _r1(r1);
     NdArrayView<el_t> _r2(r2);
-- 
2.43.0


From cfa322d38264beb724cd20154fa0f17833b9512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 37/55] fix: share size of complex and of non-colocated inputs

---
 src/libspu/device/io.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libspu/device/io.cc b/src/libspu/device/io.cc
index a9f0def..09e47f7 100644
--- a/src/libspu/device/io.cc
+++ b/src/libspu/device/io.cc
@@ -37,7 +37,13 @@ size_t IoClient::getShareSize(const PtBufferView &bv, Visibility vtype,
       base_io_->hasBitSecretSupport()) {
     return base_io_->getBitSecretShareSize(bv.shape.numel());
   } else {
-    return base_io_->getShareType(vtype, owner_rank).size() * bv.shape.numel();
+    // the owner is ignored by makeShares in this case.
+    if (!config_.experimental_enable_colocated_optimization) {
+      owner_rank = -1;
+    }
+    const bool is_complex = bv.pt_type == PT_CF32 || bv.pt_type == PT_CF64;
+    return base_io_->getShareType(vtype, owner_rank).size() *
+           bv.shape.numel() * (is_complex ? 2 : 1);
   }
 }
 
-- 
2.43.0


From 038c7ee0513ce4773e719ed7808f52fb7b04a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 38/55] fix: securenn reconstruction skipped strided shares

---
 src/libspu/mpc/securenn/io.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/libspu/mpc/securenn/io.cc b/src/libspu/mpc/securenn/io.cc
index 28a8c3c..ab86933 100644
--- a/src/libspu/mpc/securenn/io.cc
+++ b/src/libspu/mpc/securenn/io.cc
@@ -88,11 +88,6 @@ NdArrayRef SecurennIo::fromShares(const std::vector<NdArrayRef>& shares) const {
     auto res = ring_zeros(field, shares[0].shape());
 
     for (const auto& share : shares) {
-      // Currently, only packed zeros are not compact, this is for colocation
-      // optimization
-      if (!share.isCompact()) {
-        continue;
-      }
       if (eltype.isa<AShare>()) {
         ring_add_(res, share);
       } else if (eltype.isa<BShare>()) {
-- 
2.43.0


From a047e178f915c0ebacf35b9247ab9596ba0bee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 39/55] fix: shift by the ring width in swift truncation pairs

---
 src/libspu/mpc/experimental/swift/arithmetic.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libspu/mpc/experimental/swift/arithmetic.cc b/src/libspu/mpc/experimental/swift/arithmetic.cc
index ef44ba3..0675da3 100644
--- a/src/libspu/mpc/experimental/swift/arithmetic.cc
+++ b/src/libspu/mpc/experimental/swift/arithmetic.cc
@@ -1993,11 +1993,11 @@ std::pair<NdArrayRef, NdArrayRef> TruncA::Trgen(KernelEvalContext* ctx,
       for (int64_t i = bits; i < k; i++) {
         // MulAP
         _X[idx * (k - bits + 1) + (i - bits)][0] =
-            (ring2k_t(1) << (i - bits + 1)) * _r1_bits_share[idx * k + i][0];
+            (ring2k_t(2) << (i - bits)) * _r1_bits_share[idx * k + i][0];
         _X[idx * (k - bits + 1) + (i - bits)][1] =
-            (ring2k_t(1) << (i - bits + 1)) * _r1_bits_share[idx * k + i][1];
+            (ring2k_t(2) << (i - bits)) * _r1_bits_share[idx * k + i][1];
         _X[idx * (k - bits + 1) + (i - bits)][2] =
-            (ring2k_t(1) << (i - bits + 1)) * _r1_bits_share[idx * k + i][2];
+            (ring2k_t(2) << (i - bits)) * _r1_bits_share[idx * k + i][2];
 
         _Y[idx * (k - bits + 1) + (i - bits)][0] =
             _r2_bits_share[idx * k + i][0];
@@ -2024,11 +2024,11 @@ std::pair<NdArrayRef, NdArrayRef> TruncA::Trgen(KernelEvalContext* ctx,
       for (int64_t i = 0; i < k; i++) {
         // MulAP
         _P[idx * k + i][0] =
-            (ring2k_t(1) << (i + 1)) * _r1_bits_share[idx * k + i][0];
+            (ring2k_t(2) << i) * _r1_bits_share[idx * k + i][0];
         _P[idx * k + i][1] =
-            (ring2k_t(1) << (i + 1)) * _r1_bits_share[idx * k + i][1];
+            (ring2k_t(2) << i) * _r1_bits_share[idx * k + i][1];
         _P[idx * k + i][2] =
-            (ring2k_t(1) << (i + 1)) * _r1_bits_share[idx * k + i][2];
+            (ring2k_t(2) << i) * _r1_bits_share[idx * k + i][2];
 
         _Q[idx * k + i][0] = _r2_bits_share[idx * k + i][0];
         _Q[idx * k + i][1] = _r2_bits_share[idx * k + i][1];
-- 
2.43.0


From 9b8b8a794578ccd4a923f7831ee99e71aa7d93ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 40/55] fix: draw a fresh mask when Beaver::Dot fills a replay
 descriptor

---
 src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc | 2 +-
 src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
index a8d19e4..d0707ed 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
@@ -227,7 +227,7 @@ BeaverTfpUnsafe::Triple BeaverTfpUnsafe::Dot(FieldType field, int64_t m,
   shapes[2] = {m, n};
 
   auto if_replay = [&](const ReplayDesc* replay_desc, size_t idx) {
-    if (replay_desc == nullptr) {
+    if (replay_desc == nullptr || replay_desc->status == Beaver::Init) {
       ops[idx].seeds = seeds_;
       return prgCreateArray(field, shapes[idx], seed_, &counter_,
                             &ops[idx].desc);
diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
index 9a60889..3be47ee 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
@@ -569,7 +569,7 @@ BeaverTtp::Triple BeaverTtp::Dot(FieldType field, int64_t m, int64_t n,
   shapes[2] = {m, n};
 
   auto if_replay = [&](const ReplayDesc* replay_desc, size_t idx) {
-    if (replay_desc == nullptr) {
+    if (replay_desc == nullptr || replay_desc->status == Beaver::Init) {
       return prgCreateArray(field, shapes[idx], seed_, &counter_, &descs[idx]);
     } else {
       SPU_ENFORCE(replay_desc->field == field);
-- 
2.43.0


From 5b05fe1ec300ea43a4c3a20f60aa22a5ce61070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 41/55] fix: send TTP TruncPr adjustments buffer by buffer

---
 .../mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
index 28f2311..1beef67 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
@@ -347,7 +347,10 @@ void AdjustAndSend(
 
   try {
     auto& [ops, perm, seeds, pad_length] = adjust_params;
+    // The client reads its buffers one after the other, so answers with more
+    // than one buffer cannot be adjusted (and sent) chunk by chunk.
     if constexpr (std::is_same_v<AdjustRequest, AdjustDotRequest> ||
+                  std::is_same_v<AdjustRequest, AdjustTruncPrRequest> ||
                   std::is_same_v<AdjustRequest, AdjustPermRequest>) {
       auto adjusts = AdjustImpl(request, absl::MakeSpan(ops), perm);
       SendStreamData(adjusts, pa);
-- 
2.43.0


From 762f59741ea798e99b91faf7ac85c85bbcdeca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 42/55] fix: let TinyOT make a single triple

---
 src/libspu/mpc/spdz2k/ot/tiny_ot.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libspu/mpc/spdz2k/ot/tiny_ot.cc b/src/libspu/mpc/spdz2k/ot/tiny_ot.cc
index e18ee5b..348acf6 100644
--- a/src/libspu/mpc/spdz2k/ot/tiny_ot.cc
+++ b/src/libspu/mpc/spdz2k/ot/tiny_ot.cc
@@ -236,6 +236,9 @@ std::tuple<AuthBit, AuthBit, AuthBit, AuthBit> GaOT(
     uint128_t tinyot_key) {
   constexpr size_t kS = 64;
 
+  // The bound below divides by log2(size), a single quadruple needs company.
+  size = std::max<size_t>(size, 2);
+
   // Theorem 3. T >= (k + log2(t)) / log2(t)
   size_t expand_factor = std::ceil((kS + log2(size)) / log2(size)) + 1;
   size_t total_num = expand_factor * size;
-- 
2.43.0


From aba7c90ad6c24c8ff7e34e3a5be4692ae61ca100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 43/55] fix: act on the TinyOT MAC check result

---
 src/libspu/mpc/spdz2k/ot/tiny_ot.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/ot/tiny_ot.cc b/src/libspu/mpc/spdz2k/ot/tiny_ot.cc
index 348acf6..0e29f85 100644
--- a/src/libspu/mpc/spdz2k/ot/tiny_ot.cc
+++ b/src/libspu/mpc/spdz2k/ot/tiny_ot.cc
@@ -391,10 +391,10 @@ std::tuple<AuthBit, AuthBit, AuthBit, AuthBit> GaOT(
     }
   }
 
-  TinyMacCheck(comm, s_e_chi_z_bool, s_e_chi_z);
-  TinyMacCheck(comm, a_open_bool, a);
-  TinyMacCheck(comm, b_open_bool, b);
-  TinyMacCheck(comm, c_open_bool, c);
+  SPU_ENFORCE(TinyMacCheck(comm, s_e_chi_z_bool, s_e_chi_z));
+  SPU_ENFORCE(TinyMacCheck(comm, a_open_bool, a));
+  SPU_ENFORCE(TinyMacCheck(comm, b_open_bool, b));
+  SPU_ENFORCE(TinyMacCheck(comm, c_open_bool, c));
   return {e, chi0, chi1, z};
 }
 
@@ -522,8 +522,8 @@ std::tuple<AuthBit, AuthBit, AuthBit> TinyMul(
     }
   }
   // Theoretical, we could try bits f and g together in a single TinyMacCheck
-  TinyMacCheck(comm, true_f, f);
-  TinyMacCheck(comm, true_g, g);
+  SPU_ENFORCE(TinyMacCheck(comm, true_f, f));
+  SPU_ENFORCE(TinyMacCheck(comm, true_g, g));
 
   AuthBit c{std::vector<bool>(size), std::vector<uint128_t>(size), tinyot_key};
   for (size_t k = 0; k < size; ++k) {
-- 
2.43.0


From 88110b60d83b6d81b97b3022ea92668590ad2cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 44/55] fix: draw the TinyOT key instead of leaving it zero

---
 src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
index f8d090f..1418cc6 100644
--- a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
+++ b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
@@ -149,7 +149,12 @@ BeaverTinyOt::BeaverTinyOt(std::shared_ptr<yacl::link::Context> lctx)
     }
   }
 
+  // the choices are the "key" in TinyOT, they must be random
   auto recv_opts_choices = yacl::dynamic_bitset<uint128_t>(kappa_);
+  const uint128_t random_choices = yacl::crypto::SecureRandSeed();
+  for (size_t k = 0; k < kappa_; ++k) {
+    recv_opts_choices.set(k, ((random_choices >> k) & 1) != 0);
+  }
   auto recv_opts_blocks = std::vector<uint128_t>(kappa_);
 
   auto send_opts_blocks = std::vector<std::array<uint128_t, 2>>(kappa_);
-- 
2.43.0


From 7cf57b5362dbc9504c114157c4c72469b99af746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 45/55] fix: finish the sacrifice of TinyOT triples

---
 src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
index 1418cc6..f6155e1 100644
--- a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
+++ b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
@@ -459,7 +459,7 @@ BeaverTinyOt::Triple BeaverTinyOt::dot(FieldType field, int64_t M, int64_t N,
 
   auto a = ring_rand(field, {M, K});
   auto b = ring_rand(field, {K, N});
-  ring_bitmask_(a, 0, k);
+  // all bits of a are random, its second half masks the first one in AuthDot
   ring_bitmask_(b, 0, k);
 
   auto c = ring_mmul(a, b);
@@ -520,8 +520,9 @@ BeaverTinyOt::Triple_Pair BeaverTinyOt::AuthDot(FieldType field, int64_t M,
   auto rou = ring_sub(ring_mmul(t, a), a2);
   auto rou_mac = ring_sub(ring_mmul(t, a_mac), a2_mac);
 
-  auto [pub_rou, check_rou_mac] = BatchOpen(rou, rou_mac, k, s);
-  SPU_ENFORCE(BatchMacCheck(pub_rou, check_rou_mac, k, s));
+  // the masks of BatchOpen would hide the high bits that the check needs
+  auto pub_rou = comm_->allReduce(ReduceOp::ADD, rou, "open rou");
+  SPU_ENFORCE(BatchMacCheck(pub_rou, rou_mac, k, s));
 
   auto t_delta = ring_sub(ring_mmul(t, c), c2);
   auto delta = ring_sub(t_delta, ring_mmul(pub_rou, b));
@@ -529,8 +530,9 @@ BeaverTinyOt::Triple_Pair BeaverTinyOt::AuthDot(FieldType field, int64_t M,
   auto t_delta_mac = ring_sub(ring_mmul(t, c_mac), c2_mac);
   auto delta_mac = ring_sub(t_delta_mac, ring_mmul(pub_rou, b_mac));
 
-  auto [pub_delta, check_delta_mac] = BatchOpen(delta, delta_mac, k, s);
-  SPU_ENFORCE(BatchMacCheck(pub_delta, check_delta_mac, k, s));
+  auto pub_delta = comm_->allReduce(ReduceOp::ADD, delta, "open delta");
+  SPU_ENFORCE(BatchMacCheck(pub_delta, delta_mac, k, s));
+  SPU_ENFORCE(ring_all_equal(pub_delta, ring_zeros(field, delta.shape())));
 
   // Output
   return {{a, b, c}, {a_mac, b_mac, c_mac}};
@@ -1000,7 +1002,7 @@ BeaverTinyOt::Triple_Pair BeaverTinyOt::AuthMul(FieldType field,
     NdArrayView<T> _cra(cra);
     NdArrayView<T> _cra_hat(cra_hat);
     NdArrayView<T> _crc(crc);
-    NdArrayView<T> _crc_hat(cra_hat);
+    NdArrayView<T> _crc_hat(crc_hat);
     NdArrayView<T> _ra(ra);
     NdArrayView<T> _ra_hat(ra_hat);
     NdArrayView<T> _rc(rc);
@@ -1027,8 +1029,9 @@ BeaverTinyOt::Triple_Pair BeaverTinyOt::AuthMul(FieldType field,
     auto rou = ring_sub(ring_mul(t, cra), cra_hat);
     auto rou_mac = ring_sub(ring_mul(t, a_mac), a_hat_mac);
 
-    auto [pub_rou, check_rou_mac] = BatchOpen(rou, rou_mac, k, s);
-    SPU_ENFORCE(BatchMacCheck(pub_rou, check_rou_mac, k, s));
+    // the masks of BatchOpen would hide the high bits that the check needs
+    auto pub_rou = comm_->allReduce(ReduceOp::ADD, rou, "open rou");
+    SPU_ENFORCE(BatchMacCheck(pub_rou, rou_mac, k, s));
 
     auto t_delta = ring_sub(ring_mul(t, crc), crc_hat);
     auto delta = ring_sub(t_delta, ring_mul(b, pub_rou));
@@ -1036,8 +1039,9 @@ BeaverTinyOt::Triple_Pair BeaverTinyOt::AuthMul(FieldType field,
     auto t_delta_mac = ring_sub(ring_mul(t, c_mac), c_hat_mac);
     auto delta_mac = ring_sub(t_delta_mac, ring_mul(b_mac, pub_rou));
 
-    auto [pub_delta, check_delta_mac] = BatchOpen(delta, delta_mac, k, s);
-    SPU_ENFORCE(BatchMacCheck(pub_delta, check_delta_mac, k, s));
+    auto pub_delta = comm_->allReduce(ReduceOp::ADD, delta, "open delta");
+    SPU_ENFORCE(BatchMacCheck(pub_delta, delta_mac, k, s));
+    SPU_ENFORCE(ring_all_equal(pub_delta, ring_zeros(field, delta.shape())));
 
     SPDLOG_DEBUG("AuthMul end");
     // Output
-- 
2.43.0


From cc796fa3e4b455aaf9f15588c5a7648c646569cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:22 +0000
Subject: [PATCH 46/55] fix: compare ring elements that are far apart

---
 src/libspu/mpc/utils/ring_ops.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/utils/ring_ops.cc b/src/libspu/mpc/utils/ring_ops.cc
index 62ca202..eed692b 100644
--- a/src/libspu/mpc/utils/ring_ops.cc
+++ b/src/libspu/mpc/utils/ring_ops.cc
@@ -529,6 +529,7 @@ bool ring_all_equal(const NdArrayRef& x, const NdArrayRef& y, size_t abs_err) {
   const auto field = x.eltype().as<Ring2k>()->field();
   return DISPATCH_ALL_FIELDS(field, [&]() {
     using T = std::make_signed_t<ring2k_t>;
+    using U = std::make_unsigned_t<ring2k_t>;
 
     NdArrayView<T> _x(x);
     NdArrayView<T> _y(y);
@@ -537,7 +538,10 @@ bool ring_all_equal(const NdArrayRef& x, const NdArrayRef& y, size_t abs_err) {
     for (int64_t idx = 0; idx < numel; ++idx) {
       auto x_el = _x[idx];
       auto y_el = _y[idx];
-      if (std::abs(x_el - y_el) > static_cast<T>(abs_err)) {
+      // the distance of two far apart elements only fits the unsigned type
+      const U dist = x_el > y_el ? static_cast<U>(x_el) - static_cast<U>(y_el)
+                                 : static_cast<U>(y_el) - static_cast<U>(x_el);
+      if (dist > abs_err) {
         fmt::print("error: {0} {1} abs_err: {2}\n", x_el, y_el, abs_err);
         return false;
       }
-- 
2.43.0


From 0b5af3d49e9c5eaed70a3edca9e6280713baeeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 47/55] fix: check the MACs of what spdz2k matmul opens

---
 src/libspu/mpc/spdz2k/arithmetic.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libspu/mpc/spdz2k/arithmetic.cc b/src/libspu/mpc/spdz2k/arithmetic.cc
index 7f0312a..e3c791c 100644
--- a/src/libspu/mpc/spdz2k/arithmetic.cc
+++ b/src/libspu/mpc/spdz2k/arithmetic.cc
@@ -536,7 +536,9 @@ NdArrayRef MatMulAA::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
   const auto s_bits = ctx->getState<Spdz2kState>()->s();
 
   const auto& x = getValueShare(lhs);
+  const auto& x_mac = GetMacShare(ctx, lhs);
   const auto& y = getValueShare(rhs);
+  const auto& y_mac = GetMacShare(ctx, rhs);
 
   // generate beaver multiple triple.
   auto [vec, mac_vec] = beaver->AuthDot(field, lhs.shape()[0], rhs.shape()[1],
@@ -550,6 +552,12 @@ NdArrayRef MatMulAA::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
   });
   auto p_e = std::move(res[0]);
   auto p_f = std::move(res[1]);
+
+  SPU_ENFORCE(beaver->BatchMacCheck(p_e, ring_sub(x_mac, a_mac), k_bits,
+                                    s_bits));
+  SPU_ENFORCE(beaver->BatchMacCheck(p_f, ring_sub(y_mac, b_mac), k_bits,
+                                    s_bits));
+
   auto p_ef = ring_mmul(p_e, p_f);
 
   // z = p_e dot b + a dot p_f + c;
-- 
2.43.0


From 2661114dbe4f70637080c9544649aa4115e52949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 48/55] fix: let exp_prime take private and boolean-shared
 operands

---
 src/libspu/kernel/hal/fxp_approx.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/fxp_approx.cc b/src/libspu/kernel/hal/fxp_approx.cc
index c95cbd7..579801c 100644
--- a/src/libspu/kernel/hal/fxp_approx.cc
+++ b/src/libspu/kernel/hal/fxp_approx.cc
@@ -23,6 +23,7 @@
 #include "libspu/kernel/hal/constants.h"
 #include "libspu/kernel/hal/fxp_base.h"
 #include "libspu/kernel/hal/fxp_cleartext.h"
+#include "libspu/kernel/hal/prot_wrapper.h"
 #include "libspu/kernel/hal/ring.h"
 #include "libspu/kernel/hal/shape_ops.h"
 
@@ -222,7 +223,12 @@ Value exp_prime(SPUContext* ctx, const Value& x) {
                     .setDtype(x.dtype());
   }
 
-  auto ret = dynDispatch<spu::Value>(ctx, "exp_a", clamped_x);
+  // exp_a works on arithmetic shares only
+  if (clamped_x.isPrivate()) {
+    clamped_x = _v2s(ctx, clamped_x);
+  }
+  auto ret =
+      dynDispatch<spu::Value>(ctx, "exp_a", _prefer_a(ctx, clamped_x));
   return ret.setDtype(x.dtype());
 }
 
-- 
2.43.0


From 3ff539a8a5ebca26315d620fdd38f7be3b4fb429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:10 +0000
Subject: [PATCH 49/55] fix: let atan2 mix boolean-shared and clear operands

---
 src/libspu/kernel/hal/fxp_approx.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libspu/kernel/hal/fxp_approx.cc b/src/libspu/kernel/hal/fxp_approx.cc
index 579801c..cfc0440 100644
--- a/src/libspu/kernel/hal/fxp_approx.cc
+++ b/src/libspu/kernel/hal/fxp_approx.cc
@@ -864,8 +864,10 @@ Value AtanApproxLocal(SPUContext* ctx, const Value& x) {
 
 Value atan2_minimax(SPUContext* ctx, const Value& y, const Value& x) {
   auto common_type = _common_type(ctx, x.storage_type(), y.storage_type());
-  std::vector<Value> xy = {_cast_type(ctx, x, common_type).setDtype(x.dtype()),
-                           _cast_type(ctx, y, common_type).setDtype(y.dtype())};
+  // casting to a boolean share may give an arithmetic one (see _cast_type)
+  std::vector<Value> xy = {
+      _prefer_a(ctx, _cast_type(ctx, x, common_type).setDtype(x.dtype())),
+      _prefer_a(ctx, _cast_type(ctx, y, common_type).setDtype(y.dtype()))};
   // vectorize the computation of the msb and abs of x and y
   std::vector<Value> msb_xy;
   spu::vmap(xy.begin(), xy.end(), std::back_inserter(msb_xy),
-- 
2.43.0


From 770542b07532f76666181f0ddfbf3e54f8f6f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:24 +0000
Subject: [PATCH 50/55] fix: forget the tracers of forks when tracing is set up
 again

---
 src/libspu/core/trace.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libspu/core/trace.cc b/src/libspu/core/trace.cc
index bcbcf5f..7b08881 100644
--- a/src/libspu/core/trace.cc
+++ b/src/libspu/core/trace.cc
@@ -18,6 +18,7 @@
 #include <atomic>
 #include <cstdlib>
 #include <fstream>
+#include <iterator>
 #include <mutex>
 #include <unordered_map>
 #include <utility>
@@ -196,7 +197,16 @@ void initTrace(const std::string& ctx_id, int64_t tr_flag,
   // we may trigger initTrace several times with different rt_config in python
   {
     std::unique_lock lock(g_tracer_map_mutex);
-    g_tracers.erase(ctx_id);
+    auto itr = g_tracers.find(ctx_id);
+    if (itr != g_tracers.end()) {
+      // the tracers of its forks are clones which record to the same state, a
+      // fork of the new set-up with the same id must not find one of them.
+      const auto state = itr->second->getProfState();
+      for (itr = g_tracers.begin(); itr != g_tracers.end();) {
+        itr = itr->second->getProfState() == state ? g_tracers.erase(itr)
+                                                   : std::next(itr);
+      }
+    }
   }
   if (tr_logger) {
     setTraceLogger(tr_logger);
-- 
2.43.0


From c226724a989f9e38ed318d9bada7132940263522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:24 +0000
Subject: [PATCH 51/55] fix: do not write a vector<bool> from many threads in
 aby3 b2a

---
 src/libspu/mpc/aby3/conversion.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/libspu/mpc/aby3/conversion.cc b/src/libspu/mpc/aby3/conversion.cc
index 8154aca..e66c996 100644
--- a/src/libspu/mpc/aby3/conversion.cc
+++ b/src/libspu/mpc/aby3/conversion.cc
@@ -253,11 +253,12 @@ NdArrayRef B2AByPPA::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
 }
 
 template <typename T>
-static std::vector<bool> bitDecompose(const NdArrayRef& in, size_t nbits) {
+static std::vector<uint8_t> bitDecompose(const NdArrayRef& in, size_t nbits) {
   auto numel = in.numel();
   // decompose each bit of an array of element.
-  // FIXME: this is not thread-safe.
-  std::vector<bool> dep(numel * nbits);
+  // one byte per bit: neighbours in a vector<bool> share a word, which threads
+  // must not write at the same time.
+  std::vector<uint8_t> dep(numel * nbits);
 
   NdArrayView<T> _in(in);
 
@@ -265,7 +266,7 @@ static std::vector<bool> bitDecompose(const NdArrayRef& in, size_t nbits) {
     const auto& v = _in[idx];
     for (size_t bit = 0; bit < nbits; bit++) {
       size_t flat_idx = idx * nbits + bit;
-      dep[flat_idx] = static_cast<bool>((v >> bit) & 0x1);
+      dep[flat_idx] = static_cast<uint8_t>((v >> bit) & 0x1);
     }
   });
   return dep;
-- 
2.43.0


From d6223fc7517314cdb01729b08820addba40eb545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:25 +0000
Subject: [PATCH 52/55] fix: do not write a vector<bool> from many threads in
 tinyot

---
 src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
index f6155e1..44c77b8 100644
--- a/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
+++ b/src/libspu/mpc/spdz2k/beaver/beaver_tinyot.cc
@@ -120,11 +120,10 @@ std::vector<bool> ring_cast_vector_boolean(const NdArrayRef& x) {
   std::vector<bool> res(x.numel());
   DISPATCH_ALL_FIELDS(field, [&]() {
     NdArrayView<ring2k_t> _x(x);
-    yacl::parallel_for(0, x.numel(), 4096, [&](size_t start, size_t end) {
-      for (size_t i = start; i < end; i++) {
-        res[i] = static_cast<bool>(_x[i] & 0x1);
-      }
-    });
+    // not in parallel: neighbours in a vector<bool> share a word.
+    for (int64_t i = 0; i < x.numel(); i++) {
+      res[i] = static_cast<bool>(_x[i] & 0x1);
+    }
   });
   return res;
 }
-- 
2.43.0


From e610da8e89cc057145ac55c5852ca4b28e9c5051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:25 +0000
Subject: [PATCH 53/55] fix: set the number of threads of Eigen only once

---
 src/libspu/mpc/utils/linalg.h | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/libspu/mpc/utils/linalg.h b/src/libspu/mpc/utils/linalg.h
index 1751d97..f5239bb 100644
--- a/src/libspu/mpc/utils/linalg.h
+++ b/src/libspu/mpc/utils/linalg.h
@@ -22,6 +22,28 @@
 
 namespace spu::mpc::linalg {
 
+namespace detail {
+
+// The number of threads is a global variable of Eigen, and parties and forks
+// multiply at the same time, so write it only once.
+inline void setNbThreadsOnce() {
+  static const bool done = [] {
+#ifdef __MACOS_NO_PARA__
+    // There is a bug in Eigen+libomp under macos: there is a small probability
+    // of core or stuck. Try to roll back eigen/libomp to the old version in
+    // recent years, the problem still exists. For the time being, you can only
+    // bypass this problem by not concurrently.
+    Eigen::setNbThreads(1);
+#else
+    Eigen::setNbThreads(4);
+#endif
+    return true;
+  }();
+  (void)done;
+}
+
+}  // namespace detail
+
 /**
  * @brief C := op( A )*op( B )
  *
@@ -86,15 +108,7 @@ void matmul(int64_t M, int64_t N, int64_t K, const T* A, int64_t LDA,
   // auto expected_num_threads = std::max((M * K + kMinTaskSize) / kMinTaskSize,
   //                                     (N * K + kMinTaskSize) / kMinTaskSize);
 
-#ifdef __MACOS_NO_PARA__
-  // There is a bug in Eigen+libomp under macos: there is a small probability of
-  // core or stuck. Try to roll back eigen/libomp to the old version in recent
-  // years, the problem still exists. For the time being, you can only bypass
-  // this problem by not concurrently.
-  Eigen::setNbThreads(1);
-#else
-  Eigen::setNbThreads(4);
-#endif
+  detail::setNbThreadsOnce();
 
   c.noalias() = a * b;
 }
-- 
2.43.0


From de3cca81886e367542d9e244bbaa1483db07cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:39 +0000
Subject: [PATCH 54/55] fix: keep the running sum of securenn compare local to
 an element

---
 src/libspu/mpc/securenn/arithmetic.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libspu/mpc/securenn/arithmetic.cc b/src/libspu/mpc/securenn/arithmetic.cc
index 2bb7bb6..72c79f2 100644
--- a/src/libspu/mpc/securenn/arithmetic.cc
+++ b/src/libspu/mpc/securenn/arithmetic.cc
@@ -670,10 +670,10 @@ NdArrayRef ShareConvert::proc(KernelEvalContext* ctx,
       NdArrayRef c(ty, {size * k});
       NdArrayView<U> _c(c);
 
-      size_t w;
-      size_t w_total;
-
       pforeach(0, size, [&](int64_t idx) {
+        size_t w;
+        size_t w_total;
+
         auto r_bits = bitDecompose(_r[idx], k);
         auto t_bits = bitDecompose(_t[idx], k);
 
@@ -1086,10 +1086,10 @@ NdArrayRef Msb::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
       NdArrayRef c(ty, {size * k});
       NdArrayView<U> _c(c);
 
-      size_t w;
-      size_t w_total;
-
       pforeach(0, in.numel(), [&](int64_t idx) {
+        size_t w;
+        size_t w_total;
+
         auto r_bits = bitDecompose(_r[idx], k);
         auto t_bits = bitDecompose(_t[idx], k);
         _lsb_r[idx] = static_cast<U>(r_bits[0]);
-- 
2.43.0


From e5b058bd136c63045ee5a414a4bd19d5abca057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:39 +0000
Subject: [PATCH 55/55] fix: set the flags of brpc only once

---
 .../mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc       | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
index 3be47ee..44def58 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
@@ -383,9 +383,14 @@ BeaverTtp::BeaverTtp(std::shared_ptr<yacl::link::Context> lctx, Options ops)
       seed_(yacl::crypto::SecureRandSeed()),
       counter_(0),
       options_(std::move(ops)) {
-  brpc::FLAGS_max_body_size = std::numeric_limits<uint64_t>::max();
-  brpc::FLAGS_socket_max_unwritten_bytes =
-      std::numeric_limits<int64_t>::max() / 2;
+  // global variables of brpc, write them once for all dealers of the process.
+  static const bool flags_set = [] {
+    brpc::FLAGS_max_body_size = std::numeric_limits<uint64_t>::max();
+    brpc::FLAGS_socket_max_unwritten_bytes =
+        std::numeric_limits<int64_t>::max() / 2;
+    return true;
+  }();
+  (void)flags_set;
   // init remote connection.
   SPU_ENFORCE(lctx_);
   {
-- 
2.43.0

