// Stand-in for yacl/utils/parallel.h. Like yacl it hands f a partition of
// [begin, end) into contiguous chunks; vmon chooses the partition, the order
// and whether the chunks really run on several threads.
#pragma once
#include <cstdint>
#include <exception>
#include <functional>
#include <mutex>
#include <thread>
#include <vector>
#include <algorithm>

#include "vmon/vmon.h"
#include "yacl/base/exception.h"

namespace yacl {
namespace internal {
inline thread_local bool tls_in_parallel = false;
void RunChunks(int64_t begin, int64_t end, int64_t grain,
               const std::function<void(int64_t, int64_t, size_t)>& f,
               size_t* nchunks);
}  // namespace internal
inline int get_num_threads() { return vmon::g_num_threads.load(); }
inline void set_num_threads(int n) { if (n > 0) vmon::g_num_threads.store(n); }
inline void init_num_threads() {}
inline bool in_parallel_region() { return internal::tls_in_parallel; }

template <typename F>
void parallel_for(int64_t begin, int64_t end, int64_t grain_size, const F& f) {
  YACL_ENFORCE(grain_size > 0);
  if (begin >= end) return;
  size_t nc = 0;
  internal::RunChunks(begin, end, grain_size,
                      [&](int64_t b, int64_t e, size_t) { f(b, e); }, &nc);
}
template <typename F>
void parallel_for(int64_t begin, int64_t end, const F& f) {
  parallel_for(begin, end, 1, f);
}
template <typename scalar_t, typename F, typename SF>
scalar_t parallel_reduce(int64_t begin, int64_t end, int64_t grain_size,
                         const F& f, const SF& sf) {
  YACL_ENFORCE(grain_size > 0);
  YACL_ENFORCE(begin < end, "parallel_reduce: empty range");
  std::mutex mu;
  std::vector<std::pair<int64_t, scalar_t>> parts;
  size_t nc = 0;
  internal::RunChunks(begin, end, grain_size,
                      [&](int64_t b, int64_t e, size_t) {
                        scalar_t v = f(b, e);
                        std::lock_guard<std::mutex> g(mu);
                        parts.emplace_back(b, v);
                      },
                      &nc);
  std::sort(parts.begin(), parts.end(), [](const auto& x, const auto& y) { return x.first < y.first; });
  scalar_t r = parts[0].second;
  for (size_t i = 1; i < parts.size(); i++) r = sf(r, parts[i].second);
  return r;
}
}  // namespace yacl
