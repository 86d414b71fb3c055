#pragma once
#include <utility>
namespace yacl {
template <typename F>
class ScopeGuard {
 public:
  explicit ScopeGuard(F f) : f_(std::move(f)) {}
  ScopeGuard(ScopeGuard&& o) noexcept : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; }
  ~ScopeGuard() { if (on_) f_(); }
 private:
  F f_;
  bool on_ = true;
};
struct ScopeGuardOnExit {};
template <typename F>
ScopeGuard<F> operator+(ScopeGuardOnExit, F&& f) { return ScopeGuard<F>(std::forward<F>(f)); }
}  // namespace yacl
#define YACL_SG_CAT2(a, b) a##b
#define YACL_SG_CAT(a, b) YACL_SG_CAT2(a, b)
#define ON_SCOPE_EXIT auto YACL_SG_CAT(scope_exit_, __LINE__) = ::yacl::ScopeGuardOnExit() + [&]()
