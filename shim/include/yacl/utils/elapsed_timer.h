#pragma once
#include <chrono>
namespace yacl {
class ElapsedTimer {
 public:
  ElapsedTimer() { Restart(); }
  void Restart() { t_ = std::chrono::steady_clock::now(); }
  double CountSec() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t_).count(); }
  double CountMs() const { return CountSec() * 1e3; }
 private:
  std::chrono::steady_clock::time_point t_;
};
}  // namespace yacl
