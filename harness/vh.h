// Harness framework: numbered, seed-derived cases; failures keyed and recorded;
// every oracle decision counted; the current case kept in a file that survives
// a crash of the process.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "fmt/format.h"
#include "yacl/base/int128.h"

namespace vh {

inline uint64_t Mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

class Rng {
 public:
  explicit Rng(uint64_t s = 0) : s_(s) {}
  uint64_t u64() { return Mix(s_ ^ Mix(++c_)); }
  uint128_t u128() {
    uint128_t h = u64();
    return (h << 64) | u64();
  }
  // [0, n)
  uint64_t below(uint64_t n) { return n == 0 ? 0 : u64() % n; }
  // [a, b]
  int64_t range(int64_t a, int64_t b) {
    return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a) + 1));
  }
  bool chance(int pct) { return static_cast<int>(below(100)) < pct; }
  double real() { return static_cast<double>(u64() >> 11) * 0x1.0p-53; }
  double uniform(double a, double b) { return a + (b - a) * real(); }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }

 private:
  uint64_t s_;
  uint64_t c_ = 0;
};

struct Case {
  uint64_t index;
  uint64_t seed;
  bool thorough;
  Rng rng;
  std::string group;
  std::string desc;
};
using CaseFn = std::function<void(Case&)>;
struct Group {
  std::string name;
  uint64_t quick;
  uint64_t thorough;
  CaseFn fn;
};

// Say what the case is (kept for the replay file and for crashes).
void Describe(Case& c, const std::string& d);
// The property is violated; key identifies what failed (stable across seeds).
void Fail(Case& c, const std::string& key, const std::string& msg);
// The case's work did not reach a verdict (watchdog etc.).
void Inconclusive(Case& c, const std::string& why);
// Oracle decisions / observed events.
void Count(const std::string& what, uint64_t n = 1);
// Signature of a distinct, non-trivial situation that was decided.
void Cover(const std::string& sig);
void Sample(const std::string& s);

int Main(int argc, char** argv, const std::vector<Group>& groups);

template <typename T>
std::string Str(const std::vector<T>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) {
    if (i) s += ",";
    s += fmt::format("{}", v[i]);
  }
  return s + "]";
}
inline std::string Hex(uint128_t v) {
  return fmt::format("0x{:x}", v);
}
}  // namespace vh
