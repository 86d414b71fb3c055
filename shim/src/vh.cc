#include "../../harness/vh.h"

#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <mutex>
#include <unordered_set>

#include "nlohmann/json.hpp"
#include "spdlog/spdlog.h"
#include "spdlog/sinks/null_sink.h"

extern "C" {
// UBSan calls this (if present) after each report.
void __ubsan_get_current_report_data(const char** kind, const char** msg,
                                     const char** file, unsigned* line,
                                     unsigned* col, char** addr)
    __attribute__((weak));
}

namespace vh {
namespace {
std::mutex mu;
char* g_cur = nullptr;
constexpr size_t kCur = 8192;
std::vector<nlohmann::json> g_fail;
std::map<std::string, uint64_t> g_fail_count;
std::vector<std::string> g_inc;
std::map<std::string, uint64_t> g_counts;
std::unordered_set<uint64_t> g_cover;
std::map<std::string, uint64_t> g_cover_groups;
std::vector<std::string> g_samples;
std::map<std::string, uint64_t> g_ub;

uint64_t HashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return Mix(h);
}
}  // namespace

void UbReport(const std::string& s) {
  std::lock_guard<std::mutex> g(mu);
  g_ub[s]++;
}

void Describe(Case& c, const std::string& d) {
  c.desc = d;
  if (g_cur != nullptr) {
    std::string s = fmt::format("{}\t{}\t{}", c.index, c.group, d);
    std::lock_guard<std::mutex> g(mu);
    std::memset(g_cur, 0, kCur);
    std::memcpy(g_cur, s.data(), std::min(s.size(), kCur - 1));
  }
}
void Fail(Case& c, const std::string& key, const std::string& msg) {
  std::lock_guard<std::mutex> g(mu);
  if (++g_fail_count[key] <= 3 && g_fail.size() < 200) {
    g_fail.push_back({{"key", key},
                      {"case", c.index},
                      {"group", c.group},
                      {"desc", c.desc.substr(0, 3000)},
                      {"msg", msg.substr(0, 2000)}});
  }
}
void Inconclusive(Case& c, const std::string& why) {
  std::lock_guard<std::mutex> g(mu);
  g_inc.push_back(fmt::format("{} {} {}: {}", c.index, c.group,
                              c.desc.substr(0, 300), why.substr(0, 500)));
}
void Count(const std::string& what, uint64_t n) {
  std::lock_guard<std::mutex> g(mu);
  g_counts[what] += n;
}
void Cover(const std::string& sig) {
  std::lock_guard<std::mutex> g(mu);
  g_cover.insert(HashStr(sig));
}
void Sample(const std::string& s) {
  std::lock_guard<std::mutex> g(mu);
  if (g_samples.size() < 12) g_samples.push_back(s.substr(0, 600));
}

int Main(int argc, char** argv, const std::vector<Group>& groups) {
  uint64_t seed = 1, shard = 0, nshards = 1;
  int64_t only = -1;
  std::string only_group;
  bool thorough = false;
  double budget = 1e9;
  double scale = 1;
  std::string out, cur;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") seed = std::stoull(v);
    else if (a == "--shard") shard = std::stoull(v);
    else if (a == "--nshards") nshards = std::stoull(v);
    else if (a == "--only") only = std::stoll(v);
    else if (a == "--group") only_group = v;
    else if (a == "--tier") thorough = v == "thorough";
    else if (a == "--out") out = v;
    else if (a == "--cur") cur = v;
    else if (a == "--budget") budget = std::stod(v);
    else if (a == "--scale") scale = std::stod(v);
    else { std::cerr << "bad arg " << a << "\n"; return 2; }
  }
  spdlog::set_default_logger(std::make_shared<spdlog::logger>(
      "null", std::make_shared<spdlog::sinks::null_sink_mt>()));
  if (!cur.empty()) {
    int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, kCur) != 0) return 2;
    g_cur = static_cast<char*>(
        mmap(nullptr, kCur, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (g_cur == MAP_FAILED) return 2;
  }
  // Interleave the groups so that a shard (and an early stop) sees all of them.
  struct Item { const Group* g; uint64_t k; uint64_t n; };
  std::vector<std::pair<double, std::pair<const Group*, uint64_t>>> items;
  for (auto& g : groups) {
    if (!only_group.empty() && g.name != only_group &&
        !(only_group.back() == '*' && g.name.compare(0, only_group.size() - 1, only_group, 0, only_group.size() - 1) == 0)) continue;
    uint64_t n = thorough ? g.thorough : g.quick;
    n = static_cast<uint64_t>(static_cast<double>(n) * scale + 0.999);
    for (uint64_t k = 0; k < n; k++) {
      items.push_back({(static_cast<double>(k) + 0.5) / static_cast<double>(n), {&g, k}});
    }
  }
  std::stable_sort(items.begin(), items.end(), [](auto& a, auto& b) { return a.first < b.first; });
  const auto t0 = std::chrono::steady_clock::now();
  uint64_t done = 0, skipped = 0;
  std::map<std::string, uint64_t> per_group;
  std::map<std::string, double> group_s;
  for (uint64_t i = 0; i < items.size(); i++) {
    const Group* g = items[i].second.first;
    const uint64_t k = items[i].second.second;
    // The number of a case does not depend on the tier or the sharding.
    const uint64_t index = (HashStr(g->name) % 100000) * 10000000 + k;
    if (only >= 0 ? index != static_cast<uint64_t>(only) : i % nshards != shard) continue;
    const auto t1 = std::chrono::steady_clock::now();
    if (std::chrono::duration<double>(t1 - t0).count() > budget) {
      skipped++;
      continue;
    }
    Case c{index, Mix(seed * 7919 + index), thorough, Rng(Mix(seed * 7919 + index)), g->name, ""};
    Describe(c, "");
    try {
      g->fn(c);
    } catch (const std::exception& e) {
      Fail(c, "exception:" + g->name, e.what());
    }
    done++;
    per_group[g->name]++;
    group_s[g->name] += std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count();
    if (done <= 1 || per_group[g->name] == 1) {
      if (!c.desc.empty()) Sample(g->name + ": " + c.desc);
    }
    if (only >= 0) {
      std::cerr << "case " << c.index << " " << c.group << " " << c.desc << "\n";
    }
  }
  if (g_cur != nullptr) std::memset(g_cur, 0, kCur);
  nlohmann::json j;
  j["done"] = done;
  j["skipped"] = skipped;
  j["failures"] = g_fail;
  j["fail_counts"] = g_fail_count;
  j["inconclusive"] = g_inc;
  j["counts"] = g_counts;
  j["samples"] = g_samples;
  j["cover"] = std::vector<uint64_t>(g_cover.begin(), g_cover.end());
  j["groups"] = per_group;
  j["group_s"] = group_s;
  j["ub"] = g_ub;
  if (!out.empty()) {
    std::ofstream f(out);
    f << j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
    if (!f.flush()) return 2;
  } else {
    j.erase("cover");
    j["ncover"] = g_cover.size();
    std::cout << j.dump(1, ' ', false, nlohmann::json::error_handler_t::replace) << "\n";
  }
  std::cout.flush();
  _exit(0);
}
}  // namespace vh

extern "C" void __ubsan_on_report() {
  const char *kind = "", *msg = "", *file = "";
  unsigned line = 0, col = 0;
  char* addr = nullptr;
  if (__ubsan_get_current_report_data != nullptr) {
    __ubsan_get_current_report_data(&kind, &msg, &file, &line, &col, &addr);
  }
  vh::UbReport(fmt::format("{}|{}:{}|{}", kind ? kind : "", file ? file : "", line, msg ? msg : ""));
}
