// In-memory stand-in for the parts of leveldb that BeaverCache uses.
#pragma once
#include <cstddef>
#include <map>
#include <mutex>
#include <string>
namespace leveldb {
class Slice {
 public:
  Slice() = default;
  Slice(const char* d, size_t n) : d_(d), n_(n) {}
  Slice(const std::string& s) : d_(s.data()), n_(s.size()) {}
  Slice(const char* s) : d_(s), n_(std::char_traits<char>::length(s)) {}
  const char* data() const { return d_; }
  size_t size() const { return n_; }
  std::string ToString() const { return std::string(d_, n_); }

 private:
  const char* d_ = "";
  size_t n_ = 0;
};
class Status {
 public:
  Status() = default;
  explicit Status(const char* e) : e_(e), ok_(false) {}
  bool ok() const { return ok_; }
  bool IsNotFound() const { return !ok_; }
  std::string ToString() const { return e_; }

 private:
  std::string e_ = "OK";
  bool ok_ = true;
};
enum CompressionType { kNoCompression = 0, kSnappyCompression = 1 };
struct Options {
  bool create_if_missing = false;
  bool error_if_exists = false;
  bool paranoid_checks = false;
  size_t write_buffer_size = 4 << 20;
  size_t block_size = 4096;
  size_t max_file_size = 2 << 20;
  CompressionType compression = kSnappyCompression;
};
struct ReadOptions {
  bool verify_checksums = false;
  bool fill_cache = true;
};
struct WriteOptions {
  bool sync = false;
};
class DB {
 public:
  virtual ~DB() = default;
  static Status Open(const Options&, const std::string&, DB** db) {
    *db = new DB();
    return Status();
  }
  virtual Status Put(const WriteOptions&, const Slice& k, const Slice& v) {
    std::lock_guard<std::mutex> l(mu_);
    kv_[k.ToString()] = v.ToString();
    return Status();
  }
  virtual Status Get(const ReadOptions&, const Slice& k, std::string* v) {
    std::lock_guard<std::mutex> l(mu_);
    auto it = kv_.find(k.ToString());
    if (it == kv_.end()) return Status("not found");
    *v = it->second;
    return Status();
  }
  virtual Status Delete(const WriteOptions&, const Slice& k) {
    std::lock_guard<std::mutex> l(mu_);
    kv_.erase(k.ToString());
    return Status();
  }
  size_t Entries() const {
    std::lock_guard<std::mutex> l(mu_);
    return kv_.size();
  }

 private:
  mutable std::mutex mu_;
  std::map<std::string, std::string> kv_;
};
inline Status DestroyDB(const std::string&, const Options&) { return Status(); }
}  // namespace leveldb
