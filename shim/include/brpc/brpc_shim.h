// In-process stand-in for the part of brpc that the TTP beaver client and
// server use: a channel finds the server started on the same address in this
// process and calls the protobuf service directly; the progressive attachment
// is a byte stream handed to the reader in pieces whose sizes vary.
#pragma once
#include <google/protobuf/service.h>
#include <google/protobuf/stubs/callback.h>
#include <google/protobuf/message.h>

#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

#include "gflags/gflags.h"

namespace butil {
template <typename T>
using intrusive_ptr = std::shared_ptr<T>;
struct EndPoint { int port = 0; };
inline std::string endpoint2str(const EndPoint&) { return "inproc"; }
class Status {
 public:
  Status() = default;
  Status(int code, const std::string& msg) : code_(code), msg_(msg) {}
  static Status OK() { return {}; }
  bool ok() const { return code_ == 0; }
  const std::string& error_str() const { return msg_; }
  int error_code() const { return code_; }
 private:
  int code_ = 0;
  std::string msg_;
};
}  // namespace butil

namespace brpc {
DECLARE_uint64(max_body_size);
DECLARE_int64(socket_max_unwritten_bytes);

struct CertInfo { std::string certificate, private_key; };
struct VerifyOptions { int verify_depth = 0; std::string ca_file_path; };
struct ChannelSSLOptions { CertInfo client_cert; VerifyOptions verify; std::string sni_name, ciphers, protocols; };
struct ServerSSLOptions { CertInfo default_cert; VerifyOptions verify; };
struct ChannelOptions {
  std::string protocol;
  int32_t connect_timeout_ms = 0;
  int32_t timeout_ms = 0;
  int max_retry = 0;
  ChannelSSLOptions* mutable_ssl_options() { return &ssl; }
  ChannelSSLOptions ssl;
};
struct ServerOptions {
  bool has_builtin_services = true;
  ServerSSLOptions* mutable_ssl_options() { return &ssl; }
  ServerSSLOptions ssl;
};

// ---- shim control -----------------------------------------------------
namespace shim {
struct Stream {
  std::string bytes;
};
extern std::atomic<uint64_t> g_split_seed;  // 0: one piece
extern std::atomic<uint64_t> g_calls;
// if set: mutate / truncate the bytes of a response (fault injection)
extern std::function<void(std::string&)> g_on_response;
extern std::mutex g_mu;
}  // namespace shim

class ProgressiveAttachment {
 public:
  explicit ProgressiveAttachment(std::shared_ptr<shim::Stream> s) : s_(std::move(s)) {}
  int Write(const void* d, size_t n) {
    s_->bytes.append(reinterpret_cast<const char*>(d), n);
    return 0;
  }
  butil::EndPoint remote_side() const { return {}; }
 private:
  std::shared_ptr<shim::Stream> s_;
};
class ProgressiveReader {
 public:
  virtual ~ProgressiveReader() = default;
  virtual butil::Status OnReadOnePart(const void* data, size_t length) = 0;
  virtual void OnEndOfMessage(const butil::Status& status) = 0;
};
struct HttpHeader {
  void SetHeader(const std::string& k, const std::string& v) { h[k] = v; }
  std::map<std::string, std::string> h;
};
class Controller : public google::protobuf::RpcController {
 public:
  void Reset() override {}
  bool Failed() const override { return failed_; }
  std::string ErrorText() const override { return err_; }
  int ErrorCode() const { return failed_ ? 1 : 0; }
  void StartCancel() override {}
  void SetFailed(const std::string& r) override { failed_ = true; err_ = r; }
  bool IsCanceled() const override { return false; }
  void NotifyOnCancel(google::protobuf::Closure*) override {}
  void response_will_be_read_progressively() {}
  HttpHeader& http_request() { return hdr_; }
  butil::EndPoint remote_side() const { return {}; }
  std::shared_ptr<ProgressiveAttachment> CreateProgressiveAttachment() {
    return std::make_shared<ProgressiveAttachment>(stream_);
  }
  void ReadProgressiveAttachmentBy(ProgressiveReader* r);
  std::shared_ptr<shim::Stream> stream_ = std::make_shared<shim::Stream>();
 private:
  bool failed_ = false;
  std::string err_;
  HttpHeader hdr_;
};
class ClosureGuard {
 public:
  explicit ClosureGuard(google::protobuf::Closure* c) : c_(c) {}
  ~ClosureGuard() { if (c_) c_->Run(); }
  google::protobuf::Closure* release() { auto* c = c_; c_ = nullptr; return c; }
 private:
  google::protobuf::Closure* c_;
};
class Channel : public google::protobuf::RpcChannel {
 public:
  int Init(const char* addr, const ChannelOptions*) { addr_ = addr; return 0; }
  void CallMethod(const google::protobuf::MethodDescriptor* m,
                  google::protobuf::RpcController* c,
                  const google::protobuf::Message* req,
                  google::protobuf::Message* rsp,
                  google::protobuf::Closure* done) override;
 private:
  std::string addr_;
};
enum ServiceOwnership { SERVER_OWNS_SERVICE, SERVER_DOESNT_OWN_SERVICE };
class Server {
 public:
  ~Server();
  int AddService(google::protobuf::Service* s, ServiceOwnership) { svc_.reset(s); return 0; }
  int Start(int port, const ServerOptions*);
  ServerOptions options() const { return {}; }
  butil::EndPoint listen_address() const { return {port_}; }
  void RunUntilAskedToQuit() {}
  int Stop(int) { return 0; }
  int Join() { return 0; }
  google::protobuf::Service* service() { return svc_.get(); }
 private:
  std::unique_ptr<google::protobuf::Service> svc_;
  int port_ = 0;
};
}  // namespace brpc
