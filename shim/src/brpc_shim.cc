#include "brpc/brpc_shim.h"

#include <algorithm>

namespace brpc {
uint64_t FLAGS_max_body_size = 0;
int64_t FLAGS_socket_max_unwritten_bytes = 0;
namespace shim {
std::atomic<uint64_t> g_split_seed{0};
std::atomic<uint64_t> g_calls{0};
std::function<void(std::string&)> g_on_response;
std::mutex g_mu;
static std::map<std::string, Server*>& Registry() {
  static std::map<std::string, Server*> r;
  return r;
}
static int g_next_port = 10000;
}  // namespace shim

int Server::Start(int port, const ServerOptions*) {
  std::lock_guard<std::mutex> g(shim::g_mu);
  port_ = port != 0 ? port : shim::g_next_port++;
  shim::Registry()["127.0.0.1:" + std::to_string(port_)] = this;
  return 0;
}
Server::~Server() {
  std::lock_guard<std::mutex> g(shim::g_mu);
  auto& r = shim::Registry();
  for (auto it = r.begin(); it != r.end();) {
    it = it->second == this ? r.erase(it) : std::next(it);
  }
}
void Channel::CallMethod(const google::protobuf::MethodDescriptor* m,
                         google::protobuf::RpcController* c,
                         const google::protobuf::Message* req,
                         google::protobuf::Message* rsp,
                         google::protobuf::Closure* done) {
  auto* cntl = static_cast<Controller*>(c);
  Server* s = nullptr;
  {
    std::lock_guard<std::mutex> g(shim::g_mu);
    auto it = shim::Registry().find(addr_);
    if (it != shim::Registry().end()) s = it->second;
  }
  if (s == nullptr) {
    cntl->SetFailed("connection refused " + addr_);
    return;
  }
  shim::g_calls++;
  // the wire: server sees a re-parsed copy.
  std::unique_ptr<google::protobuf::Message> r2(req->New());
  std::string wire;
  req->SerializeToString(&wire);
  r2->ParseFromString(wire);
  Controller server_cntl;
  server_cntl.stream_ = cntl->stream_;
  s->service()->CallMethod(m, &server_cntl, r2.get(), rsp,
                           google::protobuf::NewCallback(+[] {}));
  {
    std::lock_guard<std::mutex> g(shim::g_mu);
    if (shim::g_on_response) shim::g_on_response(cntl->stream_->bytes);
  }
  if (done != nullptr) done->Run();
}
void Controller::ReadProgressiveAttachmentBy(ProgressiveReader* r) {
  const std::string& b = stream_->bytes;
  uint64_t x = shim::g_split_seed.load();
  size_t pos = 0;
  butil::Status st;
  while (pos < b.size()) {
    size_t n = b.size() - pos;
    if (x != 0) {
      x = x * 6364136223846793005ULL + 1442695040888963407ULL;
      size_t lim = ((x >> 33) % 3 == 0) ? 7 : std::max<size_t>(64, b.size() / 5);
      n = std::min<size_t>(n, 1 + (x >> 40) % lim);
    }
    st = r->OnReadOnePart(b.data() + pos, n);
    if (!st.ok()) break;
    pos += n;
  }
  r->OnEndOfMessage(st);
}
}  // namespace brpc
