#pragma once
#include <memory>
#include <string>
#include <string_view>
namespace yacl::link {
class TraceLogger {
 public:
  virtual ~TraceLogger() = default;
  static void SetLogger(std::shared_ptr<TraceLogger> logger);
 private:
  virtual void LinkTraceImpl(std::string_view event, std::string_view tag,
                             std::string_view content) = 0;
};
}  // namespace yacl::link
