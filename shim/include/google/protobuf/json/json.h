// protobuf 3.21 still has the JSON helpers under util/.
#pragma once
#include <string>
#include <string_view>

#include "google/protobuf/util/json_util.h"
namespace google::protobuf::json {
using ParseOptions = ::google::protobuf::util::JsonParseOptions;
using PrintOptions = ::google::protobuf::util::JsonPrintOptions;
inline auto JsonStringToMessage(std::string_view in, Message* m) {
  return ::google::protobuf::util::JsonStringToMessage(std::string(in), m);
}
inline auto JsonStringToMessage(std::string_view in, Message* m,
                                const ParseOptions& o) {
  return ::google::protobuf::util::JsonStringToMessage(std::string(in), m, o);
}
using ::google::protobuf::util::MessageToJsonString;
}  // namespace google::protobuf::json
