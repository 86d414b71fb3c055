// Stand-in for yacl/base/exception.h.
#pragma once
#include <cstdio>
#include <exception>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <string_view>

#include "absl/strings/ascii.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_join.h"
#include "absl/strings/str_split.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "fmt/ranges.h"
#include "spdlog/sinks/stdout_color_sinks.h"
#include "spdlog/spdlog.h"
#include "yacl/base/int128.h"

// fmt 9 only honours format_as for enums; newer fmt (which SPU targets) honours
// it for classes too.
namespace vmon_fmt {
template <typename T, typename = void>
struct HasFormatAs : std::false_type {};
template <typename T>
struct HasFormatAs<T, std::void_t<decltype(format_as(std::declval<const T&>()))>>
    : std::is_class<T> {};
}  // namespace vmon_fmt
namespace fmt {
template <typename T>
struct formatter<T, char, std::enable_if_t<vmon_fmt::HasFormatAs<T>::value>>
    : formatter<std::decay_t<decltype(format_as(std::declval<const T&>()))>> {
  template <typename Ctx>
  auto format(const T& v, Ctx& ctx) const {
    auto x = format_as(v);
    return formatter<std::decay_t<decltype(x)>>::format(x, ctx);
  }
};
}  // namespace fmt

namespace yacl {
class Exception : public std::exception {
 public:
  Exception() = default;
  explicit Exception(std::string msg) : msg_(std::move(msg)) {}
  explicit Exception(const char* msg) : msg_(msg) {}
  Exception(const std::string& msg, void** stacks, int dep) : msg_(msg) {
    (void)stacks; (void)dep;
  }
  const char* what() const noexcept override { return msg_.c_str(); }
  const std::string& stack_trace() const { return stack_; }

 private:
  std::string msg_;
  std::string stack_;
};
class RuntimeError : public Exception { using Exception::Exception; };
class LogicError : public Exception { using Exception::Exception; };
class IoError : public RuntimeError { using RuntimeError::RuntimeError; };
class LinkError : public RuntimeError { using RuntimeError::RuntimeError; };
class NetworkError : public IoError { using IoError::IoError; };
class InvalidFormat : public RuntimeError { using RuntimeError::RuntimeError; };
class ArgumentError : public RuntimeError { using RuntimeError::RuntimeError; };
class NotImplementedError : public LogicError { using LogicError::LogicError; };
class EnforceNotMet : public Exception {
 public:
  EnforceNotMet(const char* file, int line, const char* cond,
                const std::string& msg)
      : Exception(fmt::format("[Enforce fail at {}:{}] {}. {}", file, line,
                              cond, msg)) {}
};

namespace internal {
inline std::string Format() { return ""; }
template <typename... Args>
std::string Format(const char* f, Args&&... args) {
  return fmt::format(fmt::runtime(f), std::forward<Args>(args)...);
}
template <typename... Args>
std::string Format(const std::string& f, Args&&... args) {
  return fmt::format(fmt::runtime(f), std::forward<Args>(args)...);
}
}  // namespace internal

template <typename T>
T&& CheckNotNullImpl(const char* file, int line, T&& t) {
  if (t == nullptr) throw EnforceNotMet(file, line, "CheckNotNull", "");
  return std::forward<T>(t);
}
template <typename T>
T&& CheckNotNull(T&& t) {
  if (t == nullptr) throw EnforceNotMet("?", 0, "CheckNotNull", "");
  return std::forward<T>(t);
}
}  // namespace yacl

#define YACL_ERROR_MSG(...) ::yacl::internal::Format(__VA_ARGS__)
#define YACL_THROW(...)                                                 \
  throw ::yacl::RuntimeError(fmt::format("[{}:{}] {}", __FILE__, __LINE__, \
                                         YACL_ERROR_MSG(__VA_ARGS__)))
#define YACL_THROW_HELPER(T, ...)                                   \
  throw T(fmt::format("[{}:{}] {}", __FILE__, __LINE__,             \
                      YACL_ERROR_MSG(__VA_ARGS__)))
#define YACL_THROW_IO_ERROR(...) YACL_THROW_HELPER(::yacl::IoError, __VA_ARGS__)
#define YACL_THROW_LOGIC_ERROR(...) \
  YACL_THROW_HELPER(::yacl::LogicError, __VA_ARGS__)
#define YACL_THROW_NETWORK_ERROR(...) \
  YACL_THROW_HELPER(::yacl::NetworkError, __VA_ARGS__)

#define YACL_ENFORCE(condition, ...)                                   \
  do {                                                                 \
    if (!(condition)) {                                                \
      throw ::yacl::EnforceNotMet(__FILE__, __LINE__, #condition,      \
                                  YACL_ERROR_MSG(__VA_ARGS__));        \
    }                                                                  \
  } while (false)
#define YACL_ENFORCE_CMP_(op, a, b, ...)                                    \
  do {                                                                      \
    auto const& yacl_a_ = (a);                                              \
    auto const& yacl_b_ = (b);                                              \
    if (!(yacl_a_ op yacl_b_)) {                                            \
      throw ::yacl::EnforceNotMet(                                          \
          __FILE__, __LINE__, #a " " #op " " #b,                            \
          fmt::format("{} vs {} ", yacl_a_, yacl_b_) +                      \
              YACL_ERROR_MSG(__VA_ARGS__));                                 \
    }                                                                       \
  } while (false)
#define YACL_ENFORCE_EQ(a, b, ...) YACL_ENFORCE_CMP_(==, a, b, __VA_ARGS__)
#define YACL_ENFORCE_NE(a, b, ...) YACL_ENFORCE_CMP_(!=, a, b, __VA_ARGS__)
#define YACL_ENFORCE_LE(a, b, ...) YACL_ENFORCE_CMP_(<=, a, b, __VA_ARGS__)
#define YACL_ENFORCE_LT(a, b, ...) YACL_ENFORCE_CMP_(<, a, b, __VA_ARGS__)
#define YACL_ENFORCE_GE(a, b, ...) YACL_ENFORCE_CMP_(>=, a, b, __VA_ARGS__)
#define YACL_ENFORCE_GT(a, b, ...) YACL_ENFORCE_CMP_(>, a, b, __VA_ARGS__)
