// Stand-in for magic_enum (enumerators in [-2, 64]).
#pragma once
#include <array>
#include <optional>
#include <string_view>
#include <type_traits>
#include <utility>

namespace magic_enum {
namespace detail {
template <typename E, E V>
constexpr std::string_view raw() {
  return __PRETTY_FUNCTION__;
}
template <typename E, E V>
constexpr std::string_view name_of() {
  // clang: "... [E = X, V = ns::X::NAME]" ; gcc: "... [with E = X; E V = ...]"
  std::string_view s = raw<E, V>();
  auto p = s.find("V = ");
  if (p == std::string_view::npos) return {};
  s.remove_prefix(p + 4);
  auto q = s.find_first_of(";]");
  s = s.substr(0, q);
  if (s.empty() || s[0] == '(' || s[0] == '-' || (s[0] >= '0' && s[0] <= '9'))
    return {};
  auto c = s.rfind(':');
  return c == std::string_view::npos ? s : s.substr(c + 1);
}
constexpr int kMin = -2;
constexpr int kMax = 64;
template <typename E, int... I>
constexpr auto table_impl(std::integer_sequence<int, I...>) {
  return std::array<std::string_view, sizeof...(I)>{
      name_of<E, static_cast<E>(I + kMin)>()...};
}
template <typename E>
inline constexpr auto table =
    table_impl<E>(std::make_integer_sequence<int, kMax - kMin + 1>());
}  // namespace detail

template <typename E>
constexpr std::string_view enum_name(E v) {
  auto i = static_cast<long long>(v);
  if (i < detail::kMin || i > detail::kMax) return {};
  return detail::table<std::decay_t<E>>[static_cast<size_t>(i - detail::kMin)];
}
template <typename E>
constexpr std::optional<E> enum_cast(std::string_view s) {
  if (s.empty()) return std::nullopt;
  for (size_t i = 0; i < detail::table<E>.size(); i++) {
    if (detail::table<E>[i] == s)
      return static_cast<E>(static_cast<int>(i) + detail::kMin);
  }
  return std::nullopt;
}
template <typename E>
constexpr std::optional<E> enum_cast(std::underlying_type_t<E> v) {
  if (enum_name(static_cast<E>(v)).empty()) return std::nullopt;
  return static_cast<E>(v);
}
}  // namespace magic_enum
