// absl's headers are compiled here with std::string_view (absl/base/options.h);
// the out-of-line functions that take a string_view are provided below.
#include <string>
#include <string_view>

#include "absl/strings/escaping.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_split.h"

namespace absl {
ABSL_NAMESPACE_BEGIN
std::string_view ByChar::Find(std::string_view text, size_t pos) const {
  size_t p = text.find(c_, pos);
  if (p == std::string_view::npos) return {text.data() + text.size(), 0};
  return text.substr(p, 1);
}
namespace numbers_internal {
bool safe_strtou64_base(std::string_view s, uint64_t* v, int base) {
  size_t b = 0, e = s.size();
  while (b < e && isspace(static_cast<unsigned char>(s[b]))) b++;
  while (e > b && isspace(static_cast<unsigned char>(s[e - 1]))) e--;
  if (b < e && s[b] == '+') b++;
  if (b == e) return false;
  unsigned __int128 r = 0;
  for (; b < e; b++) {
    int d = s[b] >= '0' && s[b] <= '9'   ? s[b] - '0'
            : s[b] >= 'a' && s[b] <= 'z' ? s[b] - 'a' + 10
            : s[b] >= 'A' && s[b] <= 'Z' ? s[b] - 'A' + 10
                                         : 99;
    if (d >= base) return false;
    r = r * base + d;
    if (r > ~uint64_t(0)) return false;
  }
  *v = static_cast<uint64_t>(r);
  return true;
}
}  // namespace numbers_internal
ABSL_NAMESPACE_END
}  // namespace absl
