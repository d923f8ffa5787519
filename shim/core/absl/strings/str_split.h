#pragma once
#include <string>
#include <vector>
#include "absl/strings/string_view.h"
namespace absl {
struct SkipEmpty {};
inline std::vector<std::string> StrSplit(string_view s, string_view sep) {
  std::vector<std::string> out;
  for (;;) {
    size_t p = s.find(sep);
    out.emplace_back(s.substr(0, p));
    if (p == string_view::npos) return out;
    s.remove_prefix(p + sep.size());
  }
}
inline std::vector<std::string> StrSplit(string_view s, char sep) { return StrSplit(s, string_view(&sep, 1)); }
}  // namespace absl
