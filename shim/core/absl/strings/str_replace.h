#pragma once
#include <initializer_list>
#include <string>
#include <utility>
#include "absl/strings/string_view.h"
namespace absl {
// At every position the longest replacement that fits, left to right.
template <typename R>
std::string StrReplaceAllImpl(string_view s, const R& reps) {
  std::string out;
  size_t i = 0;
  while (i < s.size()) {
    string_view best, with;
    for (const auto& [from, to] : reps) {
      string_view f(from);
      if (!f.empty() && s.substr(i, f.size()) == f && f.size() > best.size()) { best = f; with = to; }
    }
    if (best.empty()) out.push_back(s[i++]);
    else { out.append(with); i += best.size(); }
  }
  return out;
}
inline std::string StrReplaceAll(string_view s, std::initializer_list<std::pair<string_view, string_view>> reps) { return StrReplaceAllImpl(s, reps); }
template <typename R> std::string StrReplaceAll(string_view s, const R& reps) { return StrReplaceAllImpl(s, reps); }
inline int StrReplaceAll(std::initializer_list<std::pair<string_view, string_view>> reps, std::string* t) { std::string o = *t; *t = StrReplaceAllImpl(o, reps); return o != *t; }
}  // namespace absl
