#pragma once
#include "absl/strings/str_cat.h"
namespace absl {
template <typename R, typename F>
std::string StrJoin(const R& r, string_view sep, F&& f) {
  std::string out;
  bool first = true;
  for (const auto& x : r) {
    if (!first) out.append(sep);
    first = false;
    f(&out, x);
  }
  return out;
}
template <typename R>
std::string StrJoin(const R& r, string_view sep) {
  return StrJoin(r, sep, [](std::string* o, const auto& x) { StrAppend(o, x); });
}
}  // namespace absl
