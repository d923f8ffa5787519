#pragma once
#include <initializer_list>
#include <sstream>
#include "absl/strings/str_cat.h"
namespace absl {
template <typename R, typename F>
std::string StrJoin(const R& r, string_view sep, F&& f) {
  std::string out;
  bool first = true;
  for (const auto& x : r) {
    if (!first) out.append(sep);
    first = false;
    f(&out, x);
  }
  return out;
}
template <typename It, typename F>
std::string StrJoin(It b, It e, string_view sep, F&& f) {
  std::string out;
  for (It i = b; i != e; ++i) {
    if (i != b) out.append(sep);
    f(&out, *i);
  }
  return out;
}
template <typename R>
std::string StrJoin(const R& r, string_view sep) {
  return StrJoin(r, sep, [](std::string* o, const auto& x) { StrAppend(o, x); });
}
template <typename T>
std::string StrJoin(std::initializer_list<T> r, string_view sep) {
  return StrJoin(r, sep, [](std::string* o, const auto& x) { StrAppend(o, x); });
}
struct PairFormatterImpl {
  std::string sep;
  template <typename P> void operator()(std::string* o, const P& p) const { StrAppend(o, p.first, sep, p.second); }
};
inline PairFormatterImpl PairFormatter(string_view sep) { return {std::string(sep)}; }
struct StreamFormatterImpl {
  template <typename P> void operator()(std::string* o, const P& p) const { std::ostringstream os; os << p; o->append(os.str()); }
};
inline StreamFormatterImpl StreamFormatter() { return {}; }
}  // namespace absl
