#pragma once
// StrFormat for the directives in use, checked against the argument's type.
#include <cctype>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <type_traits>
#include "absl/strings/str_cat.h"
namespace absl {
namespace vshim_fmt {
template <typename T>
std::string One(std::string spec, char conv, const T& v) {
  char b[512];
  if constexpr (std::is_enum_v<T>) {
    return One(spec, conv, static_cast<long long>(v));
  } else if constexpr (std::is_arithmetic_v<T>) {
    if (conv == 'c') return std::string(1, static_cast<char>(v));
    if (conv == 'v' || conv == 's') return std::string(AlphaNum(static_cast<std::conditional_t<std::is_same_v<T, char>, int, T>>(v)).Piece());
    if constexpr (std::is_floating_point_v<T>) {
      return std::string(b, std::snprintf(b, sizeof b, (spec + conv).c_str(), static_cast<double>(v)));
    } else {
      if (conv == 'x' || conv == 'X' || conv == 'o' || conv == 'u')
        return std::string(b, std::snprintf(b, sizeof b, (spec + "ll" + conv).c_str(), static_cast<unsigned long long>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<T, bool>, int, T>>>(v))));
      return std::string(b, std::snprintf(b, sizeof b, (spec + "ll" + (conv == 'i' ? 'd' : conv)).c_str(), static_cast<long long>(v)));
    }
  } else {
    std::string s(AlphaNum(v).Piece());
    size_t dot = spec.find('.');
    if (dot != std::string::npos) s.resize(std::min<size_t>(s.size(), std::atoi(spec.c_str() + dot + 1)));
    return s;
  }
}
inline void Rest(std::string& out, string_view& f) {
  while (!f.empty()) {
    if (f[0] == '%' && f.size() > 1 && f[1] == '%') {
      out.push_back('%');
      f.remove_prefix(2);
    } else if (f[0] == '%') {
      return;
    } else {
      out.push_back(f[0]);
      f.remove_prefix(1);
    }
  }
}
template <typename T>
void Next(std::string& out, string_view& f, const T& v) {
  Rest(out, f);
  if (f.empty()) std::abort();
  size_t i = 1;
  while (i < f.size() && (std::isdigit(static_cast<unsigned char>(f[i])) || std::string_view("-+ #.").find(f[i]) != std::string_view::npos)) ++i;
  std::string spec(f.substr(0, i));
  while (i < f.size() && std::string_view("lhzjt").find(f[i]) != std::string_view::npos) ++i;
  out += One(spec, f[i], v);
  f.remove_prefix(i + 1);
}
}  // namespace vshim_fmt
template <typename... T>
std::string StrFormat(string_view f, const T&... v) {
  std::string out;
  (vshim_fmt::Next(out, f, v), ...);
  vshim_fmt::Rest(out, f);
  if (!f.empty()) std::abort();
  return out;
}
template <typename... T>
std::string& StrAppendFormat(std::string* o, string_view f, const T&... v) { return o->append(StrFormat(f, v...)); }
}  // namespace absl
