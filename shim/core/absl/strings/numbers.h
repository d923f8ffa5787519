#pragma once
// SimpleAtod and SimpleAtoi with Abseil's syntax.
#include <cmath>
#include <cstdlib>
#include <limits>
#include <string>
#include "absl/strings/ascii.h"
#include "absl/strings/string_view.h"
namespace absl {
inline bool SimpleAtod(string_view s, double* out) {
  s = StripAsciiWhitespace(s);
  *out = 0;
  if (!s.empty() && s[0] == '+') {
    s.remove_prefix(1);
    if (!s.empty() && s[0] == '-') return false;
  }
  if (s.empty() || ascii_isspace(s[0])) return false;
  for (char c : s) {
    if (c == '\0') return false;
  }
  size_t i = s[0] == '-' ? 1 : 0;
  if (i < s.size() && s[i] == '+') return false;
  std::string z(s);
  char* end = nullptr;
  *out = std::strtod(z.c_str(), &end);
  return end == z.c_str() + z.size();
}
inline bool SimpleAtof(string_view s, float* out) {
  double d;
  bool ok = SimpleAtod(s, &d);
  *out = static_cast<float>(d);
  return ok;
}
template <typename T>
bool SimpleAtoi(string_view s, T* out) {
  s = StripAsciiWhitespace(s);
  bool neg = false;
  if (!s.empty() && (s[0] == '-' || s[0] == '+')) {
    neg = s[0] == '-';
    s.remove_prefix(1);
  }
  if (s.empty()) return false;
  __int128 v = 0;
  for (char c : s) {
    if (c < '0' || c > '9') return false;
    v = v * 10 + (c - '0');
    if (v > (static_cast<__int128>(1) << 70)) return false;
  }
  if (neg) v = -v;
  if (v < static_cast<__int128>(std::numeric_limits<T>::min()) || v > static_cast<__int128>(std::numeric_limits<T>::max())) return false;
  *out = static_cast<T>(v);
  return true;
}
}  // namespace absl
