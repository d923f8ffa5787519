#pragma once
#include <charconv>
#include <cstdio>
#include <string>
#include <type_traits>
#include "absl/strings/string_view.h"
namespace absl {
class AlphaNum {
 public:
  template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, char>>>
  AlphaNum(T v) {
    if constexpr (std::is_floating_point_v<T>) {
      char b[64];
      own_.assign(b, std::snprintf(b, sizeof b, "%g", static_cast<double>(v)));
    } else if constexpr (std::is_same_v<T, bool>) {
      own_ = v ? "1" : "0";
    } else {
      own_ = std::to_string(v);
    }
    s_ = own_;
  }
  AlphaNum(const char* s) : s_(s ? s : "") {}
  AlphaNum(string_view s) : s_(s) {}
  AlphaNum(const std::string& s) : s_(s) {}
  AlphaNum(const AlphaNum&) = delete;
  string_view Piece() const { return s_; }

 private:
  std::string own_;
  string_view s_;
};
template <typename... T>
void StrAppend(std::string* out, const T&... v) {
  std::string add;
  ((add.append(AlphaNum(v).Piece())), ...);
  out->append(add);
}
template <typename... T>
std::string StrCat(const T&... v) {
  std::string out;
  StrAppend(&out, v...);
  return out;
}
}  // namespace absl
