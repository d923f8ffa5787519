#pragma once
#include <charconv>
#include <cstdio>
#include <string>
#include <type_traits>
#include <vector>
#include "absl/numeric/int128.h"
#include "absl/strings/has_absl_stringify.h"
#include "absl/strings/string_view.h"
namespace absl {
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad9, kZeroPad10, kZeroPad11, kZeroPad12, kZeroPad13, kZeroPad14, kZeroPad15, kZeroPad16 };
struct Hex {
  template <typename I>
  explicit Hex(I v, PadSpec p = kNoPad) : value(static_cast<uint64_t>(static_cast<std::make_unsigned_t<I>>(v))), width(p == kNoPad ? 1 : p) {}
  uint64_t value;
  int width;
};
struct Dec {
  template <typename I>
  explicit Dec(I v, PadSpec p = kNoPad) : value(static_cast<long long>(v)), width(p == kNoPad ? 1 : p) {}
  long long value;
  int width;
};
class AlphaNum {
 public:
  template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T> && !std::is_same_v<T, char>>>
  AlphaNum(T v) {
    if constexpr (std::is_floating_point_v<T>) {
      char b[64];
      own_.assign(b, std::snprintf(b, sizeof b, "%g", static_cast<double>(v)));
    } else if constexpr (std::is_same_v<T, bool>) {
      own_ = v ? "1" : "0";
    } else {
      own_ = std::to_string(v);
    }
    s_ = own_;
  }
  AlphaNum(const char* s) : s_(s ? s : "") {}
  AlphaNum(string_view s) : s_(s) {}
  AlphaNum(const std::string& s) : s_(s) {}
  AlphaNum(Hex h) {
    char b[32];
    own_.assign(b, std::snprintf(b, sizeof b, "%0*llx", h.width, static_cast<unsigned long long>(h.value)));
    s_ = own_;
  }
  AlphaNum(Dec h) {
    char b[32];
    own_.assign(b, std::snprintf(b, sizeof b, "%0*lld", h.width, h.value));
    s_ = own_;
  }
  template <typename T, typename = std::enable_if_t<HasAbslStringify<T>::value && !std::is_arithmetic_v<T>>, typename = void>
  AlphaNum(const T& v) : own_(vshim_strings::Stringified(v)), s_(own_) {}
  template <typename T, typename = std::enable_if_t<std::is_enum_v<T> && std::is_convertible_v<T, int> && !HasAbslStringify<T>::value>, typename = void, typename = void>
  AlphaNum(T v) : own_(std::to_string(static_cast<long long>(v))), s_(own_) {}
  AlphaNum(std::vector<bool>::reference v) : own_(v ? "1" : "0"), s_(own_) {}
  AlphaNum(const AlphaNum&) = delete;
  string_view Piece() const { return s_; }

 private:
  std::string own_;
  string_view s_;
};
template <typename... T>
void StrAppend(std::string* out, const T&... v) {
  std::string add;
  ((add.append(AlphaNum(v).Piece())), ...);
  out->append(add);
}
template <typename... T>
[[nodiscard]] std::string StrCat(const T&... v) {
  std::string out;
  StrAppend(&out, v...);
  return out;
}
}  // namespace absl
