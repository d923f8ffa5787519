#pragma once
#include <string>
#include "arolla/mini.h"
namespace arolla {
class Text {
 public:
  Text() = default;
  explicit Text(const char* s) : d_(s) {}
  explicit Text(absl::string_view s) : d_(s) {}
  template <typename S, typename = std::enable_if_t<std::is_same_v<std::decay_t<S>, std::string>>>
  explicit Text(S&& s) : d_(std::forward<S>(s)) {}
  absl::string_view view() const { return d_; }
  operator absl::string_view() const { return d_; }
  friend bool operator==(const Text& a, const Text& b) { return a.d_ == b.d_; }

 private:
  std::string d_;
};
}  // namespace arolla
