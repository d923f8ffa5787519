#pragma once
#include <string>
#include <optional>
#include "absl/base/config.h"
#include "absl/strings/string_view.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
class Cord {
 public:
  Cord() = default;
  explicit Cord(absl::string_view s) : s_(s) {}
  void Append(absl::string_view s) { s_.append(s); }
  void Append(const Cord& c) { s_ += c.s_; }
  size_t size() const { return s_.size(); }
  bool empty() const { return s_.empty(); }
  std::optional<absl::string_view> TryFlat() const { return s_; }
  absl::string_view Flatten() { return s_; }
  explicit operator std::string() const { return s_; }
  friend bool operator==(const Cord& a, const Cord& b) { return a.s_ == b.s_; }
  friend bool operator==(const Cord& a, absl::string_view b) { return a.s_ == b; }
  int Compare(const Cord& o) const { return s_.compare(o.s_); }
  int Compare(absl::string_view o) const { return s_.compare(o); }
  template <typename H> friend H AbslHashValue(H h, const Cord& c) { return H::combine(std::move(h), c.s_); }

 private:
  std::string s_;
};
ABSL_NAMESPACE_END
}  // namespace absl
