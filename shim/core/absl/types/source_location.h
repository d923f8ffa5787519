#pragma once
#include <cstdint>
namespace absl {
class SourceLocation {
 public:
  constexpr SourceLocation() = default;
  static constexpr SourceLocation current(std::uint_least32_t line = __builtin_LINE(), const char* file = __builtin_FILE()) {
    SourceLocation l;
    l.line_ = line;
    l.file_ = file;
    return l;
  }
  constexpr std::uint_least32_t line() const { return line_; }
  constexpr const char* file_name() const { return file_; }

 private:
  std::uint_least32_t line_ = 0;
  const char* file_ = "";
};
}  // namespace absl
