#pragma once
#include <concepts>
#include <string>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
namespace absl {
namespace vshim_strings {
class StringifySink {
 public:
  void Append(size_t count, char ch) { buffer_.append(count, ch); }
  void Append(string_view v) { buffer_.append(v); }
  bool PutPaddedString(string_view v, int, int, bool) { buffer_.append(v); return true; }
  friend void AbslFormatFlush(StringifySink* sink, string_view v) { sink->Append(v); }
  std::string buffer_;
};
}  // namespace vshim_strings
class FormatSink : public vshim_strings::StringifySink {
  friend void AbslFormatFlush(FormatSink* sink, string_view v) { sink->Append(v); }
};
template <typename T, typename = void>
struct HasAbslStringify : std::false_type {};
template <typename T>
struct HasAbslStringify<T, std::enable_if_t<std::is_void_v<decltype(AbslStringify(std::declval<vshim_strings::StringifySink&>(), std::declval<const T&>()))>>> : std::true_type {};
namespace vshim_strings {
template <typename T>
std::string Stringified(const T& v) {
  StringifySink sink;
  AbslStringify(sink, v);
  return std::move(sink.buffer_);
}
}  // namespace vshim_strings
}  // namespace absl
