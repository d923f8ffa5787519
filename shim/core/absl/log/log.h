#pragma once
// A failed CHECK or LOG(FATAL) prints the message and aborts; the driver's
// parent reports the crash.
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include "absl/base/log_severity.h"
#include "absl/strings/has_absl_stringify.h"
namespace vshim {
struct FatalMessage {
  FatalMessage(const char* file, int line) { os << "FATAL " << file << ":" << line << " "; }
  [[noreturn]] ~FatalMessage() {
    std::fprintf(stderr, "%s\n", os.str().c_str());
    std::fflush(stderr);
    std::abort();
  }
  FatalMessage& stream() { return *this; }
  template <typename T>
  FatalMessage& operator<<(const T& v) {
    if constexpr (absl::HasAbslStringify<T>::value) os << absl::vshim_strings::Stringified(v);
    else os << v;
    return *this;
  }
  std::ostringstream os;
};
struct NullMessage {
  template <typename T>
  NullMessage& operator<<(const T&) { return *this; }
};
struct Voidify {
  void operator&(FatalMessage&) const {}
  void operator&(NullMessage&) const {}
};
}  // namespace vshim
#define VSHIM_LOG_FATAL ::vshim::FatalMessage(__FILE__, __LINE__).stream()
#define VSHIM_LOG_INFO ::vshim::NullMessage()
#define VSHIM_LOG_WARNING ::vshim::NullMessage()
#define VSHIM_LOG_ERROR ::vshim::NullMessage()
#define LOG(severity) VSHIM_LOG_##severity
#define LOG_IF(severity, cond) if (cond) VSHIM_LOG_##severity
#define LOG_EVERY_N_SEC(severity, n) VSHIM_LOG_##severity
#define DLOG(severity) VSHIM_LOG_##severity
