#pragma once
// Reaching an unreachable point is a crash.
#include <cassert>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <string_view>
#include "absl/base/internal/raw_logging.h"
#define ABSL_UNREACHABLE() ::std::abort()
#define ABSL_ASSUME(x) ((x) ? (void)0 : ::std::abort())

// Newer abseil's containers take a type's own hash.
#include "absl/container/internal/hash_function_defaults.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace container_internal {
template <typename T>
struct HashEq<T, std::void_t<typename T::absl_container_hash>> {
  using Hash = typename T::absl_container_hash;
  struct Plain {
    template <typename A, typename B> bool operator()(const A& a, const B& b) const { return a == b; }
  };
  struct Transparent : Plain { using is_transparent = void; };
  template <typename H, typename = void> struct Pick { using type = Plain; };
  template <typename H> struct Pick<H, std::void_t<typename H::is_transparent>> { using type = Transparent; };
  using Eq = typename Pick<Hash>::type;
};
}  // namespace container_internal
ABSL_NAMESPACE_END
}  // namespace absl
