#pragma once
// absl's hash containers on the standard ones.
#include <functional>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
#include <utility>
namespace vshim {
template <typename T>
struct Hash {
  size_t operator()(const T& v) const {
    if constexpr (requires { v.data(); v.size(); }) {
      return std::hash<std::string_view>()(std::string_view(v.data(), v.size()));
    } else {
      return std::hash<T>()(v);
    }
  }
};
}  // namespace vshim
namespace absl {
template <typename K, typename V>
using flat_hash_map = std::unordered_map<K, V, vshim::Hash<K>>;
template <typename K>
using flat_hash_set = std::unordered_set<K, vshim::Hash<K>>;
}  // namespace absl
