#pragma once
#include <random>
namespace absl {
class BitGen {
 public:
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() { return g_(); }

 private:
  std::mt19937_64 g_{std::random_device{}() * 0x9E3779B97F4A7C15ull ^ std::random_device{}()};
};
template <typename T, typename G>
T Uniform(G&& g) { return static_cast<T>(g()); }
template <typename T, typename G>
T Uniform(G&& g, T lo, T hi) {
  if constexpr (std::is_floating_point_v<T>) return std::uniform_real_distribution<T>(lo, hi)(g);
  else return std::uniform_int_distribution<T>(lo, hi - 1)(g);
}
inline bool Bernoulli(BitGen& g, double p) { return std::bernoulli_distribution(p)(g); }
}  // namespace absl
