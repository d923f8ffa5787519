#pragma once
#include <functional>
#include <memory>
#include <type_traits>
#include <utility>
namespace absl {
template <typename Sig>
class AnyInvocable;
#define VSHIM_ANYINV(QUAL)                                                              \
template <typename R, typename... A>                                                   \
class AnyInvocable<R(A...) QUAL> {                                                     \
 public:                                                                               \
  AnyInvocable() = default;                                                            \
  AnyInvocable(std::nullptr_t) {}                                                      \
  template <typename F, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, AnyInvocable>>> \
  AnyInvocable(F&& f) : p_(new Impl<std::decay_t<F>>(std::forward<F>(f))) {}           \
  AnyInvocable(AnyInvocable&&) noexcept = default;                                     \
  AnyInvocable& operator=(AnyInvocable&&) noexcept = default;                          \
  explicit operator bool() const { return p_ != nullptr; }                             \
  friend bool operator==(const AnyInvocable& f, std::nullptr_t) { return !f; }         \
  R operator()(A... a) { return p_->Call(std::forward<A>(a)...); }                     \
 private:                                                                              \
  struct Base { virtual ~Base() = default; virtual R Call(A... a) = 0; };              \
  template <typename F> struct Impl : Base {                                           \
    template <typename U> explicit Impl(U&& u) : f(std::forward<U>(u)) {}              \
    R Call(A... a) override { return std::invoke(std::move(f), std::forward<A>(a)...); } \
    F f;                                                                               \
  };                                                                                   \
  std::unique_ptr<Base> p_;                                                            \
};
VSHIM_ANYINV(&&)
#undef VSHIM_ANYINV
template <typename R, typename... A>
class AnyInvocable<R(A...)> {
 public:
  AnyInvocable() = default;
  AnyInvocable(std::nullptr_t) {}
  template <typename F, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, AnyInvocable>>>
  AnyInvocable(F&& f) : p_(new Impl<std::decay_t<F>>(std::forward<F>(f))) {}
  AnyInvocable(AnyInvocable&&) noexcept = default;
  AnyInvocable& operator=(AnyInvocable&&) noexcept = default;
  explicit operator bool() const { return p_ != nullptr; }
  friend bool operator==(const AnyInvocable& f, std::nullptr_t) { return !f; }
  R operator()(A... a) { return p_->Call(std::forward<A>(a)...); }

 private:
  struct Base { virtual ~Base() = default; virtual R Call(A... a) = 0; };
  template <typename F> struct Impl : Base {
    template <typename U> explicit Impl(U&& u) : f(std::forward<U>(u)) {}
    R Call(A... a) override { return std::invoke(f, std::forward<A>(a)...); }
    F f;
  };
  std::unique_ptr<Base> p_;
};
template <typename R, typename... A>
class AnyInvocable<R(A...) const> {
 public:
  AnyInvocable() = default;
  AnyInvocable(std::nullptr_t) {}
  template <typename F, typename = std::enable_if_t<!std::is_same_v<std::decay_t<F>, AnyInvocable>>>
  AnyInvocable(F&& f) : p_(std::make_shared<std::function<R(A...)>>(Hold(std::forward<F>(f)))) {}
  AnyInvocable(AnyInvocable&&) noexcept = default;
  AnyInvocable& operator=(AnyInvocable&&) noexcept = default;
  explicit operator bool() const { return p_ != nullptr; }
  R operator()(A... a) const { return (*p_)(std::forward<A>(a)...); }

 private:
  template <typename F> static std::function<R(A...)> Hold(F&& f) {
    auto h = std::make_shared<std::decay_t<F>>(std::forward<F>(f));
    return [h](A... a) -> R { return std::invoke(*h, std::forward<A>(a)...); };
  }
  std::shared_ptr<std::function<R(A...)>> p_;
};
}  // namespace absl
