#pragma once
#include <new>
#include <utility>
namespace absl {
template <typename T>
class NoDestructor {
 public:
  template <typename... Ts>
  explicit NoDestructor(Ts&&... args) { new (buf_) T(std::forward<Ts>(args)...); }
  explicit NoDestructor(const T& x) { new (buf_) T(x); }
  explicit NoDestructor(T&& x) { new (buf_) T(std::move(x)); }
  NoDestructor(const NoDestructor&) = delete;
  NoDestructor& operator=(const NoDestructor&) = delete;
  T* get() { return std::launder(reinterpret_cast<T*>(buf_)); }
  const T* get() const { return std::launder(reinterpret_cast<const T*>(buf_)); }
  T& operator*() { return *get(); }
  const T& operator*() const { return *get(); }
  T* operator->() { return get(); }
  const T* operator->() const { return get(); }

 private:
  alignas(T) unsigned char buf_[sizeof(T)];
};
template <typename T>
NoDestructor(T) -> NoDestructor<T>;
}  // namespace absl
