#pragma once
#include <optional>
#include <type_traits>
#include <utility>
#include "absl/log/check.h"
#include "absl/status/status.h"
namespace absl {
template <typename T>
class StatusOr {
  template <typename U> friend class StatusOr;
 public:
  using value_type = T;
  StatusOr() : status_(UnknownError("")) {}
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&& o) noexcept : status_(o.ok() ? Status() : std::move(o.status_)), value_(std::move(o.value_)) {}
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&& o) noexcept {
    status_ = o.ok() ? Status() : std::move(o.status_);
    value_ = std::move(o.value_);
    return *this;
  }
  StatusOr(const Status& s) : status_(s) { CHECK(!status_.ok()); }
  StatusOr(Status&& s) : status_(std::move(s)) { CHECK(!status_.ok()); }
  template <typename U = T, typename = std::enable_if_t<
      std::is_constructible_v<T, U&&> && std::is_convertible_v<U&&, T> &&
      !std::is_same_v<std::decay_t<U>, StatusOr> && !std::is_same_v<std::decay_t<U>, Status>>>
  StatusOr(U&& v) : value_(std::in_place, std::forward<U>(v)) {}
  template <typename U, typename = std::enable_if_t<!std::is_same_v<U, T> && std::is_convertible_v<U&&, T>>>
  StatusOr(StatusOr<U>&& o) : status_(o.status()) { if (o.ok()) value_.emplace(*std::move(o)); }
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return ok() ? Status() : std::move(status_); }
  T& value() & { CHECK(ok()); return *value_; }
  const T& value() const& { CHECK(ok()); return *value_; }
  T&& value() && { CHECK(ok()); return *std::move(value_); }
  T& operator*() & { CHECK(ok()); return *value_; }
  const T& operator*() const& { CHECK(ok()); return *value_; }
  T&& operator*() && { CHECK(ok()); return *std::move(value_); }
  T* operator->() { CHECK(ok()); return &*value_; }
  const T* operator->() const { CHECK(ok()); return &*value_; }

 private:
  Status status_;
  std::optional<T> value_;
};
template <typename T>
class StatusOr<T&> {
 public:
  StatusOr(const Status& s) : status_(s) { CHECK(!status_.ok()); }
  StatusOr(Status&& s) : status_(std::move(s)) { CHECK(!status_.ok()); }
  StatusOr(T& v) : p_(&v) {}
  bool ok() const { return status_.ok(); }
  const Status& status() const& { return status_; }
  Status status() && { return std::move(status_); }
  T& value() const { CHECK(ok()); return *p_; }
  T& operator*() const { CHECK(ok()); return *p_; }
  T* operator->() const { CHECK(ok()); return p_; }

 private:
  Status status_;
  T* p_ = nullptr;
};
}  // namespace absl
