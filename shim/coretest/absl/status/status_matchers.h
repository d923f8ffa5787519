#pragma once
// For validating the stand-ins with the repository's own tests.
#include "gmock/gmock.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace absl_testing {
namespace impl {
inline const absl::Status& Get(const absl::Status& s) { return s; }
template <typename T> absl::Status Get(const absl::StatusOr<T>& s) { return s.status(); }
struct StatusIsM {
  ::testing::Matcher<absl::StatusCode> code;
  ::testing::Matcher<const std::string&> msg;
  template <typename T> operator ::testing::Matcher<T>() const { return ::testing::Matcher<T>(new Impl<T>(code, msg)); }
  template <typename T> struct Impl : ::testing::MatcherInterface<T> {
    ::testing::Matcher<absl::StatusCode> code;
    ::testing::Matcher<const std::string&> msg;
    Impl(::testing::Matcher<absl::StatusCode> c, ::testing::Matcher<const std::string&> m) : code(c), msg(m) {}
    bool MatchAndExplain(T v, ::testing::MatchResultListener* l) const override {
      const absl::Status s = Get(v);
      *l << "status is " << static_cast<int>(s.code()) << ": " << std::string(s.message());
      return code.Matches(s.code()) && msg.Matches(std::string(s.message()));
    }
    void DescribeTo(std::ostream* os) const override { *os << "has status code "; code.DescribeTo(os); *os << " and message "; msg.DescribeTo(os); }
  };
};
template <typename M>
struct OkHoldsM {
  M m;
  template <typename T> operator ::testing::Matcher<T>() const { return ::testing::Matcher<T>(new Impl<T>(m)); }
  template <typename T> struct Impl : ::testing::MatcherInterface<T> {
    using V = typename std::decay_t<T>::value_type;
    ::testing::Matcher<const V&> m;
    Impl(M mm) : m(::testing::SafeMatcherCast<const V&>(mm)) {}
    bool MatchAndExplain(T v, ::testing::MatchResultListener* l) const override {
      if (!v.ok()) { *l << "status is " << std::string(v.status().message()); return false; }
      return m.MatchAndExplain(*v, l);
    }
    void DescribeTo(std::ostream* os) const override { m.DescribeTo(os); }
  };
};
struct IsOkM {
  template <typename T> operator ::testing::Matcher<T>() const { return ::testing::Matcher<T>(new Impl<T>()); }
  template <typename T> struct Impl : ::testing::MatcherInterface<T> {
    bool MatchAndExplain(T v, ::testing::MatchResultListener* l) const override { const absl::Status s = Get(v); *l << std::string(s.message()); return s.ok(); }
    void DescribeTo(std::ostream* os) const override { *os << "is OK"; }
  };
};
}  // namespace impl
template <typename C, typename M> impl::StatusIsM StatusIs(C c, M m) { return {::testing::SafeMatcherCast<absl::StatusCode>(c), ::testing::SafeMatcherCast<const std::string&>(m)}; }
template <typename C> impl::StatusIsM StatusIs(C c) { return StatusIs(c, ::testing::_); }
template <typename M> impl::OkHoldsM<std::decay_t<M>> IsOkAndHolds(M&& m) { return {std::forward<M>(m)}; }
inline impl::IsOkM IsOk() { return {}; }
}  // namespace absl_testing
#include "arolla/core.h"
namespace arolla::testing {
MATCHER_P(CausedBy, m, "") {
  const absl::Status s = absl_testing::impl::Get(arg);
  const absl::Status* c = GetCause(s);
  return c != nullptr && ::testing::SafeMatcherCast<const absl::Status&>(m).MatchAndExplain(*c, result_listener);
}
template <typename T> struct PayloadM {
  template <typename U> operator ::testing::Matcher<U>() const {
    return ::testing::ResultOf([](const auto& v) { const absl::Status s = absl_testing::impl::Get(v); return GetPayload<T>(s) != nullptr; }, ::testing::Eq(true));
  }
};
template <typename T> PayloadM<T> PayloadIs() { return {}; }
template <typename T, typename M> auto PayloadIs(M m) {
  return ::testing::ResultOf([](const auto& v) -> const T* { return GetPayload<T>(v); }, ::testing::Pointee(m));
}
MATCHER_P(IsEquivalentToShapeM, m, "") { return arg.IsEquivalentTo(m); }
inline auto IsEquivalentTo(JaggedDenseArrayShape s) { return IsEquivalentToShapeM(std::move(s)); }
}  // namespace arolla::testing
#define ASSERT_OK(e) ASSERT_TRUE((e).ok())
#define EXPECT_OK(e) EXPECT_TRUE((e).ok())
#define ASSERT_OK_AND_ASSIGN(l, r) ASSERT_OK_AND_ASSIGN_2(VCONCAT(_s_, __LINE__), l, r)
#define VCONCAT(a, b) VCONCAT2(a, b)
#define VCONCAT2(a, b) a##b
#define ASSERT_OK_AND_ASSIGN_2(t, l, r) auto t = (r); ASSERT_TRUE(t.ok()) << std::string(t.status().message()); VSHIM_UNPAREN(l) = *std::move(t)
