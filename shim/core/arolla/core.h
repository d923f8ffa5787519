#pragma once
// A stand-in for the parts of arolla that koladata/internal is written against:
// buffers, bitmaps, dense arrays, edges, qtypes and fingerprints.
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cmath>
#include <compare>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <ostream>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <variant>
#include <vector>

#include "absl/container/flat_hash_set.h"
#include "absl/base/attributes.h"
#include "absl/base/nullability.h"
#include "absl/container/inlined_vector.h"
#include "absl/log/check.h"
#include "absl/numeric/int128.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"

// ------------------------------------------------------------ status macros
namespace arolla::status_macros_backport_internal {
// The second argument of the macros: an expression over `_`, or `_.With(f)`.
class StatusAdaptor {
 public:
  explicit StatusAdaptor(absl::Status s) : s_(std::move(s)) {}
  operator absl::Status() && { return std::move(s_); }
  operator absl::Status() & { return s_; }
  template <typename T>
  operator absl::StatusOr<T>() && { return std::move(s_); }
  template <typename T>
  operator absl::StatusOr<T>() & { return s_; }
  template <typename F>
  auto With(F&& f) && { return std::forward<F>(f)(std::move(s_)); }
  template <typename F>
  auto With(F&& f) & { return std::forward<F>(f)(std::move(s_)); }
  template <typename T>
  StatusAdaptor&& operator<<(const T& x) && { Add(x); return std::move(*this); }
  template <typename T>
  StatusAdaptor& operator<<(const T& x) & { Add(x); return *this; }
  StatusAdaptor& SetPrepend() & { prepend_ = true; return *this; }
  StatusAdaptor&& SetPrepend() && { prepend_ = true; return std::move(*this); }

 private:
  template <typename T>
  void Add(const T& x) {
    std::ostringstream os;
    os << x;
    if (prepend_) pre_ += os.str(); else post_ += os.str();
    Apply();
  }
  void Apply() {
    if (!have_) { base_ = std::string(s_.message()); have_ = true; }
    s_ = s_.vshim_with_message(pre_ + base_ + post_);
  }
  absl::Status s_;
  bool prepend_ = false, have_ = false;
  std::string base_, pre_, post_;
};
template <typename T>
absl::Status ToStatus(const absl::StatusOr<T>& s) { return s.status(); }
inline absl::Status ToStatus(const absl::Status& s) { return s; }
}  // namespace arolla::status_macros_backport_internal
#define VSHIM_CONCAT_(a, b) a##b
#define VSHIM_CONCAT(a, b) VSHIM_CONCAT_(a, b)
#define VSHIM_RET_PICK(_1, _2, NAME, ...) NAME
#define RETURN_IF_ERROR(expr)                                                                                              \
  switch (0) case 0: default:                                                                                              \
  if (auto vshim_st = ::arolla::status_macros_backport_internal::ToStatus(expr); vshim_st.ok()) {                          \
  } else return ::arolla::status_macros_backport_internal::StatusAdaptor(std::move(vshim_st))
#define VSHIM_AOR2(lhs, rexpr) VSHIM_AOR3_(VSHIM_CONCAT(vshim_sor_, __COUNTER__), lhs, rexpr, absl::Status(std::move(_)))
#define VSHIM_AOR3(lhs, rexpr, err) VSHIM_AOR3_(VSHIM_CONCAT(vshim_sor_, __COUNTER__), lhs, rexpr, err)
#define VSHIM_AOR3_(v, lhs, rexpr, err)                                                              \
  auto&& v = (rexpr);                                                                                \
  if (!v.ok()) [[unlikely]] {                                                                        \
    ::arolla::status_macros_backport_internal::StatusAdaptor _(std::move(v).status());               \
    (void)_;                                                                                         \
    return err;                                                                                      \
  }                                                                                                  \
  VSHIM_UNPAREN(lhs) = *std::move(v)
#define VSHIM_UNPAREN(x) VSHIM_UNPAREN_STRIP(VSHIM_UNPAREN_EXT x)
#define VSHIM_UNPAREN_STRIP(x) VSHIM_UNPAREN_CAT(VSHIM_UNPAREN_NOTHING_, x)
#define VSHIM_UNPAREN_CAT(a, ...) VSHIM_UNPAREN_CAT_(a, __VA_ARGS__)
#define VSHIM_UNPAREN_CAT_(a, ...) a##__VA_ARGS__
#define VSHIM_UNPAREN_NOTHING_VSHIM_UNPAREN_EXT
#define VSHIM_UNPAREN_EXT(...) VSHIM_UNPAREN_EXT __VA_ARGS__
#define VSHIM_AOR_PICK(_1, _2, _3, NAME, ...) NAME
#define ASSIGN_OR_RETURN(...) VSHIM_AOR_PICK(__VA_ARGS__, VSHIM_AOR3, VSHIM_AOR2)(__VA_ARGS__)

namespace arolla {

// -------------------------------------------------------------------- basics
struct Unit {
  friend constexpr bool operator==(Unit, Unit) { return true; }
  friend constexpr bool operator!=(Unit, Unit) { return false; }
  friend constexpr bool operator<(Unit, Unit) { return false; }
  template <typename H>
  friend H AbslHashValue(H h, Unit) { return H::combine(std::move(h), 7); }
};
constexpr Unit kUnit{};

class Text {
 public:
  Text() = default;
  explicit Text(absl::string_view s) : data_(s) {}
  explicit Text(std::string&& s) : data_(std::move(s)) {}
  explicit Text(const char* s) : data_(s) {}
  Text& operator=(absl::string_view s) { data_ = std::string(s); return *this; }
  Text& operator=(std::string&& s) { data_ = std::move(s); return *this; }
  Text& operator=(const char* s) { data_ = s; return *this; }
  absl::string_view view() const { return data_; }
  operator absl::string_view() const { return data_; }
  const std::string& str() const { return data_; }
  friend bool operator==(const Text& a, const Text& b) { return a.data_ == b.data_; }
  friend bool operator!=(const Text& a, const Text& b) { return a.data_ != b.data_; }
  friend bool operator<(const Text& a, const Text& b) { return a.data_ < b.data_; }
  friend bool operator<=(const Text& a, const Text& b) { return a.data_ <= b.data_; }
  friend bool operator>(const Text& a, const Text& b) { return a.data_ > b.data_; }
  friend bool operator>=(const Text& a, const Text& b) { return a.data_ >= b.data_; }
  friend bool operator==(const Text& a, absl::string_view b) { return a.data_ == b; }
  friend bool operator==(const Text& a, const char* b) { return a.data_ == b; }
  template <typename H>
  friend H AbslHashValue(H h, const Text& t) { return H::combine(std::move(h), t.view()); }
  friend std::ostream& operator<<(std::ostream& os, const Text& t) { return os << "Text{" << t.data_ << "}"; }
  template <typename Sink>
  friend void AbslStringify(Sink& sink, const Text& t) { sink.Append(t.view()); }

 private:
  std::string data_;
};
class Bytes : public std::string {
 public:
  Bytes() = default;
  using std::string::string;
  explicit Bytes(absl::string_view s) : std::string(s) {}
  explicit Bytes(std::string&& s) : std::string(std::move(s)) {}
  explicit Bytes(const std::string& s) : std::string(s) {}
  using std::string::operator=;
  operator absl::string_view() const { return absl::string_view(data(), size()); }
  absl::string_view view() const { return absl::string_view(data(), size()); }
  template <typename H>
  friend H AbslHashValue(H h, const Bytes& t) { return H::combine(std::move(h), t.view()); }
};

namespace meta {

}  // namespace meta
namespace meta {
template <typename T> struct type_ { using type = T; };
template <typename T> using type = type_<T>;
template <typename... Ts>
struct type_list { using tuple = std::tuple<Ts...>; };
template <typename... L> struct concat;
template <> struct concat<> { using type = type_list<>; };
template <typename... A> struct concat<type_list<A...>> { using type = type_list<A...>; };
template <typename... A, typename... B, typename... R>
struct concat<type_list<A...>, type_list<B...>, R...> { using type = typename concat<type_list<A..., B...>, R...>::type; };
template <typename... L> using concat_t = typename concat<L...>::type;
template <typename L, typename T> struct contains;
template <typename... A, typename T> struct contains<type_list<A...>, T> : std::bool_constant<(std::is_same_v<A, T> || ...)> {};
template <typename L, typename T> inline constexpr bool contains_v = contains<L, T>::value;
template <typename... A, typename F>
constexpr void foreach_type(type_list<A...>, F f) { (f(type<A>{}), ...); }
template <typename L, typename F>
constexpr void foreach_type(F f) { foreach_type(L{}, f); }
template <template <typename...> class W, typename T> struct is_wrapped_with : std::false_type {};
template <template <typename...> class W, typename... T> struct is_wrapped_with<W, W<T...>> : std::true_type {};
template <template <typename...> class W, typename T> inline constexpr bool is_wrapped_with_v = is_wrapped_with<W, T>::value;
template <template <typename...> class W, typename T> struct strip_template { using type = T; };
template <template <typename...> class W, typename T> struct strip_template<W, W<T>> { using type = T; };
template <template <typename...> class W, typename T> using strip_template_t = typename strip_template<W, T>::type;
template <typename L> struct head;
template <typename A, typename... R> struct head<type_list<A, R...>> { using type = A; };
template <typename L> using head_t = typename head<L>::type;
template <typename L> struct tail;
template <typename A, typename... R> struct tail<type_list<A, R...>> { using type = type_list<R...>; };
template <typename L> using tail_t = typename tail<L>::type;
template <typename F> struct function_traits : function_traits<decltype(&F::operator())> {};
template <typename R, typename... A> struct function_traits<R(A...)> {
  static constexpr int arity = sizeof...(A);
  using return_type = R;
  using arg_types = type_list<A...>;
};
template <typename R, typename... A> struct function_traits<R (*)(A...)> : function_traits<R(A...)> {};
template <typename C, typename R, typename... A> struct function_traits<R (C::*)(A...)> : function_traits<R(A...)> {};
template <typename C, typename R, typename... A> struct function_traits<R (C::*)(A...) const> : function_traits<R(A...)> {};
template <typename T, typename = void> struct is_transparent : std::false_type {};
}  // namespace meta

// ------------------------------------------------------------------ optional
template <typename T> struct OptionalValue;
template <typename T> inline constexpr bool is_optional_vshim = false;
template <typename T> inline constexpr bool is_optional_vshim<OptionalValue<T>> = true;
namespace vshim_view {
template <typename T> struct View { using type = T; };
template <> struct View<Text> { using type = absl::string_view; };
template <> struct View<Bytes> { using type = absl::string_view; };
template <> struct View<std::string> { using type = absl::string_view; };
template <typename T> struct View<OptionalValue<T>> { using type = OptionalValue<typename View<T>::type>; };
}  // namespace vshim_view
template <typename T> using view_type_t = typename vshim_view::View<std::decay_t<T>>::type;

template <typename T>
struct OptionalValue {
  static_assert(std::is_default_constructible_v<T>);
  using value_type = T;
  constexpr OptionalValue() : present(false), value() {}
  constexpr OptionalValue(T v) : present(true), value(std::move(v)) {}
  explicit OptionalValue(const char* v) requires(std::is_constructible_v<T, const char*> && !std::is_arithmetic_v<T> && !std::is_same_v<T, const char*>) : present(true), value(T(v)) {}
  constexpr OptionalValue(std::nullopt_t) : present(false), value() {}
  constexpr OptionalValue(bool p, T v) : present(p), value(std::move(v)) {}
  constexpr OptionalValue(std::optional<T> o) : present(o.has_value()), value(o.has_value() ? std::move(*o) : T()) {}
  template <typename U, typename = std::enable_if_t<!std::is_same_v<U, T> && std::is_same_v<view_type_t<T>, U>>>
  explicit OptionalValue(const OptionalValue<U>& o) : present(o.present), value(T(o.value)) {}
  template <typename U, typename = std::enable_if_t<!std::is_same_v<U, T> && std::is_same_v<view_type_t<U>, T>>, typename = void>
  OptionalValue(const OptionalValue<U>& o) : present(o.present), value(o.value) {}
  explicit operator bool() const { return present; }
  bool has_value() const { return present; }
  constexpr operator std::optional<T>() const& { return present ? std::optional<T>(value) : std::nullopt; }
  constexpr std::optional<T> AsOptional() const& { return present ? std::optional<T>(value) : std::nullopt; }
  OptionalValue& operator=(std::nullopt_t) { present = false; value = T(); return *this; }
  OptionalValue& operator=(T v) { present = true; value = std::move(v); return *this; }
  bool present;
  T value;
};
template <>
struct OptionalValue<Unit> {
  using value_type = Unit;
  constexpr OptionalValue() = default;
  constexpr OptionalValue(Unit) : present(true) {}
  constexpr OptionalValue(std::nullopt_t) {}
  constexpr OptionalValue(bool p, Unit) : present(p) {}
  constexpr explicit OptionalValue(bool p) : present(p) {}
  constexpr OptionalValue(std::optional<Unit> o) : present(o.has_value()) {}
  explicit operator bool() const { return present; }
  bool has_value() const { return present; }
  constexpr operator std::optional<Unit>() const { return present ? std::optional<Unit>(Unit{}) : std::nullopt; }
  bool present = false;
  static constexpr Unit value{};
};
using OptionalUnit = OptionalValue<Unit>;
constexpr OptionalUnit kPresent{Unit{}};
constexpr OptionalUnit kMissing{};
template <typename T> bool operator==(const OptionalValue<T>& a, const OptionalValue<T>& b) { return a.present == b.present && (!a.present || a.value == b.value); }
template <typename T> bool operator==(const OptionalValue<T>& a, const T& b) { return a.present && a.value == b; }
template <typename T> bool operator==(const T& b, const OptionalValue<T>& a) { return a.present && a.value == b; }
template <typename T> bool operator==(const OptionalValue<T>& a, std::nullopt_t) { return !a.present; }
template <typename T> std::ostream& operator<<(std::ostream& os, const OptionalValue<T>& v) {
  if (!v.present) return os << "missing";
  if constexpr (requires { os << v.value; }) os << v.value; else os << "value";
  return os;
}
template <typename T, typename U> requires(!is_optional_vshim<U> && !std::is_same_v<T, U> && !std::is_same_v<U, std::nullopt_t> && requires(const T& a, const U& b) { a == b; })
bool operator==(const OptionalValue<T>& a, const U& b) { return a.present && a.value == b; }
template <typename T> OptionalValue<T> MakeOptionalValue(T v) { return OptionalValue<T>(std::move(v)); }
template <typename T> struct is_optional : std::false_type {};
template <typename T> struct is_optional<OptionalValue<T>> : std::true_type {};
template <typename T> inline constexpr bool is_optional_v = is_optional<std::decay_t<T>>::value;
template <typename T> struct strip_optional { using type = T; };
template <typename T> struct strip_optional<OptionalValue<T>> { using type = T; };
template <typename T> using strip_optional_t = typename strip_optional<std::decay_t<T>>::type;
template <typename T> struct wrap_with_optional { using type = OptionalValue<T>; };
template <typename T> struct wrap_with_optional<OptionalValue<T>> { using type = OptionalValue<T>; };
template <typename T> using wrap_with_optional_t = typename wrap_with_optional<T>::type;

// ----------------------------------------------------------- ref-counted, etc
class RefcountedBase {
 public:
  RefcountedBase() = default;
  RefcountedBase(const RefcountedBase&) = delete;
  RefcountedBase& operator=(const RefcountedBase&) = delete;
  mutable std::atomic<int> vshim_refs{0};
};
template <typename T>
class RefcountPtr {
 public:
  template <typename... A>
  static RefcountPtr Make(A&&... a) { return RefcountPtr(std::unique_ptr<T>(new T(std::forward<A>(a)...))); }
  static RefcountPtr Own(std::unique_ptr<T> p) { return RefcountPtr(std::move(p)); }
  static RefcountPtr NewRef(T* p) { RefcountPtr r; r.p_ = p; r.Up(); return r; }
  RefcountPtr() = default;
  RefcountPtr(std::nullptr_t) {}
  explicit RefcountPtr(std::unique_ptr<T> p) : p_(p.release()) { Up(); }
  RefcountPtr(const RefcountPtr& o) : p_(o.p_) { Up(); }
  RefcountPtr(RefcountPtr&& o) noexcept : p_(std::exchange(o.p_, nullptr)) {}
  template <typename U> friend class RefcountPtr;
  template <typename U, typename = std::enable_if_t<std::is_convertible_v<U*, T*>>>
  RefcountPtr(RefcountPtr<U> o) : p_(std::exchange(o.p_, nullptr)) {}
  RefcountPtr& operator=(RefcountPtr o) noexcept { std::swap(p_, o.p_); return *this; }
  ~RefcountPtr() { Down(); }
  T* get() const { return p_; }
  T& operator*() const { return *p_; }
  T* operator->() const { return p_; }
  void reset() noexcept { RefcountPtr t(std::move(*this)); }
  explicit operator bool() const { return p_ != nullptr; }
  friend bool operator==(const RefcountPtr& a, const RefcountPtr& b) { return a.p_ == b.p_; }
  friend bool operator!=(const RefcountPtr& a, const RefcountPtr& b) { return a.p_ != b.p_; }
  friend bool operator==(const RefcountPtr& a, std::nullptr_t) { return a.p_ == nullptr; }
  friend bool operator!=(const RefcountPtr& a, std::nullptr_t) { return a.p_ != nullptr; }
  friend bool operator==(const RefcountPtr& a, const T* b) { return a.p_ == b; }
  template <typename H>
  friend H AbslHashValue(H h, const RefcountPtr& p) { return H::combine(std::move(h), p.p_); }

 private:
  void Up() { if (p_) p_->vshim_refs.fetch_add(1, std::memory_order_relaxed); }
  void Down() { if (p_ && p_->vshim_refs.fetch_sub(1, std::memory_order_acq_rel) == 1) delete p_; }
  T* p_ = nullptr;
};

// --------------------------------------------------------------- fingerprint
struct Fingerprint {
  absl::uint128 value;
  friend bool operator==(const Fingerprint& a, const Fingerprint& b) { return a.value == b.value; }
  friend bool operator!=(const Fingerprint& a, const Fingerprint& b) { return a.value != b.value; }
  friend bool operator<(const Fingerprint& a, const Fingerprint& b) { return a.value < b.value; }
  int64_t PythonHash() const { return static_cast<int64_t>(absl::Uint128Low64(value)); }
  std::string AsString() const { return absl::StrFormat("%016x%016x", absl::Uint128High64(value), absl::Uint128Low64(value)); }
  template <typename H>
  friend H AbslHashValue(H h, const Fingerprint& f) { return H::combine(std::move(h), absl::Uint128Low64(f.value), absl::Uint128High64(f.value)); }
};
Fingerprint RandomFingerprint();
Fingerprint FingerprintOfString(absl::string_view s);
class FingerprintHasher;
template <typename T, typename = void> struct FingerprintHasherTraits;
class FingerprintHasher {
 public:
  explicit FingerprintHasher(absl::string_view salt) { CombineRawBytes(salt.data(), salt.size()); }
  Fingerprint Finish() && { return Fingerprint{absl::MakeUint128(h_, l_)}; }
  template <typename... A> FingerprintHasher& Combine(const A&... a) & { (One(a), ...); return *this; }
  template <typename... A> FingerprintHasher&& Combine(const A&... a) && { (One(a), ...); return std::move(*this); }
  template <typename S> FingerprintHasher& CombineSpan(const S& s) & { Combine(s.size()); for (const auto& x : s) One(x); return *this; }
  template <typename S> FingerprintHasher&& CombineSpan(const S& s) && { CombineSpan(s); return std::move(*this); }
  FingerprintHasher& CombineRawBytes(const void* p, size_t n) {
    Mix(n);
    const unsigned char* c = static_cast<const unsigned char*>(p);
    while (n) {
      uint64_t w = 0;
      size_t k = std::min<size_t>(n, 8);
      std::memcpy(&w, c, k);
      Mix(w);
      c += k;
      n -= k;
    }
    return *this;
  }

 private:
  template <typename T> void One(const T& v) {
    if constexpr (requires { v.ArollaFingerprint(this); }) {
      v.ArollaFingerprint(this);
    } else if constexpr (requires { FingerprintHasherTraits<T>()(this, v); }) {
      FingerprintHasherTraits<T>()(this, v);
    } else if constexpr (std::is_convertible_v<T, absl::string_view>) {
      absl::string_view s = v;
      CombineRawBytes(s.data(), s.size());
    } else if constexpr (std::is_same_v<T, Unit>) {
      Mix(3);
    } else if constexpr (std::is_same_v<T, Fingerprint>) {
      Mix(absl::Uint128Low64(v.value));
      Mix(absl::Uint128High64(v.value));
    } else if constexpr (std::is_pointer_v<T>) {
      Mix(reinterpret_cast<uintptr_t>(v));
    } else if constexpr (is_optional_v<T>) {
      Mix(v.present);
      if (v.present) One(v.value);
    } else if constexpr (meta::is_wrapped_with_v<std::vector, T>) {
      CombineSpan(v);
    } else {
      static_assert(std::is_arithmetic_v<T> || std::is_enum_v<T>);
      uint64_t w = 0;
      std::memcpy(&w, &v, sizeof v);
      Mix(w ^ (sizeof(v) << 56));
    }
  }
  static uint64_t M(uint64_t x) {
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27; x *= 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }
  void Mix(uint64_t w) {
    l_ = M(l_ + 0x9E3779B97F4A7C15ull + w);
    h_ = M(h_ ^ (l_ + (w << 17 | w >> 47) * 0xD6E8FEB86659FD93ull));
  }
  uint64_t l_ = 0x243F6A8885A308D3ull, h_ = 0x13198A2E03707344ull;
};
std::pair<uint64_t, uint64_t> CityHash128WithSeed(const void* data, size_t size, std::pair<uint64_t, uint64_t> seed);
uint64_t CityHash64(const void* data, size_t size);
uint64_t CityHash64WithSeed(const void* data, size_t size, uint64_t seed);

// --------------------------------------------------------------------- repr
struct ReprToken {
  struct Precedence { int8_t left = -1; int8_t right = -1; };
  std::string str;
  Precedence precedence;
  ReprToken() = default;
  ReprToken(std::string s) : str(std::move(s)) {}
  ReprToken(const char* s) : str(s) {}
  ReprToken(absl::string_view s) : str(s) {}
  ReprToken(std::string s, Precedence p) : str(std::move(s)), precedence(p) {}
};
template <typename T, typename = void> struct ReprTraits;
template <typename T>
std::string Repr(const T& v) {
  if constexpr (requires { ReprTraits<T>()(v); }) {
    return ReprTraits<T>()(v).str;
  } else if constexpr (std::is_same_v<T, Text>) {
    return "'" + std::string(v.view()) + "'";
  } else if constexpr (std::is_same_v<T, Bytes>) {
    return "b'" + std::string(v) + "'";
  } else if constexpr (std::is_same_v<T, Unit>) {
    return "present";
  } else {
    std::ostringstream os;
    if constexpr (requires { os << v; }) os << v; else os << "<" << typeid(T).name() << ">";
    return os.str();
  }
}
template <typename T>
ReprToken GenReprToken(const T& v) { return ReprToken{Repr(v)}; }

// -------------------------------------------------------------------- qtypes
class QType {
 public:
  QType(std::string name, const std::type_info& ti, size_t size) : name_(std::move(name)), ti_(ti), size_(size) {}
  absl::string_view name() const { return name_; }
  const std::type_info& type_info() const { return ti_; }
  const QType* value_qtype() const { return value_; }
  void vshim_set_value(const QType* q) { value_ = q; }
  virtual ~QType() = default;
  virtual ReprToken UnsafeReprToken(const void*) const { return ReprToken{name_}; }
  virtual absl::string_view UnsafePyQValueSpecializationKey(const void*) const { return ""; }
  virtual int64_t vshim_field_count() const { return 0; }
  virtual std::pair<const QType*, const void*> vshim_field(const void*, int64_t) const { return {nullptr, nullptr}; }

 private:
  std::string name_;
  const std::type_info& ti_;
  size_t size_;
  const QType* value_ = nullptr;
};
using QTypePtr = const QType*;
class NothingTag;
QTypePtr GetNothingQType();
template <typename T> struct DenseArray;
namespace vshim_qtype {
template <typename T> struct Name { static std::string get() { return typeid(T).name(); } };
template <> struct Name<int32_t> { static std::string get() { return "INT32"; } };
template <> struct Name<int64_t> { static std::string get() { return "INT64"; } };
template <> struct Name<uint64_t> { static std::string get() { return "UINT64"; } };
template <> struct Name<float> { static std::string get() { return "FLOAT32"; } };
template <> struct Name<double> { static std::string get() { return "FLOAT64"; } };
template <> struct Name<bool> { static std::string get() { return "BOOLEAN"; } };
template <> struct Name<Unit> { static std::string get() { return "UNIT"; } };
template <> struct Name<Text> { static std::string get() { return "TEXT"; } };
template <> struct Name<Bytes> { static std::string get() { return "BYTES"; } };
template <typename T> struct Name<OptionalValue<T>> { static std::string get() { return "OPTIONAL_" + Name<T>::get(); } };
template <typename T> struct Name<DenseArray<T>> { static std::string get() { return "DENSE_ARRAY_" + Name<T>::get(); } };
template <typename T> struct Inner { static QTypePtr get() { return nullptr; } };
}  // namespace vshim_qtype
template <typename T>
struct QTypeTraits {
  static QTypePtr type() {
    static const QType* const q = [] {
      QType* r = new QType(vshim_qtype::Name<T>::get(), typeid(T), sizeof(T));
      r->vshim_set_value(vshim_qtype::Inner<T>::get());
      return r;
    }();
    return q;
  }
};
template <typename T>
QTypePtr GetQType() { return QTypeTraits<T>::type(); }
class SimpleQType : public QType {
 public:
  template <typename T>
  SimpleQType(meta::type_<T>, std::string name) : QType(std::move(name), typeid(T), sizeof(T)) {}
};
class BasicDerivedQType : public QType {
 public:
  struct ConstructorArgs { std::string name; QTypePtr base_qtype; const QType* value_qtype = nullptr; std::string qtype_specialization_key; };
  explicit BasicDerivedQType(ConstructorArgs a) : QType(a.name, a.base_qtype->type_info(), 0) {}
};
namespace vshim_qtype {
template <typename T> struct Inner<OptionalValue<T>> { static QTypePtr get() { return GetQType<T>(); } };
template <typename T> struct Inner<DenseArray<T>> { static QTypePtr get() { return GetQType<T>(); } };
template <typename T> struct IsDA : std::false_type {};
}  // namespace vshim_qtype
inline bool IsDenseArrayQType(QTypePtr q) { return q->name().substr(0, 12) == "DENSE_ARRAY_"; }
inline bool IsArrayQType(QTypePtr q) { return q->name().substr(0, 6) == "ARRAY_"; }
template <typename T> QTypePtr GetOptionalQType() { return GetQType<OptionalValue<T>>(); }
template <typename T> QTypePtr GetDenseArrayQType() { return GetQType<DenseArray<T>>(); }
#define AROLLA_DECLARE_QTYPE(...) \
  template <> struct QTypeTraits<__VA_ARGS__> { static QTypePtr type(); }
#define AROLLA_DECLARE_SIMPLE_QTYPE(NAME, ...) \
  template <> struct vshim_qtype::Name<__VA_ARGS__> { static std::string get() { return #NAME; } }; \
  AROLLA_DECLARE_QTYPE(__VA_ARGS__)
#define AROLLA_DEFINE_SIMPLE_QTYPE(NAME, ...) \
  QTypePtr QTypeTraits<__VA_ARGS__>::type() { \
    static const QType* const q = new SimpleQType(meta::type<__VA_ARGS__>(), #NAME); \
    return q; \
  } static_assert(true)
#define AROLLA_DECLARE_OPTIONAL_QTYPE(NAME, ...) static_assert(true)
#define AROLLA_DEFINE_OPTIONAL_QTYPE(NAME, ...) static_assert(true)
#define AROLLA_DECLARE_DENSE_ARRAY_QTYPE(NAME, ...) static_assert(true)
#define AROLLA_DEFINE_DENSE_ARRAY_QTYPE(NAME, ...) static_assert(true)
#define AROLLA_DECLARE_REPR(...) template <> struct ReprTraits<__VA_ARGS__> { ReprToken operator()(const __VA_ARGS__& value) const; }
#define AROLLA_DECLARE_FINGERPRINT_HASHER_TRAITS(...) template <> struct FingerprintHasherTraits<__VA_ARGS__> { void operator()(FingerprintHasher* hasher, const __VA_ARGS__& value) const; }

class TypedRef {
 public:
  template <typename T> static TypedRef FromValue(const T& v) { TypedRef r; r.q_ = GetQType<T>(); r.p_ = &v; return r; }
  QTypePtr GetType() const { return q_; }
  template <typename T> const T& UnsafeAs() const { return *static_cast<const T*>(p_); }
  const void* GetRawPointer() const { return p_; }
  int64_t GetFieldCount() const { return q_->vshim_field_count(); }
  TypedRef GetField(int64_t i) const { TypedRef r; std::tie(r.q_, r.p_) = q_->vshim_field(p_, i); return r; }
  static TypedRef UnsafeFromRawPointer(QTypePtr q, const void* p) { TypedRef r; r.q_ = q; r.p_ = p; return r; }

 private:
  friend class TypedValue;
  QTypePtr q_ = nullptr;
  const void* p_ = nullptr;
};
class TypedValue {
 public:
  template <typename T> static TypedValue FromValue(T v) {
    TypedValue r;
    r.q_ = GetQType<T>();
    r.p_ = std::make_shared<const T>(std::move(v));
    const T& ref = *static_cast<const T*>(r.p_.get());
    if constexpr (requires { ref.ArollaFingerprint(static_cast<FingerprintHasher*>(nullptr)); }) {
      FingerprintHasher h(r.q_->name());
      ref.ArollaFingerprint(&h);
      r.fp_ = std::move(h).Finish();
    } else if constexpr (requires { FingerprintHasherTraits<T>(); }) {
      FingerprintHasher h(r.q_->name());
      FingerprintHasherTraits<T>()(&h, ref);
      r.fp_ = std::move(h).Finish();
    } else if constexpr (std::is_arithmetic_v<T> || std::is_convertible_v<T, absl::string_view>) {
      r.fp_ = FingerprintHasher(r.q_->name()).Combine(ref).Finish();
    } else {
      r.fp_ = FingerprintHasher(r.q_->name()).Combine(r.p_.get()).Finish();
    }
    r.repr_ = [p = r.p_] { return ::arolla::Repr(*static_cast<const T*>(p.get())); };
    return r;
  }
  TypedValue() = default;
  explicit TypedValue(TypedRef r) : q_(r.GetType()), p_(std::shared_ptr<const void>(), r.GetRawPointer()) {}  // borrows
  QTypePtr GetType() const { return q_; }
  template <typename T> const T& UnsafeAs() const { return *static_cast<const T*>(p_.get()); }
  template <typename T> absl::StatusOr<std::reference_wrapper<const T>> As() const {
    if (q_ != GetQType<T>()) return absl::FailedPreconditionError("type mismatch");
    return std::cref(UnsafeAs<T>());
  }
  TypedRef AsRef() const { TypedRef r; r.q_ = q_; r.p_ = p_.get(); return r; }
  const Fingerprint& GetFingerprint() const { return fp_; }
  std::string Repr() const { return repr_(); }
  ReprToken GenReprToken() const { return ReprToken{repr_()}; }

 private:
  Fingerprint fp_{};
  std::function<std::string()> repr_;
  QTypePtr q_ = nullptr;
  std::shared_ptr<const void> p_;
};
// A tuple value: every instance has its own type, as wide as its field list.
class VshimTuple {
 public:
  explicit VshimTuple(std::vector<TypedValue> f) : f_(std::move(f)) {}
  TypedRef AsRef() const { return TypedRef::UnsafeFromRawPointer(&q_, this); }
  std::vector<TypedRef> extra;

 private:
  struct Q final : QType {
    explicit Q(VshimTuple* t) : QType("tuple", typeid(VshimTuple), 0), t(t) {}
    int64_t vshim_field_count() const override { return t->f_.size() + t->extra.size(); }
    std::pair<const QType*, const void*> vshim_field(const void*, int64_t i) const override {
      if (i < 0 || i >= vshim_field_count()) {
        std::fprintf(stderr, "VSHIM: field %lld of a tuple with %lld fields\n", (long long)i, (long long)vshim_field_count());
        std::abort();
      }
      TypedRef r = i < (int64_t)t->f_.size() ? t->f_[i].AsRef() : t->extra[i - t->f_.size()];
      return {r.GetType(), r.GetRawPointer()};
    }
    VshimTuple* t;
  };
  std::vector<TypedValue> f_;
  Q q_{this};
};

// ------------------------------------------------------------------- buffers
class RawBufferFactory {};
inline RawBufferFactory* GetHeapBufferFactory() { static RawBufferFactory f; return &f; }
class UnsafeArenaBufferFactory : public RawBufferFactory { public: explicit UnsafeArenaBufferFactory(int64_t) {} };
using RawBufferPtr = std::shared_ptr<const void>;

template <typename A>
class ConstArrayIterator {
 public:
  using iterator_category = std::random_access_iterator_tag;
  using value_type = typename A::value_type;
  using pointer = const value_type*;
  using reference = decltype(std::declval<const A&>()[0]);
  using difference_type = int64_t;
  ConstArrayIterator() = default;
  ConstArrayIterator(const A* a, int64_t p) : a_(a), p_(p) {}
  reference operator*() const { return (*a_)[p_]; }
  reference operator[](int64_t i) const { return (*a_)[p_ + i]; }
  ConstArrayIterator& operator++() { ++p_; return *this; }
  ConstArrayIterator operator++(int) { auto r = *this; ++p_; return r; }
  ConstArrayIterator& operator--() { --p_; return *this; }
  ConstArrayIterator operator--(int) { auto r = *this; --p_; return r; }
  ConstArrayIterator& operator+=(int64_t d) { p_ += d; return *this; }
  ConstArrayIterator& operator-=(int64_t d) { p_ -= d; return *this; }
  friend ConstArrayIterator operator+(ConstArrayIterator i, int64_t d) { return i += d; }
  friend ConstArrayIterator operator+(int64_t d, ConstArrayIterator i) { return i += d; }
  friend ConstArrayIterator operator-(ConstArrayIterator i, int64_t d) { return i -= d; }
  friend int64_t operator-(const ConstArrayIterator& a, const ConstArrayIterator& b) { return a.p_ - b.p_; }
  friend bool operator==(const ConstArrayIterator& a, const ConstArrayIterator& b) { return a.p_ == b.p_; }
  friend bool operator!=(const ConstArrayIterator& a, const ConstArrayIterator& b) { return a.p_ != b.p_; }
  friend bool operator<(const ConstArrayIterator& a, const ConstArrayIterator& b) { return a.p_ < b.p_; }
  friend bool operator>(const ConstArrayIterator& a, const ConstArrayIterator& b) { return a.p_ > b.p_; }
  friend bool operator<=(const ConstArrayIterator& a, const ConstArrayIterator& b) { return a.p_ <= b.p_; }
  friend bool operator>=(const ConstArrayIterator& a, const ConstArrayIterator& b) { return a.p_ >= b.p_; }

 private:
  const A* a_ = nullptr;
  int64_t p_ = 0;
};

// Memory of values not set holds this.
template <typename T> T vshim_filler() {
  if constexpr (std::is_same_v<T, bool> || std::is_enum_v<T> || !std::is_arithmetic_v<T>) return T();
  else return static_cast<T>(77);
}

template <typename T>
class SimpleBuffer {
 public:
  using value_type = T;
  using const_iterator = const T*;
  using size_type = int64_t;
  using difference_type = int64_t;
  using offset_type = int64_t;
  SimpleBuffer() = default;
  SimpleBuffer(RawBufferPtr holder, absl::Span<const T> span) : holder_(std::move(holder)), span_(span) {}
  template <typename V> static SimpleBuffer Own(V v) {
    std::shared_ptr<T[]> p(new T[v.size() + 1]);
    std::copy(v.begin(), v.end(), p.get());
    size_t n = v.size();
    const T* raw = p.get();
    return SimpleBuffer(RawBufferPtr(std::move(p)), absl::Span<const T>(raw, n));
  }
  static SimpleBuffer Create(std::initializer_list<T> l, RawBufferFactory* = nullptr) { return Own(std::vector<T>(l)); }
  static SimpleBuffer Create(std::vector<T>&& v, RawBufferFactory* = nullptr) { return Own(std::move(v)); }
  template <typename I, typename = decltype(*std::declval<I>())> static SimpleBuffer Create(I b, I e, RawBufferFactory* = nullptr) {
    Builder bl(std::distance(b, e));
    int64_t i = 0;
    for (; b != e; ++b) bl.Set(i++, T(*b));
    return std::move(bl).Build();
  }
  static SimpleBuffer CreateUninitialized(int64_t n, RawBufferFactory* = nullptr) { return Builder(n).Build(); }
  static SimpleBuffer CreateFull(int64_t n, T v, RawBufferFactory* = nullptr) { Builder b(n); b.SetNConst(0, n, v); return std::move(b).Build(); }
  class Inserter;
  class Builder {
   public:
    Builder() = default;
    explicit Builder(int64_t n, RawBufferFactory* = nullptr) : size_(n), p_(new T[n + 1]) { std::fill(p_.get(), p_.get() + n, vshim_filler<T>()); }
    void Set(int64_t i, const T& v) { CHECK(i >= 0 && i < size_); p_[i] = v; }
    void Copy(int64_t to, int64_t from) { Set(to, p_[from]); }
    template <typename G> void SetN(int64_t first, int64_t n, G&& g) { for (int64_t i = 0; i < n; ++i) Set(first + i, g()); }
    void SetNConst(int64_t first, int64_t n, const T& v) { for (int64_t i = 0; i < n; ++i) Set(first + i, v); }
    absl::Span<T> GetMutableSpan() { return absl::Span<T>(p_.get(), size_); }
    SimpleBuffer Build() && { return std::move(*this).Build(size_); }
    SimpleBuffer Build(int64_t n) && {
      CHECK(n >= 0 && n <= size_);
      const T* raw = p_.get();
      return SimpleBuffer(RawBufferPtr(std::move(p_)), absl::Span<const T>(raw, n));
    }
    SimpleBuffer Build(const Inserter& i) && { return std::move(*this).Build(i.pos_); }
    Inserter GetInserter(int64_t start = 0) { return Inserter(this, start); }

   private:
    int64_t size_ = 0;
    std::shared_ptr<T[]> p_;
  };
  class Inserter {
   public:
    Inserter(Builder* b, int64_t p) : b_(b), pos_(p) {}
    void Add(const T& v) { b_->Set(pos_++, v); }
    void SkipN(int64_t n) { pos_ += n; }

   private:
    friend class Builder;
    Builder* b_;
    int64_t pos_;
  };
  class ReshuffleBuilder {
   public:
    ReshuffleBuilder(int64_t n, const SimpleBuffer& src, const OptionalValue<T>& dflt, RawBufferFactory* = nullptr) : b_(n), src_(src) {
      if (dflt.present) b_.SetNConst(0, n, dflt.value);
    }
    void CopyValue(int64_t to, int64_t from) { b_.Set(to, src_[from]); }
    void CopyValueToRange(int64_t lo, int64_t hi, int64_t from) { for (; lo < hi; ++lo) b_.Set(lo, src_[from]); }
    SimpleBuffer Build() && { return std::move(b_).Build(); }
    SimpleBuffer Build(int64_t n) && { return std::move(b_).Build(n); }

   private:
    Builder b_;
    SimpleBuffer src_;
  };
  bool is_owner() const { return holder_ != nullptr; }
  bool empty() const { return span_.empty(); }
  int64_t size() const { return span_.size(); }
  size_t memory_usage() const { return span_.size() * sizeof(T); }
  absl::Span<const T> span() const { return span_; }
  const T* begin() const { return span_.data(); }
  const T* end() const { return span_.data() + span_.size(); }
  const T& operator[](int64_t i) const { CHECK(i >= 0 && i < size()); return span_[i]; }
  const T& front() const { return (*this)[0]; }
  const T& back() const { return (*this)[size() - 1]; }
  SimpleBuffer Slice(int64_t o, int64_t n) const& { CHECK(o >= 0 && n >= 0 && o + n <= size()); return SimpleBuffer(holder_, n ? span_.subspan(o, n) : absl::Span<const T>()); }
  SimpleBuffer ShallowCopy() const { return SimpleBuffer(nullptr, span_); }
  SimpleBuffer DeepCopy(RawBufferFactory* = nullptr) const { return Own(std::vector<T>(begin(), end())); }
  friend bool operator==(const SimpleBuffer& a, const SimpleBuffer& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }

 private:
  RawBufferPtr holder_;
  absl::Span<const T> span_;
};
template <>
inline SimpleBuffer<bool> SimpleBuffer<bool>::Create(std::vector<bool>&& v, RawBufferFactory*) { return Own(std::move(v)); }
template <>
inline SimpleBuffer<bool> SimpleBuffer<bool>::DeepCopy(RawBufferFactory*) const { return Own(std::vector<bool>(begin(), end())); }

class StringsBuffer {
 public:
  using value_type = std::string;
  using size_type = int64_t;
  using difference_type = int64_t;
  using offset_type = int64_t;
  using const_iterator = ConstArrayIterator<StringsBuffer>;
  struct Offsets {
    int64_t start, end;
    friend bool operator==(const Offsets& a, const Offsets& b) { return a.start == b.start && a.end == b.end; }
  };
  StringsBuffer() = default;
  StringsBuffer(SimpleBuffer<Offsets> o, SimpleBuffer<char> c, int64_t base = 0) : offsets_(std::move(o)), chars_(std::move(c)), base_(base) {}
  class Inserter;
  class Builder {
   public:
    Builder() = default;
    explicit Builder(int64_t n, RawBufferFactory* = nullptr) : size_(n), v_(n) {}
    void Set(int64_t i, absl::string_view v) { CHECK(i >= 0 && i < size_); v_[i] = std::string(v); }
    void Copy(int64_t to, int64_t from) { v_[to] = v_[from]; }
    template <typename G> void SetN(int64_t first, int64_t n, G&& g) { for (int64_t i = 0; i < n; ++i) Set(first + i, g()); }
    void SetNConst(int64_t first, int64_t n, absl::string_view v) { for (int64_t i = 0; i < n; ++i) Set(first + i, v); }
    StringsBuffer Build() && { return std::move(*this).Build(size_); }
    StringsBuffer Build(int64_t n) && {
      SimpleBuffer<Offsets>::Builder o(n);
      std::vector<char> chars;
      for (int64_t i = 0; i < n; ++i) {
        int64_t s = chars.size();
        chars.insert(chars.end(), v_[i].begin(), v_[i].end());
        o.Set(i, Offsets{s, static_cast<int64_t>(chars.size())});
      }
      return StringsBuffer(std::move(o).Build(), SimpleBuffer<char>::Create(std::move(chars)));
    }
    StringsBuffer Build(const Inserter& i) &&;
    Inserter GetInserter(int64_t start = 0);

   private:
    int64_t size_ = 0;
    std::vector<std::string> v_;
  };
  class Inserter {
   public:
    Inserter(Builder* b, int64_t p) : b_(b), pos_(p) {}
    void Add(absl::string_view v) { b_->Set(pos_++, v); }
    void SkipN(int64_t n) { pos_ += n; }

   private:
    friend class Builder;
    Builder* b_;
    int64_t pos_;
  };
  // Shares the characters of the source, as arolla's does.
  class ReshuffleBuilder {
   public:
    ReshuffleBuilder(int64_t n, const StringsBuffer& src, const OptionalValue<absl::string_view>& dflt, RawBufferFactory* = nullptr)
        : b_(n), offsets_(src.offsets_), chars_(src.chars_), base_(src.base_) {
      CHECK(!dflt.present || dflt.value.empty());
      b_.SetNConst(0, n, Offsets{src.base_, src.base_});
    }
    void CopyValue(int64_t to, int64_t from) { b_.Set(to, offsets_[from]); }
    void CopyValueToRange(int64_t lo, int64_t hi, int64_t from) { for (; lo < hi; ++lo) CopyValue(lo, from); }
    StringsBuffer Build() && { return StringsBuffer(std::move(b_).Build(), chars_, base_); }
    StringsBuffer Build(int64_t n) && { return StringsBuffer(std::move(b_).Build(n), chars_, base_); }

   private:
    SimpleBuffer<Offsets>::Builder b_;
    SimpleBuffer<Offsets> offsets_;
    SimpleBuffer<char> chars_;
    int64_t base_;
  };
  template <typename I> static StringsBuffer Create(I b, I e, RawBufferFactory* = nullptr) {
    Builder bl(std::distance(b, e));
    int64_t i = 0;
    for (; b != e; ++b) bl.Set(i++, absl::string_view(*b));
    return std::move(bl).Build();
  }
  static StringsBuffer Create(std::initializer_list<absl::string_view> l, RawBufferFactory* = nullptr) { return Create(l.begin(), l.end()); }
  static StringsBuffer CreateUninitialized(int64_t n, RawBufferFactory* = nullptr) { return Builder(n).Build(); }
  static StringsBuffer CreateFull(int64_t n, absl::string_view v, RawBufferFactory* = nullptr) { Builder b(n); b.SetNConst(0, n, v); return std::move(b).Build(); }
  bool is_owner() const { return offsets_.is_owner(); }
  bool empty() const { return offsets_.empty(); }
  int64_t size() const { return offsets_.size(); }
  absl::string_view operator[](int64_t i) const {
    Offsets o = offsets_[i];
    CHECK(o.start - base_ >= 0 && o.end >= o.start && o.end - base_ <= chars_.size());
    return absl::string_view(chars_.begin() + (o.start - base_), o.end - o.start);
  }
  absl::string_view front() const { return (*this)[0]; }
  absl::string_view back() const { return (*this)[size() - 1]; }
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, size()); }
  const SimpleBuffer<Offsets>& offsets() const { return offsets_; }
  const SimpleBuffer<char>& characters() const { return chars_; }
  int64_t base_offset() const { return base_; }
  size_t memory_usage() const { return offsets_.memory_usage() + chars_.memory_usage(); }
  StringsBuffer Slice(int64_t o, int64_t n) const { return StringsBuffer(offsets_.Slice(o, n), chars_, base_); }
  StringsBuffer ShallowCopy() const { return StringsBuffer(offsets_.ShallowCopy(), chars_.ShallowCopy(), base_); }
  StringsBuffer DeepCopy(RawBufferFactory* = nullptr) const { return Create(begin(), end()); }
  friend bool operator==(const StringsBuffer& a, const StringsBuffer& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); }

 private:
  SimpleBuffer<Offsets> offsets_;
  SimpleBuffer<char> chars_;
  int64_t base_ = 0;
};
inline StringsBuffer::Inserter StringsBuffer::Builder::GetInserter(int64_t s) { return Inserter(this, s); }
inline StringsBuffer StringsBuffer::Builder::Build(const Inserter& i) && { return std::move(*this).Build(i.pos_); }

class VoidBuffer {
 public:
  using value_type = Unit;
  using size_type = int64_t;
  using difference_type = int64_t;
  using offset_type = int64_t;
  using const_iterator = ConstArrayIterator<VoidBuffer>;
  VoidBuffer() = default;
  explicit VoidBuffer(int64_t n) : size_(n) {}
  class Inserter;
  class Builder {
   public:
    Builder() = default;
    explicit Builder(int64_t n, RawBufferFactory* = nullptr) : size_(n) {}
    void Set(int64_t i, Unit) { CHECK(i >= 0 && i < size_); }
    void Copy(int64_t, int64_t) {}
    void SetNConst(int64_t, int64_t, Unit) {}
    template <typename G> void SetN(int64_t, int64_t, G&&) {}
    VoidBuffer Build() && { return VoidBuffer(size_); }
    VoidBuffer Build(int64_t n) && { return VoidBuffer(n); }
    VoidBuffer Build(const Inserter& i) && { return VoidBuffer(i.pos_); }
    Inserter GetInserter(int64_t s = 0) { Inserter i; i.pos_ = s; return i; }

   private:
    int64_t size_ = 0;
  };
  class Inserter {
   public:
    void Add(Unit) { ++pos_; }
    void SkipN(int64_t n) { pos_ += n; }
    int64_t pos_ = 0;
  };
  class ReshuffleBuilder {
   public:
    ReshuffleBuilder(int64_t n, const VoidBuffer&, const OptionalUnit&, RawBufferFactory* = nullptr) : n_(n) {}
    void CopyValue(int64_t, int64_t) {}
    void CopyValueToRange(int64_t, int64_t, int64_t) {}
    VoidBuffer Build() && { return VoidBuffer(n_); }
    VoidBuffer Build(int64_t n) && { return VoidBuffer(n); }

   private:
    int64_t n_;
  };
  static VoidBuffer CreateUninitialized(int64_t n, RawBufferFactory* = nullptr) { return VoidBuffer(n); }
  static VoidBuffer CreateFull(int64_t n, Unit, RawBufferFactory* = nullptr) { return VoidBuffer(n); }
  template <typename I> static VoidBuffer Create(I b, I e, RawBufferFactory* = nullptr) { return VoidBuffer(std::distance(b, e)); }
  static VoidBuffer Create(std::initializer_list<Unit> l) { return VoidBuffer(l.size()); }
  bool is_owner() const { return true; }
  bool empty() const { return size_ == 0; }
  int64_t size() const { return size_; }
  Unit operator[](int64_t i) const { CHECK(i >= 0 && i < size_); return Unit{}; }
  Unit front() const { return Unit{}; }
  Unit back() const { return Unit{}; }
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, size_); }
  VoidBuffer Slice(int64_t o, int64_t n) const { CHECK(o >= 0 && n >= 0 && o + n <= size_); return VoidBuffer(n); }
  VoidBuffer ShallowCopy() const { return *this; }
  VoidBuffer DeepCopy(RawBufferFactory* = nullptr) const { return *this; }
  size_t memory_usage() const { return 0; }
  friend bool operator==(const VoidBuffer& a, const VoidBuffer& b) { return a.size_ == b.size_; }

 private:
  int64_t size_ = 0;
};
namespace vshim_buf {
template <typename T> struct Of { using type = SimpleBuffer<T>; };
template <> struct Of<Text> { using type = StringsBuffer; };
template <> struct Of<Bytes> { using type = StringsBuffer; };
template <> struct Of<std::string> { using type = StringsBuffer; };
template <> struct Of<Unit> { using type = VoidBuffer; };
}  // namespace vshim_buf
template <typename T> using Buffer = typename vshim_buf::Of<T>::type;
template <typename T> Buffer<T> CreateBuffer(const std::vector<T>& v) { return Buffer<T>::Create(v.begin(), v.end()); }
template <typename T> Buffer<T> CreateBuffer(std::initializer_list<T> v) { return Buffer<T>::Create(v.begin(), v.end()); }

// ------------------------------------------------------------------- bitmaps
namespace bitmap {
using Word = uint32_t;
constexpr int kWordBitCount = 32;
constexpr Word kFullWord = ~Word(0);
using Bitmap = Buffer<Word>;
using RawBuilder = Buffer<Word>::Builder;
inline int64_t BitmapSize(int64_t bits) { return (bits + kWordBitCount - 1) / kWordBitCount; }
inline bool GetBit(Word w, int bit) { return (w >> bit) & 1; }
inline bool GetBit(const Word* b, int64_t i) { return (b[i / kWordBitCount] >> (i % kWordBitCount)) & 1; }
inline bool GetBit(const Bitmap& b, int64_t i) { return b.empty() || ((b[i / kWordBitCount] >> (i % kWordBitCount)) & 1); }
inline void SetBit(Word* b, int64_t i) { b[i / kWordBitCount] |= Word{1} << (i % kWordBitCount); }
inline void UnsetBit(Word* b, int64_t i) { b[i / kWordBitCount] &= ~(Word{1} << (i % kWordBitCount)); }
inline void SetBitsInRange(Word* b, int64_t lo, int64_t hi) { for (; lo < hi; ++lo) SetBit(b, lo); }
inline Word GetWord(const Bitmap& b, int64_t i) { return b.size() <= i ? kFullWord : b[i]; }
inline Word GetWordWithOffset(const Bitmap& b, int64_t i, int offset) {
  if (i >= b.size()) return kFullWord;
  Word m = b[i] >> offset;
  if (offset == 0 || i + 1 == b.size()) return m;
  return m | (b[i + 1] << (kWordBitCount - offset));
}
inline bool AreAllBitsSet(const Word* b, int64_t n) { for (int64_t i = 0; i < n; ++i) if (!GetBit(b, i)) return false; return true; }
inline bool AreAllBitsUnset(const Word* b, int64_t n) { for (int64_t i = 0; i < n; ++i) if (GetBit(b, i)) return false; return true; }
inline int64_t CountBits(const Bitmap& b, int64_t off, int64_t n) {
  if (b.empty()) return n;
  int64_t c = 0;
  for (int64_t i = 0; i < n; ++i) c += GetBit(b.begin(), off + i);
  return c;
}
inline Bitmap CreateEmptyBitmap(int64_t bits, RawBufferFactory* = nullptr) { return Bitmap::CreateFull(BitmapSize(bits), 0); }
inline Bitmap CreateFullBitmap(int64_t bits, RawBufferFactory* = nullptr) { return Bitmap::CreateFull(BitmapSize(bits), kFullWord); }
template <typename Fn> void IterateWord(Word w, Fn&& fn, int n = kWordBitCount) { for (int i = 0; i < n; ++i) fn(i, GetBit(w, i)); }
template <typename Fn>
void IterateByGroups(const Word* b, int64_t first, int64_t n, Fn&& init) {
  for (int64_t o = 0; o < n;) {
    auto&& fn = init(o);
    int64_t k = std::min<int64_t>(n - o, kWordBitCount - (first + o) % kWordBitCount);
    for (int64_t i = 0; i < k; ++i) fn(i, GetBit(b, first + o + i));
    o += k;
  }
}
template <typename Fn>
void Iterate(const Bitmap& b, int64_t first, int64_t n, Fn&& fn) {
  for (int64_t i = 0; i < n; ++i) fn(b.empty() || GetBit(b.begin(), first + i));
}
class AlmostFullBuilder {
 public:
  explicit AlmostFullBuilder(int64_t n, RawBufferFactory* = nullptr) : n_(n) {}
  void AddMissed(int64_t id) {
    CHECK(id >= 0 && id < n_);
    if (v_.empty()) v_.assign(BitmapSize(n_), kFullWord);
    UnsetBit(v_.data(), id);
  }
  Bitmap Build() && { return std::move(*this).Build(n_); }
  Bitmap Build(int64_t size) && {
    if (v_.empty()) return Bitmap();
    v_.resize(BitmapSize(size));
    return Bitmap::Create(v_.begin(), v_.end());
  }

 private:
  int64_t n_;
  std::vector<Word> v_;
};
class Builder {
 public:
  explicit Builder(int64_t n, RawBufferFactory* = nullptr) : n_(n), v_(BitmapSize(n)) {}
  template <typename C, typename Fn> void AddForEach(const C& c, Fn&& fn) {
    for (auto&& x : c) { CHECK(pos_ < n_); if (fn(x)) SetBit(v_.data(), pos_); ++pos_; }
  }
  template <typename Fn> void AddByGroups(int64_t n, Fn&& init) {
    for (int64_t o = 0; o < n;) {
      auto&& fn = init(o);
      int64_t k = std::min<int64_t>(n - o, kWordBitCount);
      for (int64_t i = 0; i < k; ++i) { if (fn(i)) SetBit(v_.data(), pos_); ++pos_; }
      o += k;
    }
  }
  Bitmap Build() && {
    if (AreAllBitsSet(v_.data(), n_)) return Bitmap();
    return Bitmap::Create(v_.begin(), v_.end());
  }

 private:
  int64_t n_, pos_ = 0;
  std::vector<Word> v_;
};
}  // namespace bitmap

// -------------------------------------------------------------- dense arrays
template <typename T>
struct DenseArray {
  using base_type = T;
  using value_type = OptionalValue<view_type_t<T>>;
  using size_type = int64_t;
  using difference_type = int64_t;
  using const_iterator = ConstArrayIterator<DenseArray<T>>;
  int64_t size() const { return values.size(); }
  bool empty() const { return values.empty(); }
  bool IsFull() const { return PresentCount() == size(); }
  int64_t PresentCount() const { return bitmap::CountBits(bitmap, bitmap_bit_offset, size()); }
  bool IsAllMissing() const { return PresentCount() == 0; }
  bool IsAllPresent() const { return PresentCount() == size(); }
  bool present(int64_t i) const { CHECK(i >= 0 && i < size()); return bitmap::GetBit(bitmap, i + bitmap_bit_offset); }
  value_type operator[](int64_t i) const {
    if (present(i)) {
      if constexpr (std::is_same_v<T, Unit>) return OptionalUnit(true); else return value_type{true, view_type_t<T>(values[i])};
    }
    return std::nullopt;
  }
  bool is_owned() const { return values.is_owner() && (bitmap.empty() || bitmap.is_owner()); }
  DenseArray MakeOwned(RawBufferFactory* = nullptr) const { return is_owned() ? *this : DenseArray{values.DeepCopy(), bitmap.DeepCopy(), bitmap_bit_offset}; }
  DenseArray MakeUnowned() const { return DenseArray{values.ShallowCopy(), bitmap.ShallowCopy(), bitmap_bit_offset}; }
  DenseArray Slice(int64_t o, int64_t n) const {
    CHECK(o >= 0 && n >= 0 && o + n <= size());
    DenseArray r;
    r.values = values.Slice(o, n);
    if (!bitmap.empty()) {
      int64_t b = o + bitmap_bit_offset;
      r.bitmap_bit_offset = b % bitmap::kWordBitCount;
      int64_t w = b / bitmap::kWordBitCount;
      r.bitmap = bitmap.Slice(w, n ? bitmap::BitmapSize(n + r.bitmap_bit_offset) : 0);
      if (n == 0) r.bitmap_bit_offset = 0;
    }
    return r;
  }
  DenseArray ForceNoBitmapBitOffset(RawBufferFactory* = nullptr) const {
    if (bitmap_bit_offset == 0) return *this;
    std::vector<bitmap::Word> w(bitmap::BitmapSize(size()));
    for (int64_t i = 0; i < size(); ++i) if (present(i)) bitmap::SetBit(w.data(), i);
    return DenseArray{values, bitmap::Bitmap::Create(w.begin(), w.end())};
  }
  decltype(auto) vshim_at(int64_t i) const {
    if constexpr (std::is_same_v<view_type_t<T>, T>) return (values[i]); else return view_type_t<T>(values[i]);
  }
  template <typename Fn> void ForEach(Fn&& fn) const { for (int64_t i = 0; i < size(); ++i) fn(i, present(i), vshim_at(i)); }
  template <typename Fn> void ForEachPresent(Fn&& fn) const { for (int64_t i = 0; i < size(); ++i) if (present(i)) fn(i, vshim_at(i)); }
  template <typename Fn> void ForEachByGroups(Fn&& init) const {
    for (int64_t o = 0; o < size(); o += bitmap::kWordBitCount) {
      auto&& fn = init(o);
      for (int64_t i = o; i < std::min<int64_t>(size(), o + bitmap::kWordBitCount); ++i) fn(i, present(i), vshim_at(i));
    }
  }
  DenseArray<Unit> ToMask() const;
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, size()); }
  bool CheckBitmapMatchesValues() const { return bitmap.empty() || bitmap.size() == bitmap::BitmapSize(values.size() + bitmap_bit_offset); }
  void ArollaFingerprint(FingerprintHasher* h) const {
    h->Combine(size());
    for (int64_t i = 0; i < size(); ++i) {
      h->Combine(present(i));
      if (present(i)) h->Combine(view_type_t<T>(values[i]));
    }
  }
  Buffer<T> values;
  bitmap::Bitmap bitmap;
  int bitmap_bit_offset = 0;
};
template <typename T> DenseArray<Unit> DenseArray<T>::ToMask() const { return DenseArray<Unit>{VoidBuffer(size()), bitmap, bitmap_bit_offset}; }
template <typename T> bool ArraysAreEquivalent(const DenseArray<T>& a, const DenseArray<T>& b) {
  if (a.size() != b.size()) return false;
  for (int64_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false;
  return true;
}
template <typename T> bool operator==(const DenseArray<T>& a, const DenseArray<T>& b) { return ArraysAreEquivalent(a, b); }
template <typename T> std::ostream& operator<<(std::ostream& os, const DenseArray<T>& a) {
  os << "[";
  for (int64_t i = 0; i < a.size(); ++i) os << (i ? ", " : "") << a[i];
  return os << "]";
}
template <typename T> struct is_dense_array : std::false_type {};
template <typename T> struct is_dense_array<DenseArray<T>> : std::true_type {};
template <typename T> inline constexpr bool is_dense_array_v = is_dense_array<std::decay_t<T>>::value;
template <typename T>
class DenseArrayBuilder {
 public:
  using base_type = T;
  DenseArrayBuilder() : DenseArrayBuilder(0) {}
  explicit DenseArrayBuilder(int64_t n, RawBufferFactory* = nullptr) : n_(n), values_(n), present_(bitmap::BitmapSize(n)) {}
  template <typename V> void Set(int64_t i, const V& v) {
    CHECK(i >= 0 && i < n_);
    if constexpr (std::is_same_v<V, std::nullopt_t>) {
    } else if constexpr (is_optional_v<V>) {
      if (v.present) { SetPresent(i, v.value); }
    } else if constexpr (meta::is_wrapped_with_v<std::optional, V>) {
      if (v.has_value()) SetPresent(i, *v);
    } else {
      SetPresent(i, v);
    }
  }
  template <typename V> void SetNConst(int64_t first, int64_t n, const V& v) { for (int64_t i = 0; i < n; ++i) Set(first + i, v); }
  template <typename V> void Add(int64_t i, const V& v) { Set(i, v); }
  template <typename V> void AddNConst(int64_t first, int64_t n, const V& v) { SetNConst(first, n, v); }
  DenseArray<T> Build() && { return std::move(*this).Build(n_); }
  DenseArray<T> Build(int64_t n) && {
    CHECK(n >= 0 && n <= n_);
    DenseArray<T> r;
    r.values = std::move(values_).Build(n);
    if (!bitmap::AreAllBitsSet(present_.data(), n)) { present_.resize(bitmap::BitmapSize(n)); r.bitmap = bitmap::Bitmap::Create(present_.begin(), present_.end()); }
    return r;
  }

 private:
  template <typename V> void SetPresent(int64_t i, const V& v) {
    if constexpr (std::is_same_v<view_type_t<T>, absl::string_view>) values_.Set(i, absl::string_view(v));
    else if constexpr (std::is_same_v<T, Unit>) values_.Set(i, Unit{});
    else values_.Set(i, static_cast<T>(v));
    bitmap::SetBit(present_.data(), i);
  }
  int64_t n_;
  typename Buffer<T>::Builder values_;
  std::vector<bitmap::Word> present_;
};
template <typename T> DenseArray<T> CreateDenseArray(absl::Span<const OptionalValue<T>> v, RawBufferFactory* = nullptr) {
  DenseArrayBuilder<T> b(v.size());
  for (size_t i = 0; i < v.size(); ++i) b.Set(i, v[i]);
  return std::move(b).Build();
}
template <typename T> DenseArray<T> CreateDenseArray(std::initializer_list<OptionalValue<T>> v) { return CreateDenseArray<T>(absl::Span<const OptionalValue<T>>(v.begin(), v.size())); }
template <typename T> DenseArray<T> CreateDenseArray(const std::vector<OptionalValue<T>>& v, RawBufferFactory* = nullptr) { return CreateDenseArray<T>(absl::Span<const OptionalValue<T>>(v)); }
template <typename T, typename I> DenseArray<T> CreateDenseArray(I b, I e, RawBufferFactory* = nullptr) {
  DenseArrayBuilder<T> r(std::distance(b, e));
  for (int64_t i = 0; b != e; ++b, ++i) r.Set(i, *b);
  return std::move(r).Build();
}
template <typename T> DenseArray<T> CreateFullDenseArray(std::initializer_list<T> v, RawBufferFactory* = nullptr) { return DenseArray<T>{Buffer<T>::Create(v.begin(), v.end())}; }
template <typename T> DenseArray<T> CreateFullDenseArray(const std::vector<T>& v, RawBufferFactory* = nullptr) { return DenseArray<T>{Buffer<T>::Create(v.begin(), v.end())}; }
template <typename T, typename I> DenseArray<T> CreateFullDenseArray(I b, I e, RawBufferFactory* = nullptr) { return DenseArray<T>{Buffer<T>::Create(b, e)}; }
template <typename T> DenseArray<T> CreateConstDenseArray(int64_t n, view_type_t<T> v, RawBufferFactory* = nullptr) { return DenseArray<T>{Buffer<T>::CreateFull(n, v)}; }
template <typename T> DenseArray<T> CreateEmptyDenseArray(int64_t n, RawBufferFactory* = nullptr) { return DenseArrayBuilder<T>(n).Build(); }

template <typename T> struct IsStatusOrT : std::false_type {};
template <typename T> struct IsStatusOrT<absl::StatusOr<T>> : std::true_type {};
template <typename T> struct strip_statusor { using type = T; };
template <typename T> struct strip_statusor<absl::StatusOr<T>> { using type = T; };
template <typename T> using strip_statusor_t = typename strip_statusor<T>::type;
inline absl::Status SizeMismatchError(std::initializer_list<int64_t> sizes) {
  return absl::InvalidArgumentError(absl::StrCat("argument sizes mismatch: (", absl::StrCat([&] { std::string s; for (int64_t x : sizes) s += (s.empty() ? "" : ", ") + std::to_string(x); return s; }()), ")"));
}
template <typename T> absl::Status WithPayload(absl::Status s, T p) { return s.vshim_with_payload(std::any(std::move(p))); }
inline absl::Status WithCause(absl::Status s, absl::Status c) { return s.vshim_with_cause(std::move(c)); }
inline absl::Status WithUpdatedMessage(const absl::Status& s, absl::string_view m) { return s.vshim_with_message(m); }
template <typename T> const T* GetPayload(const absl::Status& s) { return s.vshim_payload() ? std::any_cast<T>(s.vshim_payload()) : nullptr; }
inline const std::any* GetPayload(const absl::Status& s) { return s.vshim_payload(); }
inline const absl::Status* GetCause(const absl::Status& s) { return s.vshim_cause(); }
template <typename T> absl::Status GetStatusOrOk(const T& v) {
  if constexpr (IsStatusOrT<T>::value) return v.status();
  else if constexpr (std::is_same_v<T, absl::Status>) return v;
  else return absl::OkStatus();
}
template <typename T> decltype(auto) UnStatus(T&& v) {
  if constexpr (IsStatusOrT<std::decay_t<T>>::value) return *std::forward<T>(v); else return std::forward<T>(v);
}

// ------------------------------------------------------------------ dense ops
struct DenseOpFlags {
  static constexpr int kRunOnMissing = 1 << 0, kNoBitmapOffset = 1 << 1, kNoSizeValidation = 1 << 2;
};
namespace vshim_op {
// An argument of the function reads an item, or an optional one.
template <typename A, typename T> auto Arg(const DenseArray<T>& a, int64_t i) {
  if constexpr (is_optional_v<A>) {
    using V = strip_optional_t<A>;
    if constexpr (std::is_same_v<V, Unit>) return OptionalUnit(a.present(i));
    else return a.present(i) ? OptionalValue<V>(V(a.values[i])) : OptionalValue<V>();
  } else {
    return view_type_t<T>(a.values[i]);
  }
}
template <typename A, typename T> bool Ok(const DenseArray<T>& a, int64_t i) { return is_optional_v<A> || a.present(i); }
template <size_t Skip, typename L> struct Drop;
template <typename... A> struct Drop<0, meta::type_list<A...>> { using type = meta::type_list<A...>; };
template <size_t N, typename H, typename... A> requires(N > 0) struct Drop<N, meta::type_list<H, A...>> : Drop<N - 1, meta::type_list<A...>> {};
template <typename T> bool SameSize(int64_t n, const DenseArray<T>& a) { return a.size() == n; }
template <typename Fn, typename... A, typename... T>
void Each(bool missing, Fn&& fn, meta::type_list<A...>, const DenseArray<T>&... a) {
  int64_t n = 0;
  ((n = a.size()), ...);
  for (int64_t i = 0; i < n; ++i) {
    bool ok = (Ok<std::decay_t<A>>(a, i) && ...);
    if (missing) {
      if constexpr (std::is_invocable_v<Fn, int64_t, bool, A...>) fn(i, ok, Arg<std::decay_t<A>>(a, i)...);
    } else if (ok) {
      if constexpr (!std::is_invocable_v<Fn, int64_t, bool, A...> || std::is_invocable_v<Fn, int64_t, A...>) fn(i, Arg<std::decay_t<A>>(a, i)...);
    }
  }
}
}  // namespace vshim_op
template <typename Fn, typename T0, typename... T>
absl::Status DenseArraysForEach(Fn&& fn, const DenseArray<T0>& a0, const DenseArray<T>&... a) {
  if (!(vshim_op::SameSize(a0.size(), a) && ...)) return SizeMismatchError({a0.size(), a.size()...});
  using L = typename vshim_op::Drop<2, typename meta::function_traits<std::decay_t<Fn>>::arg_types>::type;
  vshim_op::Each(true, fn, L{}, a0, a...);
  return absl::OkStatus();
}
template <typename Fn, typename T0, typename... T>
absl::Status DenseArraysForEachPresent(Fn&& fn, const DenseArray<T0>& a0, const DenseArray<T>&... a) {
  if (!(vshim_op::SameSize(a0.size(), a) && ...)) return SizeMismatchError({a0.size(), a.size()...});
  using L = typename vshim_op::Drop<1, typename meta::function_traits<std::decay_t<Fn>>::arg_types>::type;
  vshim_op::Each(false, fn, L{}, a0, a...);
  return absl::OkStatus();
}
namespace vshim_op {
template <typename R> struct ResOf { using type = strip_optional_t<strip_statusor_t<std::decay_t<R>>>; };
template <> struct ResOf<absl::string_view> { using type = Text; };
template <typename L> struct ResFor;
template <int Flags, typename Fn, typename ResT>
class Op {
 public:
  explicit Op(Fn fn) : fn_(std::move(fn)) {}
  template <typename T0, typename... T>
  auto operator()(const DenseArray<T0>& a0, const DenseArray<T>&... a) const {
    using L = typename meta::function_traits<Fn>::arg_types;
    return Run(L{}, a0, a...);
  }

 private:
  template <typename... A, typename T0, typename... T>
  auto Run(meta::type_list<A...>, const DenseArray<T0>& a0, const DenseArray<T>&... a) const {
    using FR = typename meta::function_traits<Fn>::return_type;
    constexpr bool kStatus = IsStatusOrT<FR>::value || (sizeof...(T) > 0 && !(Flags & DenseOpFlags::kNoSizeValidation));
    using Res = std::conditional_t<kStatus, absl::StatusOr<DenseArray<ResT>>, DenseArray<ResT>>;
    return [&]() -> Res {
      if (!(SameSize(a0.size(), a) && ...)) {
        if constexpr (kStatus) return SizeMismatchError({a0.size(), a.size()...}); else std::abort();
      }
      DenseArrayBuilder<ResT> b(a0.size());
      absl::Status status;
      for (int64_t i = 0; i < a0.size() && status.ok(); ++i) {
        if (!Present(meta::type_list<A...>{}, i, a0, a...)) continue;
        auto r = Call(meta::type_list<A...>{}, i, a0, a...);
        if constexpr (IsStatusOrT<FR>::value) {
          if (!r.ok()) status = r.status(); else b.Set(i, *r);
        } else {
          b.Set(i, r);
        }
      }
      if constexpr (kStatus) { if (!status.ok()) return status; }
      return std::move(b).Build();
    }();
  }
  template <typename... A, typename... T>
  static bool Present(meta::type_list<A...>, int64_t i, const DenseArray<T>&... a) { return (Ok<std::decay_t<A>>(a, i) && ...); }
  template <typename... A, typename... T>
  auto Call(meta::type_list<A...>, int64_t i, const DenseArray<T>&... a) const { return fn_(Arg<std::decay_t<A>>(a, i)...); }
  mutable Fn fn_;
};
}  // namespace vshim_op
template <int Flags, typename ResT, typename Fn> auto CreateDenseOp(Fn fn, RawBufferFactory* = nullptr) { return vshim_op::Op<Flags, Fn, ResT>(std::move(fn)); }
template <int Flags, typename Fn> auto CreateDenseOp(Fn fn, RawBufferFactory* = nullptr) {
  return vshim_op::Op<Flags, Fn, typename vshim_op::ResOf<typename meta::function_traits<Fn>::return_type>::type>(std::move(fn));
}
template <typename Fn, typename ResT> auto CreateDenseOp(Fn fn, RawBufferFactory* = nullptr) { return CreateDenseOp<0, ResT>(std::move(fn)); }
template <typename Fn, typename ResT, int Flags> auto CreateDenseOp(Fn fn, RawBufferFactory* = nullptr) { return CreateDenseOp<Flags, ResT>(std::move(fn)); }
template <typename Fn> auto CreateDenseOp(Fn fn, RawBufferFactory* = nullptr) { return CreateDenseOp<0>(std::move(fn)); }

// --------------------------------------------------------------------- edges
class DenseArrayEdge {
 public:
  enum EdgeType { MAPPING = 1, SPLIT_POINTS = 2 };
  static absl::StatusOr<DenseArrayEdge> FromMapping(DenseArray<int64_t> m, int64_t parent) {
    if (parent < 0) return absl::InvalidArgumentError("parent_size can not be negative");
    for (int64_t i = 0; i < m.size(); ++i) if (m.present(i) && (m.values[i] < 0 || m.values[i] >= parent)) return absl::InvalidArgumentError(absl::StrFormat("parent_size=%d, but parent id %d is used", parent, m.values[i]));
    return DenseArrayEdge(MAPPING, parent, m.size(), std::move(m));
  }
  static absl::StatusOr<DenseArrayEdge> FromSplitPoints(DenseArray<int64_t> s) {
    if (!s.IsFull()) return absl::InvalidArgumentError("split points must be full");
    if (s.empty()) return absl::InvalidArgumentError("split points array must have at least 1 element");
    if (s.values[0] != 0) return absl::InvalidArgumentError("split points array must have first element equal to 0");
    for (int64_t i = 1; i < s.size(); ++i) if (s.values[i] < s.values[i - 1]) return absl::InvalidArgumentError("split points must be sorted");
    int64_t parent = s.size() - 1, child = s.values.back();
    return DenseArrayEdge(SPLIT_POINTS, parent, child, std::move(s));
  }
  static DenseArrayEdge UnsafeFromMapping(DenseArray<int64_t> m, int64_t parent) { return *FromMapping(std::move(m), parent); }
  static DenseArrayEdge UnsafeFromSplitPoints(DenseArray<int64_t> s) { return *FromSplitPoints(std::move(s)); }
  static absl::StatusOr<DenseArrayEdge> FromUniformGroups(int64_t parent, int64_t group, RawBufferFactory* = nullptr) {
    if (parent < 0 || group < 0) return absl::InvalidArgumentError("parent_size and group_size cannot be negative");
    std::vector<int64_t> s(parent + 1);
    for (int64_t i = 0; i <= parent; ++i) s[i] = i * group;
    return FromSplitPoints(CreateFullDenseArray<int64_t>(s));
  }
  DenseArrayEdge() : DenseArrayEdge(MAPPING, 0, 0, {}) {}
  EdgeType edge_type() const { return type_; }
  int64_t parent_size() const { return parent_; }
  int64_t child_size() const { return child_; }
  const DenseArray<int64_t>& edge_values() const { return v_; }
  int64_t split_size(int64_t i) const { CHECK(type_ == SPLIT_POINTS); return v_.values[i + 1] - v_.values[i]; }
  DenseArrayEdge ToMappingEdge(RawBufferFactory* = nullptr) const {
    if (type_ == MAPPING) return *this;
    std::vector<int64_t> m(child_);
    for (int64_t p = 0; p < parent_; ++p) for (int64_t i = v_.values[p]; i < v_.values[p + 1]; ++i) m[i] = p;
    return DenseArrayEdge(MAPPING, parent_, child_, CreateFullDenseArray<int64_t>(m));
  }
  absl::StatusOr<DenseArrayEdge> ToSplitPointsEdge(RawBufferFactory* = nullptr) const {
    if (type_ == SPLIT_POINTS) return *this;
    if (!v_.IsFull()) return absl::InvalidArgumentError("expected full mapping");
    std::vector<int64_t> s(parent_ + 1);
    int64_t prev = 0;
    for (int64_t i = 0; i < child_; ++i) {
      if (v_.values[i] < prev) return absl::InvalidArgumentError("mapping must be sorted");
      prev = v_.values[i];
      ++s[prev + 1];
    }
    for (int64_t i = 0; i < parent_; ++i) s[i + 1] += s[i];
    return FromSplitPoints(CreateFullDenseArray<int64_t>(s));
  }
  bool IsEquivalentTo(const DenseArrayEdge& o) const {
    return parent_ == o.parent_ && child_ == o.child_ && ArraysAreEquivalent(ToMappingEdge().v_, o.ToMappingEdge().v_);
  }
  static absl::StatusOr<DenseArrayEdge> ComposeEdges(absl::Span<const DenseArrayEdge> edges, RawBufferFactory* = nullptr) {
    if (edges.empty()) return absl::InvalidArgumentError("at least one edge must be present");
    bool all_split = true;
    for (const auto& e : edges) all_split &= e.type_ == SPLIT_POINTS;
    for (size_t i = 1; i < edges.size(); ++i) if (edges[i].parent_ != edges[i - 1].child_) return absl::InvalidArgumentError("incompatible edges");
    DenseArrayBuilder<int64_t> b(edges.back().child_);
    std::vector<DenseArrayEdge> ms;
    for (const auto& e : edges) ms.push_back(e.ToMappingEdge());
    for (int64_t i = 0; i < edges.back().child_; ++i) {
      int64_t x = i;
      bool ok = true;
      for (size_t k = ms.size(); ok && k-- > 0;) { ok = ms[k].v_.present(x); if (ok) x = ms[k].v_.values[x]; }
      if (ok) b.Set(i, x);
    }
    auto r = *FromMapping(std::move(b).Build(), edges.front().parent_);
    return all_split ? r.ToSplitPointsEdge() : r;
  }
  void ArollaFingerprint(FingerprintHasher* h) const { h->Combine(type_, parent_, child_); v_.ArollaFingerprint(h); }

 private:
  DenseArrayEdge(EdgeType t, int64_t p, int64_t c, DenseArray<int64_t> v) : type_(t), parent_(p), child_(c), v_(std::move(v)) {}
  EdgeType type_;
  int64_t parent_, child_;
  DenseArray<int64_t> v_;
};
class DenseArrayGroupScalarEdge {
 public:
  DenseArrayGroupScalarEdge() = default;
  explicit DenseArrayGroupScalarEdge(int64_t n) : n_(n) {}
  int64_t child_size() const { return n_; }

 private:
  int64_t n_ = 0;
};

// ------------------------------------------------------------- cancellation
namespace vshim_cancel { inline thread_local bool cancelled = false; }
inline bool Cancelled() { return vshim_cancel::cancelled; }
inline absl::Status CheckCancellation() { return Cancelled() ? absl::CancelledError("cancelled") : absl::OkStatus(); }
namespace profiling {
class TraceMe {
 public:
  template <typename T> explicit TraceMe(T&&, int = 1) {}
};
class TraceMeActivity {
 public:
  template <typename T> explicit TraceMeActivity(T&&, int = 1) {}
};
}  // namespace profiling

// ---------------------------------------------------------------- expressions
namespace expr {
struct ExprNode {
  std::string text;
  Fingerprint fp;
  const Fingerprint& fingerprint() const { return fp; }
};
using ExprNodePtr = std::shared_ptr<const ExprNode>;
inline ExprNodePtr Leaf(absl::string_view n) {
  return std::make_shared<const ExprNode>(ExprNode{"L." + std::string(n), FingerprintHasher("leaf").Combine(n).Finish()});
}
struct ExprOperatorSignature { static ExprOperatorSignature MakeVariadicArgs() { return {}; } };
struct ExprOperator { std::string name; };
using ExprOperatorPtr = std::shared_ptr<const ExprOperator>;
namespace testing {
struct DummyOp : ExprOperator { DummyOp(absl::string_view n, ExprOperatorSignature) : ExprOperator{std::string(n)} {} };
}  // namespace testing
inline absl::StatusOr<ExprNodePtr> CallOp(absl::string_view name, std::vector<ExprNodePtr> a) {
  FingerprintHasher h("call");
  h.Combine(name);
  std::string t = std::string(name) + "(";
  for (size_t i = 0; i < a.size(); ++i) { t += (i ? ", " : "") + a[i]->text; h.Combine(a[i]->fp); }
  return std::make_shared<const ExprNode>(ExprNode{t + ")", std::move(h).Finish()});
}
inline absl::StatusOr<ExprNodePtr> CallOp(const ExprOperatorPtr& op, std::vector<ExprNodePtr> a) { return CallOp(op->name, std::move(a)); }
template <typename T> ExprNodePtr Literal(const T& v) {
  std::string t = Repr(v);
  return std::make_shared<const ExprNode>(ExprNode{t, FingerprintHasher("lit").Combine(t).Finish()});
}
inline ExprNodePtr Placeholder(absl::string_view n) {
  return std::make_shared<const ExprNode>(ExprNode{"P." + std::string(n), FingerprintHasher("ph").Combine(n).Finish()});
}
class ExprQuote {
 public:
  ExprQuote() = default;
  explicit ExprQuote(ExprNodePtr e) : e_(std::move(e)) {}
  bool has_expr() const { return e_ != nullptr; }
  absl::StatusOr<ExprNodePtr> expr() const {
    if (!e_) return absl::InvalidArgumentError("uninitialized ExprQuote");
    return e_;
  }
  const ExprNodePtr& operator*() const { CHECK(e_); return e_; }
  const ExprNodePtr* operator->() const { return &e_; }
  Fingerprint expr_fingerprint() const { return e_ ? e_->fp : Fingerprint{5}; }
  friend bool operator==(const ExprQuote& a, const ExprQuote& b) { return a.expr_fingerprint() == b.expr_fingerprint(); }
  friend bool operator!=(const ExprQuote& a, const ExprQuote& b) { return !(a == b); }
  template <typename H>
  friend H AbslHashValue(H h, const ExprQuote& q) { return H::combine(std::move(h), q.expr_fingerprint()); }
  void ArollaFingerprint(FingerprintHasher* h) const { h->Combine(expr_fingerprint()); }

 private:
  ExprNodePtr e_;
};
inline std::string ToDebugString(const ExprNodePtr& e, bool = false) { return e->text; }
}  // namespace expr
AROLLA_DECLARE_SIMPLE_QTYPE(EXPR_QUOTE, expr::ExprQuote);
namespace serialization {
struct Container {
  std::string s;
  std::string SerializeAsString() const { return s; }
};
inline absl::StatusOr<Container> Encode(absl::Span<const TypedValue>, absl::Span<const expr::ExprNodePtr> e) {
  Container c;
  for (const auto& x : e) c.s += x->text + ";";
  return c;
}
}  // namespace serialization

// ----------------------------------------------------------- scalar operators
template <typename DST>
struct CastOp {
  using run_on_missing = std::true_type;
  template <typename SRC>
  auto operator()(SRC v) const {
    if constexpr (std::is_same_v<SRC, bool> || std::is_same_v<DST, SRC> || (std::is_integral_v<SRC> && sizeof(DST) >= sizeof(SRC)) || (std::is_floating_point_v<DST>)) {
      return static_cast<DST>(v);
    } else {
      return [&]() -> absl::StatusOr<DST> {
        if constexpr (std::is_floating_point_v<SRC>) {
          // Both bounds are powers of two, hence exact.
          const long double lo = static_cast<long double>(std::numeric_limits<DST>::min()), hi = static_cast<long double>(std::numeric_limits<DST>::max());
          if (!(std::trunc(static_cast<long double>(v)) >= lo && std::trunc(static_cast<long double>(v)) <= hi))
            return absl::InvalidArgumentError(absl::StrCat("cannot cast ", v, " to ", vshim_qtype::Name<DST>::get()));
        } else {
          if (v < std::numeric_limits<DST>::min() || v > std::numeric_limits<DST>::max())
            return absl::InvalidArgumentError(absl::StrCat("cannot cast ", v, " to ", vshim_qtype::Name<DST>::get()));
        }
        return static_cast<DST>(v);
      }();
    }
  }
};
struct ToBoolOp {
  template <typename T> bool operator()(const T& v) const { return v != T(); }
};
namespace vshim_str {
absl::StatusOr<double> ParseFloat(absl::string_view s, bool is32);
absl::StatusOr<int64_t> ParseInt(absl::string_view s, bool is32);
absl::StatusOr<Text> Decode(absl::string_view s);
std::string FloatText(double v, bool is32);
}  // namespace vshim_str
struct StringsParseFloat32 { template <typename S> absl::StatusOr<float> operator()(const S& s) const { auto r = vshim_str::ParseFloat(absl::string_view(s), true); if (!r.ok()) return r.status(); return static_cast<float>(*r); } };
struct StringsParseFloat64 { template <typename S> absl::StatusOr<double> operator()(const S& s) const { return vshim_str::ParseFloat(absl::string_view(s), false); } };
struct StringsParseInt32 { template <typename S> absl::StatusOr<int32_t> operator()(const S& s) const { auto r = vshim_str::ParseInt(absl::string_view(s), true); if (!r.ok()) return r.status(); return static_cast<int32_t>(*r); } };
struct StringsParseInt64 { template <typename S> absl::StatusOr<int64_t> operator()(const S& s) const { return vshim_str::ParseInt(absl::string_view(s), false); } };
struct DecodeOp { template <typename S> absl::StatusOr<Text> operator()(const S& s, absl::string_view = "") const { return vshim_str::Decode(absl::string_view(s)); } };
struct EncodeOp { template <typename S> Bytes operator()(const S& s) const { return Bytes(absl::string_view(s)); } };
struct AsTextOp {
  Text operator()(const Text& t) const { return t; }
  Text operator()(const Bytes& b) const { return Text("b'" + std::string(absl::string_view(b)) + "'"); }
  Text operator()(absl::string_view b) const { return Text("b'" + std::string(b) + "'"); }
  Text operator()(Unit) const { return Text("present"); }
  Text operator()(bool b) const { return Text(b ? "true" : "false"); }
  Text operator()(int32_t v) const { return Text(std::to_string(v)); }
  Text operator()(int64_t v) const { return Text(std::to_string(v)); }
  Text operator()(float v) const { return Text(vshim_str::FloatText(v, true)); }
  Text operator()(double v) const { return Text(vshim_str::FloatText(v, false)); }
};

class EvaluationContext {
 public:
  EvaluationContext() = default;
  RawBufferFactory& buffer_factory() { return *GetHeapBufferFactory(); }
  const absl::Status& status() const { return s_; }
  void set_status(absl::Status s) { if (s_.ok()) s_ = std::move(s); }
  absl::Status vshim_take() { return std::exchange(s_, absl::OkStatus()); }

 private:
  absl::Status s_;
};
inline void InitArolla() {}
template <typename T> std::string TypeName() { return typeid(T).name(); }
inline std::string TypeName(const std::type_info& t) { return t.name(); }
template <typename W> bool GetBit(const W* w, size_t i) { constexpr size_t n = sizeof(W) * 8; return (w[i / n] >> (i % n)) & 1; }
template <typename W> void SetBit(W* w, size_t i) { constexpr size_t n = sizeof(W) * 8; w[i / n] |= W{1} << (i % n); }

// ---------------------------------------------------------- array operators
struct DenseArrayHasOp {
  template <typename T> DenseArray<Unit> operator()(const DenseArray<T>& a) const { return a.ToMask(); }
  template <typename T> DenseArray<Unit> operator()(EvaluationContext*, const DenseArray<T>& a) const { return a.ToMask(); }
};
struct DenseArrayPresenceNotOp {
  template <typename T> DenseArray<Unit> operator()(EvaluationContext*, const DenseArray<T>& a) const {
    DenseArrayBuilder<Unit> b(a.size());
    for (int64_t i = 0; i < a.size(); ++i) if (!a.present(i)) b.Set(i, kUnit);
    return std::move(b).Build();
  }
};
struct DenseArrayPresenceAndOp {
  template <typename T> absl::StatusOr<DenseArray<T>> operator()(EvaluationContext*, const DenseArray<T>& a, const DenseArray<Unit>& m) const {
    if (a.size() != m.size()) return SizeMismatchError({a.size(), m.size()});
    DenseArrayBuilder<T> b(a.size());
    for (int64_t i = 0; i < a.size(); ++i) if (m.present(i)) b.Set(i, a[i]);
    return std::move(b).Build();
  }
};
struct DenseArrayPresenceOrOp {
  template <typename T> absl::StatusOr<DenseArray<T>> operator()(EvaluationContext*, const DenseArray<T>& a, const DenseArray<T>& o) const {
    if (a.size() != o.size()) return SizeMismatchError({a.size(), o.size()});
    DenseArrayBuilder<T> b(a.size());
    for (int64_t i = 0; i < a.size(); ++i) b.Set(i, a.present(i) ? a[i] : o[i]);
    return std::move(b).Build();
  }
  template <typename T> DenseArray<T> operator()(EvaluationContext*, const DenseArray<T>& a, const T& o) const {
    DenseArrayBuilder<T> b(a.size());
    for (int64_t i = 0; i < a.size(); ++i) { if (a.present(i)) b.Set(i, a[i]); else b.Set(i, o); }
    return std::move(b).Build();
  }
};
struct DenseArrayPresentIndicesOp {
  DenseArray<int64_t> operator()(EvaluationContext*, const DenseArray<Unit>& m) const {
    std::vector<int64_t> v;
    for (int64_t i = 0; i < m.size(); ++i) if (m.present(i)) v.push_back(i);
    return CreateFullDenseArray<int64_t>(v);
  }
};
struct DenseArrayAtOp {
  template <typename T> DenseArray<T> operator()(EvaluationContext* ctx, const DenseArray<T>& a, const DenseArray<int64_t>& ids) const {
    DenseArrayBuilder<T> b(ids.size());
    for (int64_t i = 0; i < ids.size(); ++i) {
      if (!ids.present(i)) continue;
      int64_t k = ids.values[i];
      if (k < 0 || k >= a.size()) { ctx->set_status(absl::InvalidArgumentError(absl::StrFormat("array index %d out of range [0, %d)", k, a.size()))); continue; }
      b.Set(i, a[k]);
    }
    return std::move(b).Build();
  }
};
struct DenseArrayFromIndicesAndValues {
  template <typename T> DenseArray<T> operator()(EvaluationContext* ctx, const DenseArray<int64_t>& ids, const DenseArray<T>& v, int64_t size) const {
    DenseArrayBuilder<T> b(size);
    for (int64_t i = 0; i < ids.size(); ++i) { CHECK(ids.present(i) && ids.values[i] >= 0 && ids.values[i] < size); b.Set(ids.values[i], v[i]); }
    return std::move(b).Build();
  }
};
struct DenseArrayEdgeSizesOp {
  absl::StatusOr<DenseArray<int64_t>> operator()(EvaluationContext*, const DenseArrayEdge& e) const {
    std::vector<int64_t> n(e.parent_size());
    auto m = e.ToMappingEdge();
    for (int64_t i = 0; i < m.child_size(); ++i) if (m.edge_values().present(i)) ++n[m.edge_values().values[i]];
    return CreateFullDenseArray<int64_t>(n);
  }
};
struct DenseArrayEdgeFromSizesOp {
  absl::StatusOr<DenseArrayEdge> operator()(EvaluationContext*, const DenseArray<int64_t>& s) const {
    if (!s.IsFull()) return absl::InvalidArgumentError("operator edge.from_sizes expects no missing size values");
    std::vector<int64_t> p(s.size() + 1);
    for (int64_t i = 0; i < s.size(); ++i) p[i + 1] = p[i] + s.values[i];
    return DenseArrayEdge::FromSplitPoints(CreateFullDenseArray<int64_t>(p));
  }
};
struct DenseArrayExpandOp {
  template <typename T> absl::StatusOr<DenseArray<T>> operator()(EvaluationContext*, const DenseArray<T>& a, const DenseArrayEdge& e) const {
    if (a.size() != e.parent_size()) return SizeMismatchError({e.parent_size(), a.size()});
    auto m = e.ToMappingEdge();
    DenseArrayBuilder<T> b(m.child_size());
    for (int64_t i = 0; i < m.child_size(); ++i) if (m.edge_values().present(i)) b.Set(i, a[m.edge_values().values[i]]);
    return std::move(b).Build();
  }
};
struct DenseArrayGroupByOp {
  template <typename T> absl::StatusOr<DenseArrayEdge> operator()(EvaluationContext*, const DenseArray<T>& a, const DenseArrayEdge& over) const {
    if (a.size() != over.child_size()) return SizeMismatchError({over.child_size(), a.size()});
    auto m = over.ToMappingEdge();
    // Values are told apart by equality; groups are numbered as they come.
    std::vector<std::vector<std::pair<view_type_t<T>, int64_t>>> seen(over.parent_size());
    DenseArrayBuilder<int64_t> b(a.size());
    int64_t n = 0;
    for (int64_t i = 0; i < a.size(); ++i) {
      if (!a.present(i) || !m.edge_values().present(i)) continue;
      auto& g = seen[m.edge_values().values[i]];
      view_type_t<T> v = a.values[i];
      int64_t id = -1;
      for (auto& [x, k] : g) if (x == v) { id = k; break; }
      if (id < 0) { id = n++; g.emplace_back(v, id); }
      b.Set(i, id);
    }
    return DenseArrayEdge::FromMapping(std::move(b).Build(), n);
  }
};

// ------------------------------------------------------------- accumulators
enum class AccumulatorType { kAggregator, kPartial, kFull };
template <AccumulatorType Type, typename Result, typename P, typename C> struct Accumulator;
template <AccumulatorType Type, typename Result, typename... P, typename... C>
struct Accumulator<Type, Result, meta::type_list<P...>, meta::type_list<C...>> {
  static constexpr AccumulatorType type = Type;
  using result_type = Result;
  using parent_types = meta::type_list<P...>;
  using child_types = meta::type_list<C...>;
  static constexpr bool IsAggregator() { return Type == AccumulatorType::kAggregator; }
  static constexpr bool IsPartial() { return Type == AccumulatorType::kPartial; }
  static constexpr bool IsFull() { return Type == AccumulatorType::kFull; }
  virtual ~Accumulator() = default;
  virtual void Reset(P...) = 0;
  virtual void Add(C...) = 0;
  virtual void AddN(int64_t n, C... c) { for (int64_t i = 0; i < n; ++i) Add(c...); }
  virtual Result GetResult() = 0;
  virtual void FinalizeFullGroup() {}
  virtual absl::Status GetStatus() { return absl::OkStatus(); }
};
template <typename T>
class CollapseAccumulator final : public Accumulator<AccumulatorType::kAggregator, OptionalValue<view_type_t<T>>, meta::type_list<>, meta::type_list<view_type_t<T>>> {
 public:
  void Reset() final { v_.reset(); bad_ = false; }
  void Add(view_type_t<T> v) final {
    if (bad_) return;
    if (!v_) v_ = std::move(v);
    else if (!(*v_ == v)) bad_ = true;
  }
  OptionalValue<view_type_t<T>> GetResult() final { if (bad_ || !v_) return std::nullopt; return OptionalValue<view_type_t<T>>(*v_); }

 private:
  std::optional<view_type_t<T>> v_;
  bool bad_ = false;
};
class SimpleCountAggregator final : public Accumulator<AccumulatorType::kAggregator, int64_t, meta::type_list<>, meta::type_list<Unit>> {
 public:
  void Reset() final { n_ = 0; }
  void Add(Unit) final { ++n_; }
  int64_t GetResult() final { return n_; }

 private:
  int64_t n_ = 0;
};
class CountPartialAccumulator final : public Accumulator<AccumulatorType::kPartial, int64_t, meta::type_list<>, meta::type_list<Unit>> {
 public:
  void Reset() final { n_ = 0; }
  void Add(Unit) final { ++n_; }
  int64_t GetResult() final { return n_; }

 private:
  int64_t n_ = 0;
};
namespace vshim_group {
template <typename R> struct Res { using type = strip_optional_t<R>; };
}  // namespace vshim_group
template <typename Acc>
class DenseGroupOps {
 public:
  explicit DenseGroupOps(RawBufferFactory*, Acc acc = Acc()) : acc_(std::move(acc)) {}
  template <typename T>
  auto Apply(const DenseArrayEdge& e, const DenseArray<T>& a) {
    using R = std::conditional_t<std::is_same_v<strip_optional_t<typename Acc::result_type>, absl::string_view>, T, strip_optional_t<typename Acc::result_type>>;
    return [&]() -> absl::StatusOr<DenseArray<R>> {
      if (a.size() != e.child_size()) return SizeMismatchError({e.child_size(), a.size()});
      auto m = e.ToMappingEdge();
      std::vector<std::vector<int64_t>> g(e.parent_size());
      for (int64_t i = 0; i < a.size(); ++i) if (m.edge_values().present(i)) g[m.edge_values().values[i]].push_back(i);
      DenseArrayBuilder<R> b(Acc::IsAggregator() ? e.parent_size() : a.size());
      for (int64_t p = 0; p < e.parent_size(); ++p) {
        acc_.Reset();
        for (int64_t i : g[p]) {
          if (!a.present(i)) continue;
          acc_.Add(Item(a, i));
          if constexpr (Acc::IsPartial()) b.Set(i, acc_.GetResult());
        }
        if constexpr (Acc::IsAggregator()) b.Set(p, acc_.GetResult());
      }
      if (absl::Status s = acc_.GetStatus(); !s.ok()) return s;
      return std::move(b).Build();
    }();
  }

 private:
  template <typename T> static auto Item(const DenseArray<T>& a, int64_t i) { return view_type_t<T>(a.values[i]); }
  Acc acc_;
};

// ------------------------------------------------------------- jagged shapes
class JaggedDenseArrayShape {
 public:
  using Edge = DenseArrayEdge;
  using EdgeVec = std::vector<DenseArrayEdge>;
  JaggedDenseArrayShape() : edges_(std::make_shared<const EdgeVec>()) {}
  static JaggedDenseArrayShape Empty() { return {}; }
  static JaggedDenseArrayShape FlatFromSize(int64_t n, RawBufferFactory* = nullptr) {
    return *FromEdges({DenseArrayEdge::UnsafeFromSplitPoints(CreateFullDenseArray<int64_t>({0, n}))});
  }
  static absl::StatusOr<JaggedDenseArrayShape> FromEdges(EdgeVec e) {
    int64_t size = 1;
    for (size_t i = 0; i < e.size(); ++i) {
      if (e[i].parent_size() != size) {
        return i == 0 ? absl::InvalidArgumentError(absl::StrFormat("edges[0].parent_size must be 1, got %d", e[0].parent_size()))
                      : absl::InvalidArgumentError(absl::StrFormat("incompatible dimensions - edges[%d].child_size (%d) != edges[%d].parent_size (%d)", i - 1, size, i, e[i].parent_size()));
      }
      auto s = e[i].ToSplitPointsEdge();
      if (!s.ok()) return s.status();
      e[i] = *s;
      size = e[i].child_size();
    }
    JaggedDenseArrayShape r;
    r.edges_ = std::make_shared<const EdgeVec>(std::move(e));
    return r;
  }
  size_t rank() const { return edges_->size(); }
  int64_t size() const { return edges_->empty() ? 1 : edges_->back().child_size(); }
  absl::Span<const DenseArrayEdge> edges() const { return *edges_; }
  bool FastEquivalenceCheck(const JaggedDenseArrayShape& o) const { return edges_ == o.edges_; }
  bool IsEquivalentTo(const JaggedDenseArrayShape& o) const { return rank() == o.rank() && IsBroadcastableTo(o); }
  bool IsBroadcastableTo(const JaggedDenseArrayShape& o) const {
    if (rank() > o.rank()) return false;
    for (size_t i = 0; i < rank(); ++i) if (!(*edges_)[i].IsEquivalentTo((*o.edges_)[i])) return false;
    return true;
  }
  DenseArrayEdge GetBroadcastEdge(const JaggedDenseArrayShape& o, RawBufferFactory* = nullptr) const {
    CHECK(IsBroadcastableTo(o));
    if (rank() == o.rank()) {
      std::vector<int64_t> v(size() + 1);
      std::iota(v.begin(), v.end(), 0);
      return DenseArrayEdge::UnsafeFromSplitPoints(CreateFullDenseArray<int64_t>(v));
    }
    return *DenseArrayEdge::ComposeEdges(absl::MakeConstSpan(*o.edges_).subspan(rank()));
  }
  absl::StatusOr<JaggedDenseArrayShape> AddDims(const EdgeVec& e) const {
    EdgeVec r = *edges_;
    r.insert(r.end(), e.begin(), e.end());
    return FromEdges(std::move(r));
  }
  absl::StatusOr<JaggedDenseArrayShape> AddDims(std::initializer_list<DenseArrayEdge> e) const { return AddDims(EdgeVec(e)); }
  absl::StatusOr<JaggedDenseArrayShape> AddDims(absl::Span<const DenseArrayEdge> e) const { return AddDims(EdgeVec(e.begin(), e.end())); }
  JaggedDenseArrayShape RemoveDims(size_t from) const {
    CHECK(from <= rank());
    return *FromEdges(EdgeVec(edges_->begin(), edges_->begin() + from));
  }
  JaggedDenseArrayShape FlattenDims(size_t from, size_t to, RawBufferFactory* = nullptr) const {
    CHECK(from <= to && to <= rank());
    EdgeVec r(edges_->begin(), edges_->begin() + from);
    if (from == to) {
      int64_t n = from == 0 ? 1 : (*edges_)[from - 1].child_size();
      r.push_back(*DenseArrayEdge::FromUniformGroups(n, 1));
    } else {
      r.push_back(*DenseArrayEdge::ComposeEdges(absl::MakeConstSpan(*edges_).subspan(from, to - from)));
    }
    r.insert(r.end(), edges_->begin() + to, edges_->end());
    return *FromEdges(std::move(r));
  }
  void ArollaFingerprint(FingerprintHasher* h) const { h->Combine(rank()); for (const auto& e : *edges_) e.ArollaFingerprint(h); }
  friend bool operator==(const JaggedDenseArrayShape& a, const JaggedDenseArrayShape& b) { return a.IsEquivalentTo(b); }

 private:
  std::shared_ptr<const EdgeVec> edges_;
};
template <> struct ReprTraits<JaggedDenseArrayShape> {
  ReprToken operator()(const JaggedDenseArrayShape& s) const {
    std::string r = "JaggedShape(";
    bool first = true;
    for (const auto& e : s.edges()) {
      if (!first) r += ", ";
      first = false;
      bool uniform = e.parent_size() > 0;
      for (int64_t i = 1; i < e.parent_size(); ++i) uniform &= e.split_size(i) == e.split_size(0);
      if (uniform) { r += std::to_string(e.split_size(0)); continue; }
      r += "[";
      for (int64_t i = 0; i < e.parent_size(); ++i) r += (i ? ", " : "") + std::to_string(e.split_size(i));
      r += "]";
    }
    return ReprToken{r + ")"};
  }
};
inline std::ostream& operator<<(std::ostream& os, const JaggedDenseArrayShape& s) { return os << Repr(s); }
}  // namespace arolla
namespace arolla {
template <typename Shape>
struct JaggedShapeFlattenOp {
  Shape operator()(const Shape& shape, int64_t from, std::optional<int64_t> to = std::nullopt) const {
    const int64_t rank = shape.rank();
    auto norm = [&](int64_t d) { return std::clamp<int64_t>(d < 0 ? d + rank : d, 0, rank); };
    int64_t f = norm(from), t = to ? norm(*to) : rank;
    return shape.FlattenDims(f, std::max(f, t));
  }
};
struct DenseArrayUniqueOp {
  template <typename T>
  DenseArray<T> operator()(EvaluationContext*, const DenseArray<T>& a) const {
    absl::flat_hash_set<T> seen;
    std::vector<OptionalValue<T>> r;
    a.ForEachPresent([&](int64_t, const auto& v) { if (seen.insert(T(v)).second) r.push_back(T(v)); });
    return CreateDenseArray<T>(r);
  }
};
struct DenseArrayIotaOp {
  DenseArray<int64_t> operator()(EvaluationContext*, int64_t n) const {
    std::vector<int64_t> v(n);
    std::iota(v.begin(), v.end(), int64_t{0});
    return CreateFullDenseArray<int64_t>(v);
  }
};
template <typename T>
class Array {
 public:
  explicit Array(DenseArray<T> d) : d_(std::move(d)) {}
  Array ToDenseForm() const { return *this; }
  const DenseArray<T>& dense_data() const { return d_; }

 private:
  DenseArray<T> d_;
};
}  // namespace arolla
