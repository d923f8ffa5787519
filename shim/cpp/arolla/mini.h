#pragma once
// The part of Arolla that the streams, executors and loops of Koda use: value
// types with a memory layout, references and reference-counted values, tuples
// and named tuples, labelled types, fingerprints and cancellation contexts.
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>
#include <map>

#include "absl/base/no_destructor.h"
#include "absl/base/nullability.h"
#include "absl/log/check.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "absl/synchronization/mutex.h"
#include "absl/types/span.h"
#include "vsched.h"

namespace arolla {

namespace meta {
template <typename T> struct type { using T_ = T; };
}  // namespace meta

struct Unit {
  friend bool operator==(const Unit&, const Unit&) { return true; }
};
inline constexpr Unit kUnit;

// -------------------------------------------------------------- layouts
class TypeLayout {
 public:
  size_t size = 0, align = 1;
  std::function<void(void*)> init, destroy;
  std::function<void(const void*, void*)> copy;
  size_t AllocSize() const { return size; }
  size_t AllocAlignment() const { return align; }
  void InitializeAlignedAlloc(void* p) const { if (init) init(p); }
  void DestroyAlloc(void* p) const { if (destroy) destroy(p); }
  void InitializeAlignedAllocN(void* p, size_t n) const {
    for (size_t i = 0; i < n; ++i) InitializeAlignedAlloc(static_cast<char*>(p) + i * size);
  }
  void DestroyAllocN(void* p, size_t n) const {
    for (size_t i = 0; i < n; ++i) DestroyAlloc(static_cast<char*>(p) + i * size);
  }
};
using FrameLayout = TypeLayout;

class QType;
using QTypePtr = const QType*;

class TypedSlot {
 public:
  TypedSlot(QTypePtr t, size_t o) : type(t), offset(o) {}
  QTypePtr type;
  size_t offset;
};

class QType {
 public:
  QType(std::string name, TypeLayout layout, QTypePtr value_qtype = nullptr)
      : name_(std::move(name)), layout_(std::move(layout)), value_qtype_(value_qtype) {}
  virtual ~QType() = default;
  absl::string_view name() const { return name_; }
  const TypeLayout& type_layout() const { return layout_; }
  QTypePtr value_qtype() const { return value_qtype_; }
  void UnsafeCopy(const void* src, void* dst) const { if (layout_.copy) layout_.copy(src, dst); }
  const std::vector<TypedSlot>& type_fields() const { return fields_; }
  const std::vector<std::string>& field_names() const { return names_; }

  std::vector<TypedSlot> fields_;
  std::vector<std::string> names_;
  bool named_ = false, tuple_ = false;
  std::string label_;
  QTypePtr base_ = nullptr;

 protected:
  std::string name_;
  TypeLayout layout_;
  QTypePtr value_qtype_;
};

template <typename T>
TypeLayout LayoutOf() {
  TypeLayout l;
  l.size = sizeof(T);
  l.align = alignof(T);
  l.init = [](void* p) { new (p) T(); };
  l.destroy = [](void* p) { static_cast<T*>(p)->~T(); };
  l.copy = [](const void* s, void* d) { *static_cast<T*>(d) = *static_cast<const T*>(s); };
  return l;
}

class SimpleQType : public QType {
 public:
  template <typename T>
  SimpleQType(meta::type<T>, std::string name, QTypePtr value_qtype = nullptr, std::string = "")
      : QType(std::move(name), LayoutOf<T>(), value_qtype) {}
};

template <typename T> struct QTypeTraits;
template <typename T>
QTypePtr GetQType() { return QTypeTraits<T>::type(); }

#define AROLLA_DECLARE_SIMPLE_QTYPE(NAME, ...)           \
  template <> struct QTypeTraits<__VA_ARGS__> {          \
    static QTypePtr type();                              \
  };
#define AROLLA_DEFINE_SIMPLE_QTYPE(NAME, ...)                                     \
  QTypePtr QTypeTraits<__VA_ARGS__>::type() {                                     \
    static const ::arolla::SimpleQType* const t =                                 \
        new ::arolla::SimpleQType(::arolla::meta::type<__VA_ARGS__>(), #NAME);    \
    return t;                                                                     \
  }
#define VSHIM_QTYPE(NAME, ...)                                                    \
  template <> struct QTypeTraits<__VA_ARGS__> {                                   \
    static QTypePtr type() {                                                      \
      static const ::arolla::SimpleQType* const t =                               \
          new ::arolla::SimpleQType(::arolla::meta::type<__VA_ARGS__>(), #NAME);  \
      return t;                                                                   \
    }                                                                             \
  };
struct Unspecified {};
VSHIM_QTYPE(INT32, int32_t)
VSHIM_QTYPE(INT64, int64_t)
VSHIM_QTYPE(UNIT, Unit)
VSHIM_QTYPE(UNSPECIFIED, Unspecified)

inline QTypePtr GetNothingQType() {
  static const QType* const t = new QType("NOTHING", TypeLayout());
  return t;
}

// ------------------------------------------------------------ allocation
struct AlignedFree {
  std::align_val_t align{1};
  void operator()(void* p) const { ::operator delete(p, align); }
};
using AlignedPtr = std::unique_ptr<void, AlignedFree>;
inline AlignedPtr AlignedAlloc(std::align_val_t align, size_t size) {
  return AlignedPtr(::operator new(size ? size : 1, align), AlignedFree{align});
}

// ---------------------------------------------------- references, values
class TypedRef {
 public:
  static TypedRef UnsafeFromRawPointer(QTypePtr t, const void* p) { return TypedRef(t, p); }
  template <typename T>
  static TypedRef FromValue(const T& v) { return TypedRef(GetQType<T>(), &v); }
  QTypePtr GetType() const { return type_; }
  const void* GetRawPointer() const { return p_; }
  int64_t GetFieldCount() const { return type_->type_fields().size(); }
  TypedRef GetField(int64_t i) const {
    const auto& f = type_->type_fields()[i];
    return TypedRef(f.type, static_cast<const char*>(p_) + f.offset);
  }
  template <typename T>
  const T& UnsafeAs() const { return *static_cast<const T*>(p_); }
  template <typename T>
  absl::StatusOr<T> As() const {
    if (type_ != GetQType<T>()) return absl::InvalidArgumentError("type mismatch");
    return UnsafeAs<T>();
  }

 private:
  TypedRef(QTypePtr t, const void* p) : type_(t), p_(p) {}
  QTypePtr type_;
  const void* p_;
};

class TypedValue {
 public:
  explicit TypedValue(TypedRef ref) : TypedValue(ref.GetType()) {
    impl_->type->UnsafeCopy(ref.GetRawPointer(), impl_->p.get());
  }
  template <typename T>
  static TypedValue FromValue(T&& v) {
    using V = std::decay_t<T>;
    return Make<V>(GetQType<V>(), std::forward<T>(v));
  }
  template <typename T>
  static absl::StatusOr<TypedValue> FromValueWithQType(T&& v, QTypePtr t) {
    return Make<std::decay_t<T>>(t, std::forward<T>(v));
  }
  static TypedValue UnsafeFromTypeDefaultConstructed(QTypePtr t) { return TypedValue(t); }
  QTypePtr GetType() const { return impl_->type; }
  const void* GetRawPointer() const { return impl_->p.get(); }
  TypedRef AsRef() const { return TypedRef::UnsafeFromRawPointer(impl_->type, impl_->p.get()); }
  TypedRef GetField(int64_t i) const { return AsRef().GetField(i); }
  template <typename T>
  const T& UnsafeAs() const { return *static_cast<const T*>(impl_->p.get()); }

 private:
  explicit TypedValue(QTypePtr t) : impl_(std::make_shared<Impl>(t)) {}
  template <typename V, typename T>
  static TypedValue Make(QTypePtr t, T&& v) {
    TypedValue r(t);
    *static_cast<V*>(r.impl_->p.get()) = std::forward<T>(v);
    return r;
  }
  struct Impl {
    explicit Impl(QTypePtr t)
        : type(t), p(AlignedAlloc(std::align_val_t{t->type_layout().align}, t->type_layout().size)) {
      type->type_layout().InitializeAlignedAlloc(p.get());
    }
    ~Impl() { type->type_layout().DestroyAlloc(p.get()); }
    QTypePtr type;
    AlignedPtr p;
  };
  std::shared_ptr<Impl> impl_;
};

inline const TypedValue& GetUnspecifiedQValue() {
  static const TypedValue* const v = new TypedValue(TypedValue::FromValue(Unspecified{}));
  return *v;
}

// ---------------------------------------------------------------- tuples
inline QTypePtr MakeTupleQType(const std::vector<QTypePtr>& fields, const std::vector<std::string>* names = nullptr) {
  static std::mutex* const mu = new std::mutex;
  static auto* const reg = new std::map<std::pair<std::vector<QTypePtr>, std::string>, QTypePtr>;
  std::string key = "t";
  if (names) { key = "n"; for (auto& n : *names) key += n + ","; }
  std::lock_guard<std::mutex> lock(*mu);
  auto& r = (*reg)[{fields, key}];
  if (r) return r;
  TypeLayout l;
  std::vector<TypedSlot> slots;
  std::string name = names ? "namedtuple<" : "tuple<";
  for (size_t i = 0; i < fields.size(); ++i) {
    const auto& f = fields[i]->type_layout();
    l.size = (l.size + f.align - 1) / f.align * f.align;
    slots.emplace_back(fields[i], l.size);
    l.size += f.size;
    l.align = std::max(l.align, f.align);
    if (i) name += ",";
    if (names) name += (*names)[i] + "=";
    name += std::string(fields[i]->name());
  }
  l.size = (l.size + l.align - 1) / l.align * l.align;
  auto each = [slots](void (TypeLayout::*m)(void*) const) {
    return [slots, m](void* p) {
      for (auto& s : slots) (s.type->type_layout().*m)(static_cast<char*>(p) + s.offset);
    };
  };
  l.init = each(&TypeLayout::InitializeAlignedAlloc);
  l.destroy = each(&TypeLayout::DestroyAlloc);
  l.copy = [slots](const void* s, void* d) {
    for (auto& t : slots) t.type->UnsafeCopy(static_cast<const char*>(s) + t.offset, static_cast<char*>(d) + t.offset);
  };
  auto* t = new QType(name + ">", std::move(l));
  t->fields_ = std::move(slots);
  t->tuple_ = !names;
  if (names) { t->named_ = true; t->names_ = *names; }
  return r = t;
}
inline TypedValue MakeTuple(absl::Span<const TypedRef> refs) {
  std::vector<QTypePtr> types;
  for (auto& r : refs) types.push_back(r.GetType());
  auto v = TypedValue::UnsafeFromTypeDefaultConstructed(MakeTupleQType(types));
  for (size_t i = 0; i < refs.size(); ++i)
    types[i]->UnsafeCopy(refs[i].GetRawPointer(), const_cast<void*>(v.GetField(i).GetRawPointer()));
  return v;
}
inline TypedValue MakeNamedTupleValue(const std::vector<std::string>& names, absl::Span<const TypedRef> refs) {
  std::vector<QTypePtr> types;
  for (auto& r : refs) types.push_back(r.GetType());
  auto v = TypedValue::UnsafeFromTypeDefaultConstructed(MakeTupleQType(types, &names));
  for (size_t i = 0; i < refs.size(); ++i)
    types[i]->UnsafeCopy(refs[i].GetRawPointer(), const_cast<void*>(v.GetField(i).GetRawPointer()));
  return v;
}
inline bool IsTupleQType(QTypePtr t) { return t && t->tuple_; }
inline bool IsNamedTupleQType(QTypePtr t) { return t && t->named_; }
inline absl::Span<const std::string> GetFieldNames(QTypePtr t) { return t->field_names(); }
inline std::optional<int64_t> GetFieldIndexByName(QTypePtr t, absl::string_view name) {
  for (size_t i = 0; i < t->names_.size(); ++i) if (t->names_[i] == name) return i;
  return std::nullopt;
}

// ---------------------------------------------------------- label types
inline QTypePtr GetLabeledQType(QTypePtr base, absl::string_view label) {
  static std::mutex* const mu = new std::mutex;
  static auto* const reg = new std::map<std::pair<QTypePtr, std::string>, QTypePtr>;
  std::lock_guard<std::mutex> lock(*mu);
  auto& r = (*reg)[{base, std::string(label)}];
  if (r) return r;
  auto* t = new QType(absl::StrCat("LABEL[", label, "](", base->name(), ")"), base->type_layout(), base->value_qtype());
  t->label_ = std::string(label);
  t->base_ = base;
  return r = t;
}
inline absl::string_view GetQTypeLabel(QTypePtr t) { return t ? absl::string_view(t->label_) : ""; }
inline TypedRef DecayDerivedQValue(TypedRef v) {
  return v.GetType()->base_ ? TypedRef::UnsafeFromRawPointer(v.GetType()->base_, v.GetRawPointer()) : v;
}
inline TypedRef UnsafeDowncastDerivedQValue(QTypePtr t, TypedRef v) {
  return TypedRef::UnsafeFromRawPointer(t, v.GetRawPointer());
}

template <typename T, typename U>
T fast_dynamic_downcast_final(U p) {
  using V = std::remove_cv_t<std::remove_pointer_t<T>>;
  if (p == nullptr || typeid(*p) != typeid(V)) return nullptr;
  return static_cast<T>(p);
}

// ---------------------------------------------------------- fingerprints
struct Fingerprint {
  uint64_t hi = 0, lo = 0;
  friend bool operator==(const Fingerprint& a, const Fingerprint& b) { return a.hi == b.hi && a.lo == b.lo; }
  friend bool operator!=(const Fingerprint& a, const Fingerprint& b) { return !(a == b); }
};
inline Fingerprint RandomFingerprint() {
  static std::atomic<uint64_t> n{1};
  return {0x5eed, n.fetch_add(1, std::memory_order_relaxed)};
}
template <typename T> struct FingerprintHasherTraits;
class FingerprintHasher {
 public:
  explicit FingerprintHasher(absl::string_view s) { for (char c : s) Mix(c); }
  template <typename... Ts>
  FingerprintHasher& Combine(const Ts&... v) { (One(v), ...); return *this; }
  Fingerprint Finish() && { return {a, b}; }
 private:
  void Mix(uint64_t v) { a = (a ^ v) * 0x9E3779B97F4A7C15ull; b = (b + v) * 0xC2B2AE3D27D4EB4Full ^ (a >> 29); }
  void One(const Fingerprint& f) { Mix(f.hi); Mix(f.lo); }
  void One(uint64_t v) { Mix(v); }
  uint64_t a = 1, b = 2;
};
#define AROLLA_DECLARE_FINGERPRINT_HASHER_TRAITS(...)                        \
  template <> struct FingerprintHasherTraits<__VA_ARGS__> {                  \
    void operator()(FingerprintHasher* hasher, const __VA_ARGS__& value) const; \
  }
struct ReprToken { std::string str; };
template <typename T> struct ReprTraits;
#define AROLLA_DECLARE_REPR(...)                              \
  template <> struct ReprTraits<__VA_ARGS__> {                \
    ReprToken operator()(const __VA_ARGS__& value) const;     \
  }

// ---------------------------------------------------------- cancellation
class CancellationContext;
using CancellationContextPtr = std::shared_ptr<CancellationContext>;
class CancellationContext final : public std::enable_shared_from_this<CancellationContext> {
 public:
  using Callback = std::function<void()>;
  class Subscription {
   public:
    Subscription() = default;
    Subscription(Subscription&& o) noexcept : ctx_(std::move(o.ctx_)), id_(o.id_) { o.ctx_.reset(); }
    Subscription& operator=(Subscription&& o) noexcept {
      if (this != &o) { Drop(); ctx_ = std::move(o.ctx_); id_ = o.id_; o.ctx_.reset(); }
      return *this;
    }
    ~Subscription() { Drop(); }
    void Detach() { ctx_.reset(); }

   private:
    friend class CancellationContext;
    Subscription(CancellationContextPtr c, uint64_t id) : ctx_(std::move(c)), id_(id) {}
    void Drop() {
      if (!ctx_) return;
      Callback cb;
      {
        absl::MutexLock l(ctx_->mu_);
        auto it = ctx_->callbacks_.find(id_);
        if (it != ctx_->callbacks_.end()) { cb = std::move(it->second); ctx_->callbacks_.erase(it); }
      }
      ctx_.reset();
    }
    CancellationContextPtr ctx_;
    uint64_t id_ = 0;
  };
  class ScopeGuard {
   public:
    explicit ScopeGuard(CancellationContextPtr c = CancellationContext::Make())
        : ctx_(std::move(c)), prev_(std::exchange(Current(), ctx_)) {}
    ~ScopeGuard() { CHECK(Current() == ctx_); Current() = std::move(prev_); }
    ScopeGuard(const ScopeGuard&) = delete;
    CancellationContext* cancellation_context() const { return ctx_.get(); }
    static CancellationContextPtr& Current() {
      static thread_local CancellationContextPtr c;
      return c;
    }

   private:
    CancellationContextPtr ctx_, prev_;
  };
  static CancellationContextPtr Make() { return std::make_shared<CancellationContext>(); }
  bool Cancelled() const { return cancelled_.load(std::memory_order_relaxed); }
  absl::Status GetStatus() const {
    absl::MutexLock l(mu_);
    return status_;
  }
  void Cancel(absl::Status status = absl::CancelledError("cancelled")) {
    std::map<uint64_t, Callback> cbs;
    {
      absl::MutexLock l(mu_);
      if (!status_.ok()) return;
      status_ = std::move(status);
      cancelled_.store(true, std::memory_order_relaxed);
      cbs.swap(callbacks_);
    }
    for (auto& [id, cb] : cbs) cb();
  }
  [[nodiscard]] Subscription Subscribe(Callback cb) {
    {
      absl::MutexLock l(mu_);
      if (status_.ok()) {
        const uint64_t id = ++next_;
        callbacks_.emplace(id, std::move(cb));
        return Subscription(shared_from_this(), id);
      }
    }
    cb();
    return {};
  }

 private:
  mutable absl::Mutex mu_;
  absl::Status status_;
  std::map<uint64_t, Callback> callbacks_;
  uint64_t next_ = 0;
  std::atomic<bool> cancelled_{false};
};
inline CancellationContextPtr CurrentCancellationContext() { return CancellationContext::ScopeGuard::Current(); }
inline bool Cancelled() {
  auto c = CurrentCancellationContext();
  return c && c->Cancelled();
}

// --------------------------------------------------------- status macros
namespace mini {
class StatusBuilder {
 public:
  explicit StatusBuilder(absl::Status s) : s_(std::move(s)) {}
  template <typename T>
  StatusBuilder& operator<<(const T& v) & { extra_ += absl::StrCat(v); return *this; }
  template <typename T>
  StatusBuilder&& operator<<(const T& v) && { extra_ += absl::StrCat(v); return std::move(*this); }
  template <typename F>
  auto With(F&& f) && { return std::forward<F>(f)(absl::Status(std::move(*this))); }
  operator absl::Status() const& { return Build(); }
  operator absl::Status() && { return Build(); }
  template <typename T>
  operator absl::StatusOr<T>() && { return Build(); }

 private:
  absl::Status Build() const {
    return extra_.empty() ? s_ : absl::Status(s_.code(), s_.message().empty() ? extra_ : absl::StrCat(s_.message(), "; ", extra_));
  }
  absl::Status s_;
  std::string extra_;
};
inline absl::Status ToStatus(absl::Status s) { return s; }
template <typename T>
absl::Status ToStatus(const absl::StatusOr<T>& s) { return s.status(); }
}  // namespace mini
}  // namespace arolla

#define RETURN_IF_ERROR(expr)                                          \
  if (::absl::Status _mini_st = ::arolla::mini::ToStatus(expr); _mini_st.ok()) { \
  } else                                                               \
    return ::arolla::mini::StatusBuilder(std::move(_mini_st))
#define MINI_CAT_(a, b) a##b
#define MINI_CAT(a, b) MINI_CAT_(a, b)
#define MINI_PICK(a, b, c, name, ...) name
#define ASSIGN_OR_RETURN(...) MINI_PICK(__VA_ARGS__, MINI_AOR3, MINI_AOR2, )(MINI_CAT(_mini_so_, __COUNTER__), __VA_ARGS__)
#define MINI_AOR2(tmp, lhs, rexpr) MINI_AOR3(tmp, lhs, rexpr, std::move(_))
#define MINI_AOR3(tmp, lhs, rexpr, err)                              \
  auto tmp = (rexpr);                                                \
  if (!tmp.ok()) {                                                   \
    ::arolla::mini::StatusBuilder _(std::move(tmp).status());        \
    (void)_;                                                         \
    return err;                                                      \
  }                                                                  \
  lhs = *std::move(tmp)
