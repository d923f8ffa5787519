#pragma once
// What the drivers share: values with an identity, executors whose tasks can
// be counted, and the bookkeeping of what was observed.
#include <atomic>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "absl/functional/any_invocable.h"
#include "arolla/mini.h"
#include "koladata/functor/parallel/derived_executor.h"
#include "koladata/functor/parallel/eager_executor.h"
#include "koladata/functor/parallel/executor.h"
#include "koladata/functor/parallel/stream.h"
#include "vsched.h"

namespace drv {
using namespace koladata::functor::parallel;
using arolla::QTypePtr;
using arolla::TypedRef;
using arolla::TypedValue;

struct Rng {
  uint64_t s = 1;
  uint64_t Next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  bool P(int num, int den) { return Below(den) < static_cast<uint64_t>(num); }
  template <typename T>
  T Of(std::initializer_list<T> l) { return *(l.begin() + Below(l.size())); }
};

void Count(const char* name, uint64_t n = 1);
std::map<std::string, uint64_t>& Counts();

#define REQUIRE(cond, ...)                                                     \
  do {                                                                         \
    if (!(cond)) vs::Fail(absl::StrCat("[", #cond, "] line ", __LINE__, ": ", ##__VA_ARGS__)); \
  } while (0)

// ------------------------------------------------------------------ values
struct Tracked {  // owns memory and counts its instances
  static std::atomic<int64_t> live;
  uint64_t* p = nullptr;
  Tracked() { live.fetch_add(1, std::memory_order_relaxed); }
  explicit Tracked(uint64_t tag) : p(new uint64_t(tag)) { live.fetch_add(1, std::memory_order_relaxed); }
  Tracked(const Tracked& o) : p(o.p ? new uint64_t(*o.p) : nullptr) { live.fetch_add(1, std::memory_order_relaxed); }
  Tracked(Tracked&& o) noexcept : p(std::exchange(o.p, nullptr)) { live.fetch_add(1, std::memory_order_relaxed); }
  Tracked& operator=(Tracked o) { std::swap(p, o.p); return *this; }
  ~Tracked() { delete p; live.fetch_sub(1, std::memory_order_relaxed); }
  uint64_t tag() const { return p ? *p : ~0ull; }
};
struct Big {  // more than a chunk of a stream
  uint64_t w[80] = {};
};
enum class Kind { kInt, kTracked, kBig, kEmpty, kMid };
struct Mid { uint64_t w[7] = {}; };

QTypePtr TypeOf(Kind k);
TypedValue MakeValue(Kind k, uint64_t tag);
// The tag of a value; fails if the value is torn. Zero for kEmpty.
uint64_t TagOf(Kind k, TypedRef ref);
Kind AnyKind(Rng& r);

// --------------------------------------------------------------- executors
// A pool of threads of the case. Takes its tasks in order or not, and may
// drop them from some task on, as an executor that shuts down may.
class Pool final : public Executor {
 public:
  Pool(Rng r, bool fifo, uint64_t drop_after = ~0ull) : r_(r), fifo_(fifo), drop_after_(drop_after) {}
  ~Pool() noexcept final { live.fetch_sub(1); }
  std::string Repr() const noexcept final { return "pool"; }
  static std::atomic<int64_t> live;
  struct Shared;
  std::shared_ptr<Shared> shared = MakeShared();
  static std::shared_ptr<Shared> MakeShared();
  void Start(int workers);  // threads that run the tasks
  void Stop();              // no more tasks: the threads end when idle
  bool Idle() const;
  uint64_t Dropped() const;

 protected:
  void DoSchedule(TaskFn task) noexcept final;

 private:
  Rng r_;
  const bool fifo_;
  const uint64_t drop_after_;
};

// Forwards to another executor and counts what has not been destroyed yet.
class Counting final : public Executor {
 public:
  explicit Counting(ExecutorPtr base) : base_(std::move(base)) {}
  std::string Repr() const noexcept final { return "counting"; }
  bool Idle() const { return pending_->load() == 0; }

 protected:
  void DoSchedule(TaskFn task) noexcept final;

 private:
  ExecutorPtr base_;
  std::shared_ptr<std::atomic<int64_t>> pending_ = std::make_shared<std::atomic<int64_t>>(0);
};

// One executor of a case, of any kind.
struct AnyExecutor {
  ExecutorPtr ex;
  std::string kind;
  bool drops = false;
  std::function<bool()> idle = [] { return true; };
  std::function<void()> stop = [] {};
};
AnyExecutor MakeAnyExecutor(Rng& r, bool may_drop);

absl::Status SomeError(uint64_t tag);  // an error with an identity
bool SameStatus(const absl::Status& a, const absl::Status& b);

// Reads a stream to its end with the given way of waiting.
struct Read {
  std::vector<uint64_t> tags;
  absl::Status status;
  bool closed = false;
};
Read ReadAll(Kind k, const StreamPtr& s);
// What can be read now, without waiting.
Read ReadNow(Kind k, StreamReader& reader);

using CaseFn = void (*)(Rng&);
struct Register {
  Register(const char* name, CaseFn fn);
};
}  // namespace drv
