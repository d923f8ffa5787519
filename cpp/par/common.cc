#include "common.h"

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>

#ifndef VS_CONTROLLED
#include "koladata/functor/parallel/asio_executor.h"
#endif

namespace drv {
std::atomic<int64_t> Tracked::live{0};
std::atomic<int64_t> Pool::live{0};

std::map<std::string, uint64_t>& Counts() {
  static auto* const m = new std::map<std::string, uint64_t>;
  return *m;
}
void Count(const char* name, uint64_t n) {
  vs::Critical c;
  Counts()[name] += n;
}

template <typename T>
static QTypePtr Simple(const char* name) {
  static const auto* const t = new arolla::SimpleQType(arolla::meta::type<T>(), name);
  return t;
}
QTypePtr TypeOf(Kind k) {
  static const auto* const empty = new arolla::QType("EMPTY", arolla::TypeLayout());
  switch (k) {
    case Kind::kInt: return arolla::GetQType<int32_t>();
    case Kind::kTracked: return Simple<Tracked>("TRACKED");
    case Kind::kBig: return Simple<Big>("BIG");
    case Kind::kMid: return Simple<Mid>("MID");
    case Kind::kEmpty: return empty;
  }
  return nullptr;
}
template <typename W>
static TypedValue Words(QTypePtr t, uint64_t tag) {
  W w;
  for (auto& x : w.w) x = tag;
  return *TypedValue::FromValueWithQType(w, t);
}
TypedValue MakeValue(Kind k, uint64_t tag) {
  switch (k) {
    case Kind::kInt: return TypedValue::FromValue(static_cast<int32_t>(tag));
    case Kind::kTracked: return *TypedValue::FromValueWithQType(Tracked(tag), TypeOf(k));
    case Kind::kBig: return Words<Big>(TypeOf(k), tag);
    case Kind::kMid: return Words<Mid>(TypeOf(k), tag);
    case Kind::kEmpty: return TypedValue::UnsafeFromTypeDefaultConstructed(TypeOf(k));
  }
  std::abort();
}
template <typename W>
static uint64_t WordsTag(TypedRef ref) {
  const W& w = ref.UnsafeAs<W>();
  for (auto x : w.w) REQUIRE(x == w.w[0], "a value read from the stream is torn");
  return w.w[0];
}
uint64_t TagOf(Kind k, TypedRef ref) {
  REQUIRE(ref.GetType() == TypeOf(k), "a value of type ", ref.GetType()->name(), " came out of the stream");
  switch (k) {
    case Kind::kInt: return static_cast<uint32_t>(ref.UnsafeAs<int32_t>());
    case Kind::kTracked: return ref.UnsafeAs<Tracked>().tag();
    case Kind::kBig: return WordsTag<Big>(ref);
    case Kind::kMid: return WordsTag<Mid>(ref);
    case Kind::kEmpty: return 0;
  }
  return 0;
}
Kind AnyKind(Rng& r) {
  return r.Of({Kind::kInt, Kind::kTracked, Kind::kTracked, Kind::kBig, Kind::kBig, Kind::kMid, Kind::kMid, Kind::kEmpty});
}

// ------------------------------------------------------------------- pools
struct Pool::Shared {
  std::deque<Executor::TaskFn> queue;
  uint64_t scheduled = 0, dropped = 0;
  int running = 0;
  bool stop = false;
};
std::shared_ptr<Pool::Shared> Pool::MakeShared() {
  live.fetch_add(1);
  return std::make_shared<Shared>();
}
void Pool::DoSchedule(TaskFn task) noexcept {
  bool drop;
  {
    vs::Critical c;
    drop = ++shared->scheduled > drop_after_ || shared->stop;
    if (!drop) shared->queue.push_back(std::move(task));
    else ++shared->dropped;
  }
  if (!drop) vs::Point();
}
void Pool::Start(int workers) {
  for (int i = 0; i < workers; ++i) {
    vs::Spawn([s = shared, fifo = fifo_, r = Rng{r_.Next()}]() mutable {
      for (;;) {
        vs::Wait([&] { vs::Critical c; return s->stop || !s->queue.empty(); }, "worker", true);
        TaskFn task;
        {
          vs::Critical c;
          if (s->queue.empty()) {
            if (s->stop) return;
            continue;
          }
          auto it = s->queue.begin() + (fifo ? 0 : r.Below(s->queue.size()));
          task = std::move(*it);
          s->queue.erase(it);
          ++s->running;
        }
        vs::Point();
        std::move(task)();
        task = nullptr;
        vs::Critical c;
        --s->running;
      }
    });
  }
}
void Pool::Stop() {
  vs::Critical c;
  shared->stop = true;
}
bool Pool::Idle() const {
  vs::Critical c;
  return shared->queue.empty() && shared->running == 0;
}
uint64_t Pool::Dropped() const {
  vs::Critical c;
  return shared->dropped;
}

void Counting::DoSchedule(TaskFn task) noexcept {
  struct Token {
    std::shared_ptr<std::atomic<int64_t>> n;
    explicit Token(std::shared_ptr<std::atomic<int64_t>> n) : n(std::move(n)) { this->n->fetch_add(1); }
    Token(Token&& o) noexcept = default;
    ~Token() { if (n) n->fetch_sub(1); }
  };
  base_->Schedule([token = Token(pending_), task = std::move(task)]() mutable {
    {
      auto t = std::move(task);
      std::move(t)();
    }
  });
}

AnyExecutor MakeAnyExecutor(Rng& r, bool may_drop) {
  AnyExecutor a;
  uint64_t k = r.Below(10);
  if (k < 2) {
    a.ex = GetEagerExecutor();
    a.kind = "eager";
    Count("executor_eager");
    return a;
  }
#ifndef VS_CONTROLLED
  if (k < 6) {
    static ExecutorPtr* const pools[] = {new ExecutorPtr(MakeAsioExecutor(1)), new ExecutorPtr(MakeAsioExecutor(2)),
                                         new ExecutorPtr(MakeAsioExecutor(4))};
    auto c = std::make_shared<Counting>(*pools[r.Below(3)]);
    a.ex = c;
    a.kind = "asio";
    a.idle = [p = c.get(), c] { return p->Idle(); };
    Count("executor_asio");
    return a;
  }
#endif
  const bool drop = may_drop && r.P(1, 6);
  auto p = std::make_shared<Pool>(Rng{r.Next()}, r.P(1, 2), drop ? r.Below(12) : ~0ull);
  p->Start(1 + r.Below(3));
  a.ex = p;
  a.kind = "pool";
  a.drops = drop;
  Pool* raw = p.get();
  auto shared = p->shared;
  (void)raw;
  a.idle = [shared] { vs::Critical c; return shared->queue.empty() && shared->running == 0; };
  a.stop = [shared] { vs::Critical c; shared->stop = true; };
  if (k == 9) {
    a.ex = std::make_shared<DerivedExecutor>(a.ex, [](ContextGuard&) {});
    a.kind = "derived";
    Count("executor_derived");
  } else {
    Count(drop ? "executor_dropping" : "executor_pool");
  }
  return a;
}

absl::Status SomeError(uint64_t tag) {
  const std::string m = absl::StrCat("error ", tag);
  switch (tag % 4) {
    case 0: return absl::InvalidArgumentError(m);
    case 1: return absl::CancelledError(m);
    case 2: return absl::InternalError(m);
    default: return absl::UnavailableError(m);
  }
}
bool SameStatus(const absl::Status& a, const absl::Status& b) { return a == b; }

Read ReadNow(Kind k, StreamReader& reader) {
  Read res;
  for (;;) {
    auto t = reader.TryRead();
    if (auto* item = t.item()) {
      res.tags.push_back(TagOf(k, *item));
    } else if (auto* st = t.close_status()) {
      res.status = *st;
      res.closed = true;
      return res;
    } else {
      return res;
    }
  }
}
Read ReadAll(Kind k, const StreamPtr& s) {
  auto reader = s->MakeReader();
  Read all;
  for (;;) {
    Read now = ReadNow(k, *reader);
    all.tags.insert(all.tags.end(), now.tags.begin(), now.tags.end());
    if (now.closed) {
      all.closed = true;
      all.status = now.status;
      return all;
    }
    auto flag = std::make_shared<std::atomic<bool>>(false);
    reader->SubscribeOnce([flag] { flag->store(true); });
    vs::Wait([&] { return flag->load(); }, "the callback of a reader");
  }
}

namespace {
std::map<std::string, CaseFn>& Cases() {
  static auto* const m = new std::map<std::string, CaseFn>;
  return *m;
}
}  // namespace
Register::Register(const char* name, CaseFn fn) { Cases()[name] = fn; }
}  // namespace drv

// CASE SEED FIRST STEP COUNT SECONDS: runs cases FIRST, FIRST+STEP, ...
int main(int argc, char** argv) {
  using namespace drv;
  if (argc < 7 || !Cases().count(argv[1])) {
    std::fprintf(stderr, "usage: CASE SEED FIRST STEP COUNT SECONDS\n");
    return 2;
  }
  const std::string name = argv[1];
  CaseFn fn = Cases()[name];
  const uint64_t seed = std::strtoull(argv[2], nullptr, 10), first = std::strtoull(argv[3], nullptr, 10),
                 step = std::strtoull(argv[4], nullptr, 10), count = std::strtoull(argv[5], nullptr, 10);
  const double seconds = std::atof(argv[6]);
  const auto start = std::chrono::steady_clock::now();
  std::set<uint64_t> schedules;
  uint64_t done = 0;
  vs::SetCase(name, seed, 0);
  // Function-local statics are set up before any schedule is controlled.
  (void)GetEagerExecutor();
  for (int k = 0; k < 5; ++k) {
    Kind kind = static_cast<Kind>(k);
    auto [s, w] = MakeStream(TypeOf(kind));
    (void)s->MakeReader();
    (void)MakeValue(kind, 1);
  }
  { absl::Status a = absl::InternalError("x"), b = std::move(a); }
  (void)arolla::GetUnspecifiedQValue();
  for (uint64_t i = first; done < count; i += step, ++done) {
    if (done && std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > seconds) break;
    vs::SetCase(name, seed, i);
    Rng r{seed * 0x1000003 + i * 7919 + 17};
    r.Next();
    vs::Begin(r.Next());
    fn(r);
    vs::End();
    REQUIRE(Tracked::live.load() == 0, Tracked::live.load(), " values were never destroyed");
    REQUIRE(Pool::live.load() == 0, "an executor was never destroyed");
    REQUIRE(!IsExecutorTask(), "the main thread counts as a task");
    REQUIRE(!CurrentExecutor().ok(), "the main thread kept an executor");
    if (vs::ScheduleHash()) schedules.insert(vs::ScheduleHash());
  }
  std::printf("OK cases=%llu schedules=%llu switches=%llu edges=%llu edges_all=%llu", (unsigned long long)done,
              (unsigned long long)schedules.size(), (unsigned long long)vs::Switches(),
              (unsigned long long)vs::EdgesSeen(), (unsigned long long)vs::EdgesAll());
  for (auto& [k, v] : Counts()) std::printf(" n:%s=%llu", k.c_str(), (unsigned long long)v);
  std::printf("\n");
  std::fflush(stdout);
  _Exit(0);
}
