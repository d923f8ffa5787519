// Futures (X04) and executors (X05).
#include "common.h"
#include "koladata/functor/parallel/context_guard.h"
#include "koladata/functor/parallel/future.h"
#include "koladata/functor/parallel/get_default_executor.h"
#include "koladata/functor/parallel/make_executor.h"

namespace drv {
namespace {

void Futures(Rng& r) {
  const Kind k = AnyKind(r);
  auto pair = MakeFuture(TypeOf(k));
  FuturePtr future = std::move(pair.first);
  auto writer = std::make_shared<FutureWriter>(std::move(pair.second));
  REQUIRE(future->value_qtype() == TypeOf(k) && writer->value_qtype() == TypeOf(k));
  const int how = r.Below(3);  // 0 value, 1 error, 2 dropped
  const uint64_t tag = 1 + r.Below(1000);
  const absl::Status error = SomeError(tag);
  std::atomic<bool> set_began{false}, set_done{false};
  struct Got { std::atomic<int> calls{0}; };
  std::vector<std::shared_ptr<Got>> got;
  auto check = [&](const absl::StatusOr<TypedValue>& v) {
    REQUIRE(set_began.load(), "a consumer was called before the value was set");
    if (how == 0) {
      REQUIRE(v.ok(), "an error instead of the value: ", v.status().ToString());
      const uint64_t t = TagOf(k, v->AsRef());
      REQUIRE(k == Kind::kEmpty || t == tag, "another value than the one set");
    } else if (how == 1) {
      REQUIRE(!v.ok() && SameStatus(v.status(), error), "another status than the one set");
    } else {
      REQUIRE(!v.ok() && v.status().code() == absl::StatusCode::kCancelled, "a dropped future does not report it");
    }
  };
  auto peek = [&]() -> bool {
    const bool done = set_done.load();
    auto p = future->PeekValue();
    REQUIRE(p.has_value() || !done, "the value was set, but it cannot be seen");
    if (!p.has_value()) return false;
    if (p->ok()) check(TypedValue((**p).AsRef())); else check(p->status());
    return true;
  };
  const int nt = 1 + r.Below(3);
  for (int t = 0; t < nt; ++t) {
    const int nc = 1 + r.Below(3);
    std::vector<std::shared_ptr<Got>> mine;
    for (int c = 0; c < nc; ++c) { mine.push_back(std::make_shared<Got>()); got.push_back(mine.back()); }
    const int deep = r.Below(3);
    std::shared_ptr<Got> inner;
    if (deep == 1) { inner = std::make_shared<Got>(); got.push_back(inner); }
    vs::Spawn([&, mine, inner, deep] {
      for (auto& g : mine) {
        const bool done = set_done.load();
        future->AddConsumer([&, g, inner, deep, first = g == mine[0], w = Tracked(1)](absl::StatusOr<TypedValue> v) {
          ++g->calls;
          check(v);
          if (deep == 1 && first) {
            // The future can be used from within a consumer.
            future->AddConsumer([&, inner](absl::StatusOr<TypedValue> v) { ++inner->calls; check(v); });
            REQUIRE(inner->calls.load() == 1, "the value is there, but the consumer was not called");
          }
          if (deep == 2) REQUIRE(peek(), "a consumer was called, but the value cannot be seen");
        });
        REQUIRE(!done || g->calls.load() == 1, "the value is there, but the consumer was not called");
      }
    });
  }
  const int np = r.Below(3);
  for (int p = 0; p < np; ++p) {
    vs::Spawn([&] {
      bool was = false;
      for (int i = 0; i < 6; ++i) {
        const bool now = peek();
        REQUIRE(now || !was, "the value is gone again");
        was = now;
      }
    });
  }
  const int ns = r.Below(3);
  std::vector<Read> reads(ns);
  for (int s = 0; s < ns; ++s) {
    vs::Spawn([&, s] { auto st = StreamFromFuture(future); reads[s] = ReadAll(k, st); });
  }
  const bool moved = r.P(1, 2);
  vs::Spawn([&, w = std::move(writer), moved]() mutable {
    if (moved) {  // a writer that was moved from sets nothing
      auto w2 = std::make_shared<FutureWriter>(std::move(*w));
      w.reset();
      w = std::move(w2);
    }
    auto v = absl::StatusOr<TypedValue>(error);
    if (how == 0) v = MakeValue(k, tag);
    set_began.store(true);
    if (how != 2) std::move(*w).SetValue(std::move(v));
    else w.reset();
    set_done.store(true);
  });
  vs::End();
  for (auto& g : got) REQUIRE(g->calls.load() == 1, "a consumer was called ", g->calls.load(), " times");
  REQUIRE(peek());
  for (auto& rd : reads) {
    if (how == 0) {
      REQUIRE(rd.status.ok() && rd.tags.size() == 1, "a stream of a future: ", rd.tags.size(), " values, ", rd.status.ToString());
      REQUIRE(k == Kind::kEmpty || rd.tags[0] == tag);
    } else {
      REQUIRE(rd.tags.empty() && !rd.status.ok());
      if (how == 1) REQUIRE(SameStatus(rd.status, error), rd.status.ToString());
    }
  }
  Count("consumers", got.size());
  Count(how == 0 ? "values" : how == 1 ? "errors" : "dropped");
  std::weak_ptr<Future> weak = future;
  future.reset();
  REQUIRE(weak.expired(), "the future outlives everybody who knew it");
}

thread_local std::vector<int> tl_guards;
struct SmallGuard {
  int id;
  explicit SmallGuard(int id) : id(id) { tl_guards.push_back(id); }
  ~SmallGuard() {
    REQUIRE(!tl_guards.empty() && tl_guards.back() == id, "context guards end in another order");
    tl_guards.pop_back();
  }
};
struct LargeGuard : SmallGuard {
  uint64_t body[16];
  Tracked t{9};
  explicit LargeGuard(int id) : SmallGuard(id) { for (auto& b : body) b = id; }
  ~LargeGuard() { for (auto b : body) REQUIRE(b == static_cast<uint64_t>(id), "a context guard was overwritten"); }
};

void Tasks(Rng& r) {
  AnyExecutor ax = MakeAnyExecutor(r, true);
  const int depth = r.Below(3);
  ExecutorPtr ex = ax.ex;
  std::vector<ExecutorPtr> chain{ex};
  for (int d = 0; d < depth; ++d) {
    const bool large = r.P(1, 2), none = r.P(1, 4);
    Executor::ContextGuardInitializer init;
    if (none) init = [](ContextGuard&) {};
    else if (large) init = [d](ContextGuard& g) { g.init<LargeGuard>(d); };
    else init = [d](ContextGuard& g) { g.init<SmallGuard>(d); };
    ex = std::make_shared<DerivedExecutor>(ex, std::move(init));
    chain.push_back(ex);
  }
  struct Flags { std::vector<int> expected; };
  // Which guards a task must see: recorded by a probe on this thread's pattern.
  std::atomic<int> runs{0};
  struct Task { std::atomic<int> ran{0}; std::atomic<int> alive{0}; };
  const int ns = 1 + r.Below(3);
  std::vector<std::shared_ptr<Task>> tasks;
  std::atomic<int> pending_children{0};
  for (int s = 0; s < ns; ++s) {
    const int n = 1 + r.Below(4);
    std::vector<std::shared_ptr<Task>> mine;
    std::vector<std::shared_ptr<Task>> kids;
    for (int i = 0; i < n; ++i) {
      mine.push_back(std::make_shared<Task>());
      tasks.push_back(mine.back());
      kids.push_back(r.P(1, 3) ? std::make_shared<Task>() : nullptr);
      if (kids.back()) tasks.push_back(kids.back());
    }
    const int level = r.Below(depth + 1);
    const int act = r.Below(4);
    vs::Spawn([&, mine, kids, level, act] {
      ExecutorPtr on = chain[level];
      for (size_t i = 0; i < mine.size(); ++i) {
        auto body = [&, on, level, act, t = mine[i], kid = kids[i], w = Tracked(4)] {
          const size_t before = tl_guards.size();
          (void)before;
          REQUIRE(++t->ran == 1, "a task ran twice");
          ++runs;
          REQUIRE(IsExecutorTask(), "a task does not know that it is one");
          auto cur = CurrentExecutor();
          REQUIRE(cur.ok() && cur->get() == on.get(), "a task runs on another executor than the one it was given to");
          REQUIRE(CurrentExecutorScopeGuard::current_executor() == on.get());
          for (size_t g = 1; g < tl_guards.size(); ++g) {
            REQUIRE(act == 3 || tl_guards[g] != tl_guards[g - 1] , "a context guard was set up twice");
          }
          vs::Point();
          if (act == 1) {
            CurrentExecutorScopeGuard guard(GetEagerExecutor());
            REQUIRE(CurrentExecutorScopeGuard::current_executor() == GetEagerExecutor().get());
            REQUIRE(IsExecutorTask());
            {
              CurrentExecutorScopeGuard none(nullptr);
              REQUIRE(!CurrentExecutor().ok(), "there is an executor where none was set");
            }
            REQUIRE(CurrentExecutorScopeGuard::current_executor() == GetEagerExecutor().get(), "the executor was not restored");
          }
          if (act == 2) {
            int inner = 0;
            GetEagerExecutor()->Schedule([&] {
              ++inner;
              REQUIRE(CurrentExecutorScopeGuard::current_executor() == GetEagerExecutor().get());
            });
            REQUIRE(inner == 1, "the eager executor did not run the task at once");
          }
          REQUIRE(CurrentExecutorScopeGuard::current_executor() == on.get(), "the executor was not restored");
          if (kid) {
            on->Schedule([&, on, kid, w = Tracked(5)] {
              REQUIRE(++kid->ran == 1, "a task ran twice");
              ++runs;
              REQUIRE(CurrentExecutorScopeGuard::current_executor() == on.get());
            });
            REQUIRE(CurrentExecutorScopeGuard::current_executor() == on.get(), "the executor was not restored");
          }
        };
        on->Schedule(std::move(body));
        REQUIRE(ax.kind == "pool" || ax.kind == "asio" || ax.kind == "derived" || mine[i]->ran.load() == 1,
                "the eager executor did not run the task at once");
        REQUIRE(!IsExecutorTask() && CurrentExecutorScopeGuard::current_executor() == nullptr,
                "a thread that schedules became a task");
        REQUIRE(tl_guards.empty(), "a context guard outlives its task");
      }
    });
  }
  // The tasks' threads are still there; the schedulers' end first.
  uint64_t total = tasks.size();
  auto all_ran = [&] { return static_cast<uint64_t>(runs.load()) >= total; };
  if (!ax.drops) vs::Wait(all_ran, "the tasks");
  vs::WaitQuiet(ax.idle, "idle");
  if (ax.drops) { ax.stop(); vs::End(); }
  vs::WaitQuiet(ax.idle, "idle");
  for (auto& t : tasks) REQUIRE(t->ran.load() == 1 || (ax.drops && t->ran.load() == 0), "a task ran ", t->ran.load(), " times");
  Count("tasks", runs.load());
  ax.stop();
  vs::End();
}

// Guards of derived executors: set up from the base outwards, alive during the
// task, ended in reverse.
void Guards(Rng& r) {
  AnyExecutor ax = MakeAnyExecutor(r, false);
  const int depth = 1 + r.Below(4);
  ExecutorPtr ex = ax.ex;
  std::vector<std::vector<int>> expected{{}};
  for (int d = 0; d < depth; ++d) {
    const int kind = r.Below(3);
    auto e = expected.back();
    if (kind == 0) ex = std::make_shared<DerivedExecutor>(ex, [](ContextGuard&) {});
    if (kind == 1) ex = std::make_shared<DerivedExecutor>(ex, [d](ContextGuard& g) { g.init<LargeGuard>(d); });
    if (kind == 2) ex = std::make_shared<DerivedExecutor>(ex, [d](ContextGuard& g) { g.init<SmallGuard>(d); });
    if (kind) e.push_back(d);
    expected.push_back(e);
  }
  const int inner_extra = ax.kind == "derived" ? 1 : 0;
  const std::string base = ax.kind == "eager" ? "eager_executor" : ax.kind == "asio" ? "counting" : "pool";
  REQUIRE(ex->Repr() == absl::StrCat("derived_executor[", base, ", ", depth + inner_extra, "]"), ex->Repr());
  std::atomic<int> ran{0};
  const int n = 1 + r.Below(4);
  const bool nested = r.P(1, 2);
  for (int i = 0; i < n; ++i) {
    ex->Schedule([&, want = expected.back(), w = Tracked(6)] {
      REQUIRE(tl_guards == want, "a task does not run within the contexts of its executor");
      vs::Point();
      if (nested) {
        GetEagerExecutor()->Schedule([&] { REQUIRE(tl_guards == want); });
        REQUIRE(tl_guards == want);
      }
      ++ran;
    });
  }
  vs::Wait([&] { return ran.load() == n; }, "the tasks");
  vs::WaitQuiet(ax.idle, "idle");
  REQUIRE(tl_guards.empty(), "a context guard outlives its task");
  std::weak_ptr<Executor> weak = ex;
  ex.reset();
  Count("guarded", n);
  ax.stop();
  vs::End();
  if (ax.kind != "asio") REQUIRE(weak.expired(), "an executor outlives its tasks");
}

#ifndef VS_CONTROLLED
void RealPool(Rng& r) {
  const int n = 1 + r.Below(4), tasks = 4 + r.Below(20);
  std::atomic<int> now{0}, peak{0}, ran{0}, met{0}, passed{0};
  std::weak_ptr<Executor> weak;
  {
    ExecutorPtr ex = MakeExecutor(n);
    weak = ex;
    // n tasks that wait for each other can only end if n run at once.
    for (int i = 0; i < n; ++i) {
      ex->Schedule([&, w = Tracked(1)] {
        ++met;
        while (met.load() < n) vs::Point();
        ++passed;
      });
    }
    for (int i = 0; i < tasks; ++i) {
      ex->Schedule([&, w = Tracked(2)] {
        const int c = ++now;
        int p = peak.load();
        while (p < c && !peak.compare_exchange_weak(p, c)) {}
        vs::Point();
        --now;
        ++ran;
      });
    }
    if (r.P(1, 2)) ex.reset();  // the tasks keep it
    vs::Wait([&] { return ran.load() == tasks && passed.load() == n; }, "the tasks");
  }
  REQUIRE(peak.load() <= n, peak.load(), " tasks at once on ", n, " threads");
  vs::Wait([&] { return weak.expired() && Tracked::live.load() == 0; }, "the executor to go");
  Count("real_pools");
}
#endif

void Defaults(Rng& r) {
  REQUIRE(!CurrentExecutor().ok());
#ifndef VS_CONTROLLED
  {
    ProvideDefaultCurrentExecutorScopeGuard g;
    REQUIRE(CurrentExecutorScopeGuard::current_executor() == GetDefaultExecutor().get());
    REQUIRE(!IsExecutorTask());
  }
  REQUIRE(!CurrentExecutor().ok(), "the default executor stays after its scope");
#endif
  {
    CurrentExecutorScopeGuard e(GetEagerExecutor());
    ProvideDefaultCurrentExecutorScopeGuard g;
    REQUIRE(CurrentExecutorScopeGuard::current_executor() == GetEagerExecutor().get(), "the default replaced an executor that was set");
  }
  REQUIRE(!CurrentExecutor().ok());
  Count("defaults");
}

void Executors(Rng& r) {
  switch (r.Below(8)) {
    case 0: return Defaults(r);
#ifndef VS_CONTROLLED
    case 1: return RealPool(r);
#endif
    case 2:
    case 3:
    case 4: return Guards(r);
    default: return Tasks(r);
  }
}
Register r4("X04", Futures), r5("X05", Executors);
}  // namespace
}  // namespace drv
