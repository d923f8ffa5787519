source /verif/tools/seedlib.sh
source /verif/tools/cseedlib.sh
D=koladata/functor/parallel
CORE="$D/stream.cc $D/executor.cc $D/eager_executor.cc"
PRE='#include <cstdio>
#include <cstdlib>
#include <thread>
#include <random>
#include <chrono>
#include "arolla/mini.h"
#include "koladata/functor/parallel/stream.h"
#include "koladata/functor/parallel/executor.h"
#include "koladata/functor/parallel/eager_executor.h"
using namespace koladata::functor::parallel;
using arolla::TypedRef; using arolla::TypedValue;
static bool jitter = false;
namespace vs { void Point() {
  if (!jitter) return;
  thread_local std::minstd_rand r(std::hash<std::thread::id>()(std::this_thread::get_id()));
  if (r() % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(r() % 60));
} }
#define NEED(c) do { if (!(c)) { std::printf("line %d: %s\n", __LINE__, #c); std::fflush(stdout); _Exit(1); } } while (0)
inline TypedValue V(int i) { return TypedValue::FromValue(static_cast<int32_t>(i)); }
inline arolla::QTypePtr I() { return arolla::GetQType<int32_t>(); }
inline int N(TypedRef r) { return r.UnsafeAs<int32_t>(); }
'
main() { local id="$1" src="$2" fl="$3"; { printf '%s' "$PRE"; cat; } | cdemo "$id" "$src" "$fl"; }

mk x01a X01 "a reader that has read all of a partly filled chunk and comes back only after the writer has filled it and begun the next" "the reader moves to the next chunk when it has read what it knew of, so values written meanwhile to the rest of the chunk are skipped" <<J
{"$D/stream.cc": [["  if (offset_ == chunk_->capacity() &&\n", "  if (offset_ == known_size_ &&\n"]]}
J
main x01a "$CORE" "" <<'C'
int main() {
  auto [s, w] = MakeStream(I(), 4);
  auto r = s->MakeReader();
  w->Write(V(0).AsRef()); w->Write(V(1).AsRef());
  NEED(N(*r->TryRead().item()) == 0); NEED(N(*r->TryRead().item()) == 1);
  for (int i = 2; i < 8; ++i) w->Write(V(i).AsRef());
  for (int i = 2; i < 8; ++i) { auto t = r->TryRead(); NEED(t.item() && N(*t.item()) == i); }
}
C
mk x02a X02 "a write or close between a reader's check for news and its registration" "the check for unread values is made in a critical section of its own, so the callback is registered after the event it waits for and never called" <<J
{"$D/stream.cc": [["      if (offset_ == known_size_) {\n        stream_->callbacks_.push_back(std::move(callback));\n        return;\n      }\n    }\n  }\n  std::move(callback)();\n", "      if (offset_ == known_size_) {\n        nothing_new = true;\n      }\n    }\n  }\n  if (nothing_new) {\n    absl::MutexLock lock(stream_->mutex_);\n    stream_->callbacks_.push_back(std::move(callback));\n    return;\n  }\n  std::move(callback)();\n"], ["    absl::AnyInvocable<void() &&>&& callback) {\n  {\n", "    absl::AnyInvocable<void() &&>&& callback) {\n  bool nothing_new = false;\n  {\n"]]}
J
main x02a "$CORE" "" <<'C'
int main() {
  jitter = true;
  for (int round = 0; round < 4000; ++round) {
    auto [s, w] = MakeStream(I(), 1);
    std::atomic<int> called{0};
    auto r = s->MakeReader();
    std::thread a([&, &w = w] { std::move(*w).Close(); });
    std::thread b([&] { r->SubscribeOnce([&] { ++called; }); });
    a.join(); b.join();
    NEED(called == 1);
  }
}
C
mk x02b X02 "a subscription that falls between two steps of a close" "closing takes the callbacks before it sets the status, so a callback registered in between is never called" <<J
{"$D/stream.cc": [["    status_.emplace(std::move(status));\n    callbacks_.swap(callbacks);\n", "    callbacks_.swap(callbacks);\n  }\n  {\n    absl::MutexLock lock(mutex_);\n    status_.emplace(std::move(status));\n"]]}
J
main x02b "$CORE" "" <<'C'
int main() {
  jitter = true;
  for (int round = 0; round < 4000; ++round) {
    auto [s, w] = MakeStream(I(), 1);
    std::atomic<int> called{0};
    auto r = s->MakeReader();
    std::thread a([&, &w = w] { std::move(*w).Close(); });
    std::thread b([&] { r->SubscribeOnce([&] { ++called; }); });
    a.join(); b.join();
    NEED(called == 1);
  }
}
C
mk x03a X03 "a reader that waits for news and is dropped, with the stream, before any come" "a waiting callback keeps the stream alive, so the writer never learns that nobody can read it any more" <<J
{"$D/stream.cc": [["        stream_->callbacks_.push_back(std::move(callback));\n", "        stream_->callbacks_.push_back(\n            [stream = stream_, callback = std::move(callback)]() mutable {\n              std::move(callback)();\n            });\n"]]}
J
main x03a "$CORE" "" <<'C'
int main() {
  auto [s, w] = MakeStream(I(), 1);
  auto r = s->MakeReader();
  r->SubscribeOnce([] {});
  r.reset(); s.reset();
  NEED(w->Orphaned());
}
C
mk x04a X04 "a value that is set between a consumer's check and its registration" "a consumer is registered in a second critical section, after the check whether the value is there, and is never called if it was set in between" <<J
{"$D/future.cc": [["    if (!value_) {\n      consumers_.push_back(std::move(consumer));\n      return;\n    }\n    value = value_;\n  }\n", "    value = value_;\n  }\n  if (!value) {\n    absl::MutexLock l(lock_);\n    consumers_.push_back(std::move(consumer));\n    return;\n  }\n"]]}
J
main x04a "$CORE $D/future.cc" "" <<'C'
#include "koladata/functor/parallel/future.h"
int main() {
  jitter = true;
  for (int round = 0; round < 4000; ++round) {
    auto [f, w] = MakeFuture(I());
    std::atomic<int> called{0};
    std::thread a([&, &w = w] { std::move(w).SetValue(V(1)); });
    std::thread b([&, &f = f] { f->AddConsumer([&](absl::StatusOr<TypedValue>) { ++called; }); });
    a.join(); b.join();
    NEED(called == 1);
  }
}
C
mk x04b X04 "a consumer that uses the future again (adds another consumer or looks at the value) while it is told of the value" "the value is stored only after the consumers were called, so a consumer added meanwhile is lost" <<J
{"$D/future.cc": [["    value_ = value;\n    consumers.swap(consumers_);\n  }\n  for (auto& consumer : consumers) {\n    // Important to not call this while holding the lock.\n    std::move(consumer)(value);\n  }\n", "    consumers.swap(consumers_);\n  }\n  for (auto& consumer : consumers) {\n    // Important to not call this while holding the lock.\n    std::move(consumer)(value);\n  }\n  absl::MutexLock l(lock_);\n  value_ = std::move(value);\n"]]}
J
main x04b "$CORE $D/future.cc" "" <<'C'
#include "koladata/functor/parallel/future.h"
int main() {
  auto [f0, w] = MakeFuture(I());
  FuturePtr f = f0;
  int outer = 0, inner = 0;
  f->AddConsumer([&](absl::StatusOr<TypedValue>) {
    ++outer;
    f->AddConsumer([&](absl::StatusOr<TypedValue> v) { ++inner; NEED(v.ok() && N(v->AsRef()) == 1); });
  });
  std::move(w).SetValue(V(1));
  NEED(outer == 1 && inner == 1);
}
C
mk x05a X05 "a task that runs another task in place (the eager executor), and asks for its executor afterwards" "the executor of the outer task is not restored after a task that ran in place" <<J
{"$D/executor.h": [["    data = previous_data;\n", "    data = {.current_executor = nullptr,\n            .is_executor_task = previous_data.is_executor_task};\n"]]}
J
main x05a "$CORE" "" <<'C'
struct Now final : Executor {
  std::string Repr() const noexcept final { return "now"; }
  void DoSchedule(TaskFn t) noexcept final { std::move(t)(); }
};
int main() {
  auto ex = std::make_shared<Now>();
  bool ran = false;
  ex->Schedule([&] {
    GetEagerExecutor()->Schedule([&] { NEED(CurrentExecutor().ok()); });
    auto c = CurrentExecutor();
    NEED(c.ok() && c->get() == ex.get());
    ran = true;
  });
  NEED(ran);
}
C
mk x05b X05 "an executor derived from a derived executor, with a context guard that is too large for the buffer of the guard" "large context guards are destroyed without being owned: the guard's memory is given back, but its destructor does not run" <<J
{"$D/context_guard.h": [["      init<std::unique_ptr<T>>(new T(std::forward<Args>(args)...));\n", "      init<std::unique_ptr<char[]>>(reinterpret_cast<char*>(\n          new (::operator new[](sizeof(T))) T(std::forward<Args>(args)...)));\n"]]}
J
main x05b "$CORE $D/derived_executor.cc" "" <<'C'
#include "koladata/functor/parallel/derived_executor.h"
int live = 0;
struct Large { char b[100]; Large() { ++live; } ~Large() { --live; } };
int main() {
  ExecutorPtr a = std::make_shared<DerivedExecutor>(GetEagerExecutor(), [](ContextGuard& g) { g.init<Large>(); });
  ExecutorPtr b = std::make_shared<DerivedExecutor>(a, [](ContextGuard& g) { g.init<Large>(); });
  int seen = 0;
  b->Schedule([&] { seen = live; });
  NEED(seen == 2 && live == 0);
}
C
mk x06a X06 "an input added to a chain at the moment when the previous one has been read to its end" "the finished input is removed and the emptiness of the queue tested in two critical sections, so two threads process the same input" <<J
{"$D/stream_composition.cc": [["        pending_inputs_.pop();\n        if (pending_inputs_.empty()) {\n          return;\n", "        pending_inputs_.pop();\n      }\n      {\n        absl::MutexLock lock(mutex_);\n        if (pending_inputs_.empty()) {\n          return;\n"]]}
J
main x06a "$CORE $D/stream_composition.cc" "-fsanitize=thread" <<'C'
#include "koladata/functor/parallel/stream_composition.h"
int main() {
  jitter = true;
  for (int round = 0; round < 1500; ++round) {
    auto [out, ow] = MakeStream(I(), 1);
    const int n = 4;
    {
      StreamChain c(std::move(ow));
      std::vector<StreamPtr> ss;
      for (int i = 0; i < n; ++i) { auto [s, w] = MakeStream(I(), 1); w->Write(V(i).AsRef()); std::move(*w).Close(); ss.push_back(s); }
      std::thread a([&] { for (int i = 0; i < n; i += 2) c.Add(ss[i]); });
      std::thread b([&] { for (int i = 1; i < n; i += 2) c.Add(ss[i]); });
      a.join(); b.join();
    }
    bool seen[n] = {};
    auto r = out->MakeReader();
    for (int i = 0; i < n; ++i) { auto t = r->TryRead(); NEED(t.item() && !seen[N(*t.item())]); seen[N(*t.item())] = true; }
    auto t = r->TryRead();
    NEED(t.close_status() && t.close_status()->ok());
  }
}
C
mk x06b X06 "an error that is added to a chain while an earlier input is still open" "the error closes the chain at once, and the values of the earlier inputs that come later are lost" <<J
{"$D/stream_composition.cc": [["      auto [stream, writer] = MakeStream(writer_->value_qtype());\n      std::move(*writer).Close(std::move(status));\n      AddInput(stream->MakeReader());\n", "      absl::MutexLock lock(mutex_);\n      if (!error_reported_ && pending_inputs_.size() <= 1) {\n        error_reported_ = true;\n        pending_inputs_ = {};\n        writer_->TryClose(std::move(status));\n      } else if (!error_reported_) {\n        auto [stream, writer] = MakeStream(writer_->value_qtype());\n        std::move(*writer).Close(std::move(status));\n        pending_inputs_.push(stream->MakeReader());\n      }\n"]]}
J
main x06b "$CORE $D/stream_composition.cc" "" <<'C'
#include "koladata/functor/parallel/stream_composition.h"
int main() {
  auto [out, ow] = MakeStream(I(), 1);
  auto [s, w] = MakeStream(I(), 1);
  auto r = out->MakeReader();
  {
    StreamChain c(std::move(ow));
    c.Add(s);
    c.AddError(absl::InternalError("later"));
    auto t = r->TryRead();
    NEED(!t.item() && !t.close_status());
  }
  w->Write(V(7).AsRef());
  std::move(*w).Close();
  auto t = r->TryRead();
  NEED(t.item() && N(*t.item()) == 7);
  t = r->TryRead();
  NEED(t.close_status() && !t.close_status()->ok());
}
C
mk x07a X07 "two items that fail, of which the later one fails later, while an item before both is still being computed" "a failure behind one that is already known replaces it, so the output never ends with the first one" <<J
{"$D/stream_map.cc": [["    if (!Accepts(offset)) {\n      return;\n    }\n    DCHECK_LT(offset, final_offset_);\n    final_offset_ = offset;\n", "    final_offset_ = offset;\n"]]}
J
main x07a "$CORE $D/stream_map.cc" "" <<'C'
#include "koladata/functor/parallel/stream_map.h"
struct Later final : Executor {
  std::vector<TaskFn> q;
  std::string Repr() const noexcept final { return "later"; }
  void DoSchedule(TaskFn t) noexcept final { q.push_back(std::move(t)); }
};
int main() {
  auto ex = std::make_shared<Later>();
  auto [in, w] = MakeStream(I(), 1);
  for (int i = 0; i < 3; ++i) w->Write(V(i).AsRef());
  auto out = StreamMap(ex, in, I(), [&](TypedRef x) -> absl::StatusOr<TypedValue> {
    if (N(x) == 0) {
      // Item 1 fails first, then item 2, which has begun before.
      return V(10);
    }
    if (N(x) == 2) {
      auto t = std::move(ex->q[1]); ex->q[1] = nullptr;
      std::move(t)();
      return absl::InternalError("2");
    }
    return absl::InternalError("1");
  });
  std::move(*w).Close();
  for (int i : {2, 0}) { auto t = std::move(ex->q[i]); std::move(t)(); }
  for (size_t i = 3; i < ex->q.size(); ++i) { auto t = std::move(ex->q[i]); std::move(t)(); }
  auto r = out->MakeReader();
  auto t = r->TryRead();
  NEED(t.item() && N(*t.item()) == 10);
  t = r->TryRead();
  NEED(t.close_status() && t.close_status()->message() == "1");
}
C
mk x07b X07 "several threads that finish items of an unordered map at the same time" "the count of the items written is not atomic; when an increment is lost the output does not end properly" <<J
{"$D/stream_map.cc": [["  std::atomic<size_t> write_count_ = 0;\n", "  size_t write_count_ = 0;\n"]]}
J
main x07b "$CORE $D/stream_map.cc" "-fsanitize=thread" <<'C'
#include "koladata/functor/parallel/stream_map.h"
struct Threads final : Executor {
  std::vector<std::thread> ts;
  std::string Repr() const noexcept final { return "threads"; }
  void DoSchedule(TaskFn t) noexcept final { ts.emplace_back([t = std::move(t)]() mutable { std::move(t)(); }); }
};
int main() {
  for (int round = 0; round < 30; ++round) {
    auto ex = std::make_shared<Threads>();
    auto [in, w] = MakeStream(I(), 1);
    const int n = 8;
    for (int i = 0; i < n; ++i) w->Write(V(i).AsRef());
    std::move(*w).Close();
    auto out = StreamMapUnordered(ex, in, I(), [&](TypedRef x) -> absl::StatusOr<TypedValue> { return V(N(x)); });
    for (size_t i = 0; i < ex->ts.size(); ++i) ex->ts[i].join();
    ex->ts.clear();
    auto r = out->MakeReader();
    for (int i = 0; i < n; ++i) NEED(r->TryRead().item());
    auto t = r->TryRead();
    NEED(t.close_status() && t.close_status()->ok());
  }
}
C
mk x08a X08 "an input that ends with an error after items were reduced" "the value reduced so far comes out although the input failed" <<J
{"$D/stream_reduce.cc": [["      if (!status->ok() || writer_->TryWrite(value_.AsRef())) {\n", "      if (writer_->TryWrite(value_.AsRef())) {\n"]]}
J
main x08a "$CORE $D/basic_routine.cc $D/stream_reduce.cc" "" <<'C'
#include "koladata/functor/parallel/stream_reduce.h"
int main() {
  auto [in, w] = MakeStream(I(), 1);
  auto out = StreamReduce(GetEagerExecutor(), V(1), in, [](TypedRef a, TypedRef b) -> absl::StatusOr<TypedValue> { return V(N(a) + N(b)); });
  w->Write(V(2).AsRef());
  std::move(*w).Close(absl::InternalError("bad"));
  auto r = out->MakeReader();
  auto t = r->TryRead();
  NEED(!t.item() && t.close_status() && t.close_status()->message() == "bad");
}
C
mk x09a X09 "a body that updates different variables in different steps" "only the last update is kept alive, so variables that an earlier update set refer to freed memory" <<J
{"$D/stream_loop_internal.cc": [["    it->second.holder = update;\n", "    for (auto& [unused, index] : index_) {\n      index.holder = update;\n    }\n"]]}
J
LOOPS="$CORE $D/basic_routine.cc $D/future.cc $D/future_qtype.cc $D/stream_qtype.cc $D/stream_composition.cc $D/stream_loop_internal.cc $D/stream_for.cc $D/stream_call.cc"
LPRE='#include "koladata/functor/parallel/stream_for.h"
#include "koladata/functor/parallel/stream_call.h"
#include "koladata/functor/parallel/stream_qtype.h"
inline TypedValue NT(std::vector<std::string> names, std::vector<TypedValue> vs) {
  std::vector<TypedRef> r; for (auto& v : vs) r.push_back(v.AsRef());
  return arolla::MakeNamedTupleValue(names, r);
}
using Args = absl::Span<const TypedRef>; using Names = absl::Span<const std::string>;
using Res = absl::StatusOr<TypedValue>;
'
lmain() { local id="$1" fl="$2"; { printf '%s' "$LPRE"; cat; } | main "$id" "$LOOPS" "$fl"; }
lmain x09a "-fsanitize=address" <<'C'
int main() {
  auto [in, w] = MakeStream(I(), 1);
  for (int i = 0; i < 4; ++i) w->Write(V(i).AsRef());
  std::move(*w).Close();
  auto st = NT({"a"}, {V(100)}); auto init = V(5);
  auto out = StreamForReturns(GetEagerExecutor(), in, [](Args a, Names) -> Res {
    if (N(a[0]) == 0) return NT({"a"}, {V(200)});
    NEED(N(a[1]) == 200);
    return NT({"returns"}, {V(N(a[2]) + 1)});
  }, nullptr, nullptr, init.AsRef(), st.AsRef());
  auto r = (*out)->MakeReader();
  auto t = r->TryRead();
  NEED(t.item() && N(*t.item()) == 8);
}
C
mk x09b X09 "a loop whose body yields in one step and not in the next" "the marker for a value that was yielded is not put back, so the value comes out again after every later step" <<J
{"$D/stream_for.cc": [["      // Restore the initial \"yields\" value. This allows us to determine if it\n      // was updated next time.\n      yields = initial_yields_;\n", ""]]}
J
lmain x09b "" <<'C'
int main() {
  auto [in, w] = MakeStream(I(), 1);
  for (int i = 0; i < 4; ++i) w->Write(V(i).AsRef());
  std::move(*w).Close();
  auto st = NT({}, {}); auto init = V(5);
  auto out = StreamForYields(GetEagerExecutor(), in, [](Args a, Names) -> Res {
    if (N(a[0]) % 2) return NT({}, {});
    return NT({"y"}, {V(N(a[0]))});
  }, nullptr, nullptr, "y", init.AsRef(), st.AsRef());
  auto r = (*out)->MakeReader();
  for (int want : {5, 0, 2}) { auto t = r->TryRead(); NEED(t.item() && N(*t.item()) == want); }
  NEED(r->TryRead().close_status());
}
C
mk x10a X10 "an awaited stream that has its item but ends only later" "the call goes on as soon as the item is there, and an error or a second item that follows is not noticed" <<J
{"$D/stream_call.cc": [["        args_.push_back(*item);\n        try_read_result = reader->TryRead();\n", "        args_.push_back(*item);\n        try_read_result = reader->TryRead();\n        if (try_read_result.empty()) {\n          return nullptr;\n        }\n"]]}
J
lmain x10a "" <<'C'
int main() {
  auto [in, w] = MakeStream(I(), 1);
  auto q = MakeStreamQValue(in);
  bool called = false;
  std::vector<TypedRef> args{MakeStreamCallAwaitArg(q.AsRef())};
  auto out = StreamCall(GetEagerExecutor(), [&](Args a) -> Res { called = true; return V(1); }, I(), args);
  w->Write(V(1).AsRef());
  NEED(!called);
  std::move(*w).Close(absl::InternalError("bad"));
  NEED(!called);
  auto r = (*out)->MakeReader();
  auto t = r->TryRead();
  NEED(t.close_status() && t.close_status()->message() == "bad");
}
C
