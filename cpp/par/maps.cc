// Mapping (X07) and reducing (X08) streams.
#include "common.h"
#include "koladata/functor/parallel/stream_map.h"
#include "koladata/functor/parallel/stream_reduce.h"

namespace drv {
namespace {

enum Act { kOk, kError, kWrongType };

struct World {
  Kind in_kind, out_kind;
  AnyExecutor ax;
  int n = 0;
  std::vector<Act> acts;
  absl::Status input_status;
  bool input_dropped = false;
  arolla::CancellationContextPtr ctx;
  absl::Status cancel_status;
  bool cancels = false;
  bool cancelled_before = false;
  int quit_after = -1;
  std::shared_ptr<StreamWriter> in_writer;
  StreamPtr in;
  std::vector<std::atomic<int>> calls;
  Read read;
  std::atomic<bool> read_done{false};

  World(Rng& r) : calls(200) {
    in_kind = r.Of({Kind::kInt, Kind::kTracked, Kind::kBig, Kind::kMid});
    out_kind = r.Of({Kind::kInt, Kind::kTracked, Kind::kBig, Kind::kMid});
    ax = MakeAnyExecutor(r, true);
    n = r.P(1, 10) ? 40 + r.Below(60) : r.Below(8);
    const bool errors = r.P(2, 5);
    for (int i = 0; i < n; ++i) acts.push_back(errors && r.P(1, std::max(2, n / 2)) ? (r.P(1, 3) ? kWrongType : kError) : kOk);
    const int e = r.Below(6);
    if (e == 0) input_status = SomeError(100000 + r.Below(4));
    if (e == 1) input_dropped = true;
    if (r.P(1, 2)) ctx = arolla::CancellationContext::Make();
    if (ctx && r.P(1, 2)) {
      cancels = true;
      cancel_status = absl::CancelledError("by the test");
      if (r.P(1, 6)) { cancelled_before = true; ctx->Cancel(cancel_status); }
    }
    if (r.P(1, 8)) quit_after = r.Below(4);
    auto [s, w] = MakeStream(TypeOf(in_kind), r.Below(3));
    in = std::move(s);
    in_writer = std::move(w);
  }
  void Check(TypedRef item, int* offset) {
    const uint64_t t = TagOf(in_kind, item);
    REQUIRE(t < static_cast<uint64_t>(n), "the functor got an item that is not in the input");
    *offset = t;
    vs::Point();
    const uint64_t again = TagOf(in_kind, item);
    REQUIRE(again == t, "the functor's item changed");
    auto cur = CurrentExecutor();
    REQUIRE(cur.ok() && cur->get() == ax.ex.get() && IsExecutorTask(), "the functor does not run on the executor");
    REQUIRE(arolla::CurrentCancellationContext() == ctx, "the functor does not run within the cancellation context");
  }
  void Feed() {
    vs::Spawn([this] {
      auto w = std::move(in_writer);
      for (int i = 0; i < n; ++i) {
        if (!w->TryWrite(MakeValue(in_kind, i).AsRef())) return;
      }
      if (!input_dropped) w->TryClose(input_status);
      w.reset();
    });
    if (cancels && !cancelled_before) vs::Spawn([this] { vs::Point(); vs::Point(); ctx->Cancel(cancel_status); });
  }
  void Collect(StreamPtr out) {
    REQUIRE(out->value_qtype() == TypeOf(out_kind), "the output has another type");
    vs::Spawn([this, out = std::move(out)]() mutable {
      auto reader = out->MakeReader();
      out.reset();
      while (static_cast<int>(read.tags.size()) != quit_after) {
        auto t = reader->TryRead();
        if (auto* item = t.item()) {
          read.tags.push_back(TagOf(out_kind, *item));
          continue;
        }
        if (auto* st = t.close_status()) {
          read.closed = true;
          read.status = *st;
          break;
        }
        auto flag = std::make_shared<std::atomic<bool>>(false);
        reader->SubscribeOnce([flag] { flag->store(true); });
        vs::Wait([&] { return flag->load(); }, "the callback of the reader of the output");
      }
      reader.reset();
      read_done = true;
    });
  }
  void Finish() {
    vs::Wait([&] { return read_done.load(); }, "the end of the output");
    in.reset();
    vs::WaitQuiet(ax.idle, "idle");
    ax.stop();
    vs::End();
    vs::WaitQuiet(ax.idle, "idle");
    ax = AnyExecutor();
  }
  bool SameAsInput(const absl::Status& s) const {
    return input_dropped ? s.code() == absl::StatusCode::kCancelled : SameStatus(s, input_status);
  }
};

uint64_t F(uint64_t t) { return (t * 7 + 3) % 100000; }

void Map(Rng& r) {
  World w(r);
  const bool ordered = r.P(1, 2);
  auto functor = [&w, weight = Tracked(1)](TypedRef item) -> absl::StatusOr<TypedValue> {
    int i;
    w.Check(item, &i);
    REQUIRE(++w.calls[i] == 1, "the functor was called twice for an item");
    vs::Point();
    switch (w.acts[i]) {
      case kError: return SomeError(i);
      case kWrongType: return MakeValue(w.out_kind == Kind::kInt ? Kind::kMid : Kind::kInt, i);
      default: return MakeValue(w.out_kind, F(i));
    }
  };
  StreamPtr out;
  {
    arolla::CancellationContext::ScopeGuard guard(w.ctx);
    out = ordered ? StreamMap(w.ax.ex, w.in, TypeOf(w.out_kind), std::move(functor))
                  : StreamMapUnordered(w.ax.ex, w.in, TypeOf(w.out_kind), std::move(functor));
  }
  const bool drops = w.ax.drops;
  w.Collect(std::move(out));
  w.Feed();
  w.Finish();
  int first = w.n;  // the first position that fails
  for (int i = w.n - 1; i >= 0; --i) if (w.acts[i] != kOk) first = i;
  auto status_of = [&](int i, const absl::Status& s) {
    if (i == w.n) return w.SameAsInput(s);
    if (w.acts[i] == kError) return SameStatus(s, SomeError(i));
    return w.acts[i] == kWrongType && s.code() == absl::StatusCode::kInvalidArgument &&
           std::string(s.message()).find("type") != std::string::npos;
  };
  const auto& tags = w.read.tags;
  const bool whole = !drops && !w.cancels && w.quit_after < 0;
  if (ordered) {
    REQUIRE(static_cast<int>(tags.size()) <= first, "items from behind the first failure");
    for (size_t i = 0; i < tags.size(); ++i) REQUIRE(tags[i] == F(i), "item ", i, " of the output is ", tags[i]);
  } else {
    std::set<uint64_t> seen, can;
    for (int i = 0; i < w.n; ++i) if (w.acts[i] == kOk) can.insert(F(i));
    for (auto t : tags) {
      REQUIRE(can.count(t), "an item nobody computed: ", t);
      REQUIRE(seen.insert(t).second, "an item came out twice");
    }
  }
  for (auto t : tags) {
    bool called = false;
    for (int i = 0; i < w.n && !called; ++i) called = F(i) == t && w.calls[i].load() == 1;
    REQUIRE(called, "an item came out, but the functor was not called for it");
  }
  if (w.read.closed) {
    const auto& s = w.read.status;
    bool fits = false;
    if (ordered) {
      fits = static_cast<int>(tags.size()) == first && status_of(first, s);
    } else {
      if (first == w.n) fits = status_of(w.n, s) && (!s.ok() || static_cast<int>(tags.size()) == w.n);
      else for (int i = 0; i <= w.n; ++i) fits = fits || (!s.ok() && (i == w.n || w.acts[i] != kOk) && status_of(i, s));
    }
    if (w.cancels) fits = fits || SameStatus(s, w.cancel_status);
    if (drops) fits = fits || s.code() == absl::StatusCode::kCancelled;
    REQUIRE(fits, "the output ends with ", s.ToString(), " after ", tags.size(), " of ", w.n, " items; the first failure is at ", first);
    if (whole && ordered) for (int i = 0; i < first; ++i) REQUIRE(w.calls[i].load() == 1, "an item was skipped");
    if (whole) Count(first == w.n ? "clean" : "failing");
    if (w.cancels && SameStatus(s, w.cancel_status)) Count("cancelled");
    if (w.cancelled_before) REQUIRE(SameStatus(s, w.cancel_status), "cancelled before it began, but it ends with ", s.ToString());
  } else {
    REQUIRE(w.quit_after >= 0);
    Count("abandoned");
  }
  Count(ordered ? "ordered" : "unordered");
  Count("items", tags.size());
}

void Reduce(Rng& r) {
  World w(r);
  w.out_kind = r.Of({Kind::kInt, Kind::kTracked, Kind::kMid});
  std::atomic<int> inside{0};
  int next = 0;  // calls are serialized: the race detector watches this
  uint64_t acc = 5;
  auto functor = [&, weight = Tracked(1)](TypedRef value, TypedRef item) -> absl::StatusOr<TypedValue> {
    REQUIRE(++inside == 1, "the functor runs twice at once");
    int i;
    w.Check(item, &i);
    REQUIRE(i == next, "the functor got item ", i, " instead of ", next);
    ++next;
    ++w.calls[i];
    REQUIRE(TagOf(w.out_kind, value) == acc, "the functor did not get what it returned last");
    vs::Point();
    acc = (acc * 31 + i + 1) % 1000003;
    --inside;
    switch (w.acts[i]) {
      case kError: return SomeError(i);
      case kWrongType: return MakeValue(w.out_kind == Kind::kInt ? Kind::kMid : Kind::kInt, i);
      default: return MakeValue(w.out_kind, acc);
    }
  };
  StreamPtr out;
  {
    arolla::CancellationContext::ScopeGuard guard(w.ctx);
    out = StreamReduce(w.ax.ex, MakeValue(w.out_kind, 5), w.in, std::move(functor));
  }
  const bool drops = w.ax.drops;
  w.Collect(std::move(out));
  w.Feed();
  w.Finish();
  int first = w.n;
  uint64_t total = 5;
  for (int i = 0; i < w.n; ++i) {
    total = (total * 31 + i + 1) % 1000003;
    if (w.acts[i] != kOk) { first = i; break; }
  }
  const bool ends_ok = first == w.n && !w.input_dropped && w.input_status.ok();
  REQUIRE(next <= first + 1, "the functor was called after it failed");
  const auto& tags = w.read.tags;
  REQUIRE(tags.size() <= (ends_ok ? 1u : 0u), "an item came out");
  if (!tags.empty()) REQUIRE(tags[0] == total, "the result is ", tags[0], " instead of ", total);
  if (w.read.closed) {
    const auto& s = w.read.status;
    bool fits;
    if (ends_ok) fits = s.ok() && tags.size() == 1;
    else if (first == w.n) fits = w.SameAsInput(s);
    else if (w.acts[first] == kError) fits = SameStatus(s, SomeError(first));
    else fits = s.code() == absl::StatusCode::kInvalidArgument;
    // A routine that notices the cancellation before it is told of it just
    // stops, and its output ends as cancelled without the reason.
    if (w.cancels) fits = fits || s.code() == absl::StatusCode::kCancelled;
    if (drops) fits = fits || s.code() == absl::StatusCode::kCancelled;
    REQUIRE(fits, "the output ends with ", s.ToString(), " and ", tags.size(), " items; the first failure is at ", first, " of ", w.n);
    Count(s.ok() ? "clean" : "failing");
    if (w.cancelled_before) REQUIRE(SameStatus(s, w.cancel_status), "cancelled before it began, but it ends with ", s.ToString());
  } else {
    Count("abandoned");
  }
  Count("calls", next);
}

Register r7("X07", Map), r8("X08", Reduce);
}  // namespace
}  // namespace drv
