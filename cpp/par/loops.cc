// Loops over streams (X09) and calls that await streams (X10), against a
// sequential reference.
#include "common.h"
#include "koladata/data_slice.h"
#include "koladata/functor/parallel/future.h"
#include "koladata/functor/parallel/future_qtype.h"
#include "koladata/functor/parallel/stream_call.h"
#include "koladata/functor/parallel/stream_for.h"
#include "koladata/functor/parallel/stream_qtype.h"
#include "koladata/functor/parallel/stream_while.h"

namespace drv {
namespace {

using koladata::DataSlice;

// What the condition functor does at its j-th call.
struct Cond {
  enum { kTrue, kFalse, kMissingObject, kError, kWrongType, kInt, kSlice, kFailCount };
  int what = kTrue;
  // 0: a slice; 1: a stream that is complete; 2: one that is filled later;
  // 3: a stream that is closed empty later; 4: closed with an error later;
  // 5: a stream of another type; 6: one whose writer goes away.
  int via = 0;
  bool ends() const { return via <= 2 && (what == kFalse || what == kMissingObject); }
  bool goes_on() const { return via <= 2 && what == kTrue; }
};
// What the body or the finalize functor does at its j-th call.
struct Step {
  std::vector<std::pair<int, uint64_t>> sets;  // variables and their new tags
  std::optional<uint64_t> out;                 // the value of returns/yields
  int fail = 0;  // 1 error, 2 unknown variable, 3 wrong type, 4 not a namedtuple
};

struct Loop {
  bool is_for, yields;
  std::string out_name;
  std::vector<std::string> names;
  std::vector<Kind> kinds;
  std::vector<uint64_t> init;
  Kind out_kind, item_kind = Kind::kInt;
  uint64_t out_init = 7;
  bool has_cond = false, has_final = false;
  std::vector<Cond> conds;
  std::vector<Step> steps;  // of the body
  Step final_step;
  int n = 0;  // items
  absl::Status input_status;
  bool input_dropped = false;

  // The reference.
  struct Call {
    char what;  // c, b, f
    int index;
    std::vector<uint64_t> state;  // with returns, if the functor gets it
    uint64_t item = 0;
  };
  std::vector<Call> calls;
  std::vector<uint64_t> expected;
  int end = 0;  // 0 ok, 1 SomeError(end_tag), 2 invalid argument, 3 the input's status, 4 the writer of a condition is gone
  uint64_t end_tag = 0;

  void Simulate() {
    std::vector<uint64_t> state = init;
    uint64_t out = out_init;
    if (yields) expected.push_back(out_init);
    auto args = [&] {
      auto a = state;
      if (!yields) a.push_back(out);
      return a;
    };
    auto apply = [&](const Step& s, int i) {
      if (s.fail == 1) { end = 1; end_tag = i; return false; }
      if (s.fail) { end = 2; return false; }
      for (auto [v, t] : s.sets) state[v] = t;
      if (s.out) {
        if (yields) expected.push_back(*s.out);
        else out = *s.out;
      }
      return true;
    };
    for (int i = 0;; ++i) {
      if (has_cond) {
        calls.push_back({'c', i, args()});
        const Cond& c = conds[i];
        if (c.ends()) break;
        if (!c.goes_on()) {
          if (c.via == 6) end = 4;
          else if (c.via == 4 || (c.via < 3 && c.what == Cond::kError)) { end = 1; end_tag = 500 + i; }
          else end = 2;
          return;
        }
      }
      if (is_for && i == n) {
        if (input_dropped || !input_status.ok()) { end = 3; return; }
        if (has_final) {
          calls.push_back({'f', 0, args()});
          if (!apply(final_step, 900)) return;
        }
        break;
      }
      calls.push_back({'b', i, args(), static_cast<uint64_t>(i)});
      if (!apply(steps[i], i)) return;
    }
    if (!yields) expected.push_back(out);
  }
};

Step AnyStep(Rng& r, const Loop& l, bool may_fail, uint64_t salt) {
  Step s;
  for (size_t v = 0; v < l.names.size(); ++v) if (r.P(1, 2)) s.sets.push_back({v, 1 + (salt * 16 + v * 3 + r.Below(3)) % 100000});
  for (size_t i = s.sets.size(); i > 1; --i) std::swap(s.sets[i - 1], s.sets[r.Below(i)]);
  if (r.P(2, 3)) s.out = r.P(1, 5) ? l.out_init : 1 + (salt * 16 + 11) % 100000;
  if (may_fail && r.P(1, 6)) s.fail = 1 + r.Below(4);
  return s;
}

// Fills the streams that conditions return, some time later.
struct Feeder {
  std::deque<std::function<void()>> todo;
  std::atomic<bool> over{false};
  void Add(std::function<void()> f) { vs::Critical c; todo.push_back(std::move(f)); }
  void Start() {
    vs::Spawn([this] {
      for (;;) {
        vs::Wait([&] { vs::Critical c; return over.load() || !todo.empty(); }, "feeder", true);
        std::function<void()> f;
        {
          vs::Critical c;
          if (todo.empty()) {
            if (over.load()) return;
            continue;
          }
          f = std::move(todo.front());
          todo.pop_front();
        }
        vs::Point();
        f();
      }
    });
  }
};

DataSlice CondSlice(int what) {
  DataSlice d;
  d.s = koladata::schema::kMask;
  switch (what) {
    case Cond::kTrue: d.it.unit = true; break;
    case Cond::kFalse: break;
    case Cond::kMissingObject: d.s = koladata::schema::kObject; break;
    case Cond::kInt: d.s = koladata::schema::kInt32; d.it.v = 1; break;
    case Cond::kSlice: d.one = false; break;
    default: break;
  }
  return d;
}

void Loops(Rng& r) {
  Loop l;
  l.is_for = r.P(1, 2);
  l.yields = r.P(1, 2);
  l.out_name = l.yields ? (r.P(1, 2) ? "yields" : "yields_interleaved") : "returns";
  const int nv = r.Below(4);
  const auto some_kind = [&] { return r.Of({Kind::kInt, Kind::kTracked, Kind::kTracked, Kind::kMid, Kind::kBig}); };
  for (int v = 0; v < nv; ++v) {
    l.names.push_back(absl::StrCat("v", v));
    l.kinds.push_back(some_kind());
    l.init.push_back(1 + r.Below(1000));
  }
  l.out_kind = some_kind();
  l.item_kind = some_kind();
  l.out_init = 1 + r.Below(100);
  const bool fails = r.P(1, 3);
  const int steps = r.P(1, 12) ? 30 + r.Below(20) : r.Below(6);
  l.n = l.is_for ? steps : 0;
  l.has_cond = !l.is_for || r.P(1, 2);
  l.has_final = l.is_for && r.P(1, 2);
  for (int i = 0; i <= steps + 1; ++i) {
    l.steps.push_back(AnyStep(r, l, fails, i + 1));
    Cond c;
    c.via = r.P(1, 2) ? 0 : 1 + r.Below(2);
    if (i >= steps && !l.is_for) c.what = Cond::kFalse;
    if (l.is_for && r.P(1, 8)) c.what = Cond::kFalse;
    if (c.what == Cond::kFalse && r.P(1, 3)) c.what = Cond::kMissingObject;
    if (fails && r.P(1, 6)) {
      if (r.P(1, 2)) c.what = Cond::kError + r.Below(Cond::kFailCount - Cond::kError);
      else c.via = 3 + r.Below(4);
      if (c.what == Cond::kWrongType || c.what == Cond::kError) c.via = 0;
    }
    l.conds.push_back(c);
  }
  l.final_step = AnyStep(r, l, fails, 77);
  if (l.is_for && r.P(1, 6)) {
    if (r.P(1, 3)) l.input_dropped = true;
    else l.input_status = SomeError(100000);
  }
  l.Simulate();

  AnyExecutor ax = MakeAnyExecutor(r, true);
  const bool drops = ax.drops;
  arolla::CancellationContextPtr ctx;
  bool cancels = false, cancelled_before = false;
  const absl::Status cancel_status = absl::CancelledError("by the test");
  if (r.P(1, 3)) ctx = arolla::CancellationContext::Make();
  if (ctx && r.P(1, 2)) {
    cancels = true;
    if (r.P(1, 6)) { cancelled_before = true; ctx->Cancel(cancel_status); }
  }
  const int quit_after = r.P(1, 8) ? static_cast<int>(r.Below(3)) : -1;
  Feeder feeder;
  std::atomic<int> inside{0};
  size_t next = 0;  // calls are serialized: the race detector watches this
  std::vector<std::string> all_names = l.names;
  if (!l.yields) all_names.push_back(l.out_name);

  auto enter = [&](char what, absl::Span<const TypedRef> args, absl::Span<const std::string> kwnames) -> const Loop::Call& {
    REQUIRE(++inside == 1, "functors of the loop run at once");
    REQUIRE(next < l.calls.size(), "a call of ", std::string(1, what), " behind the end of the loop");
    const auto& c = l.calls[next++];
    REQUIRE(c.what == what, "a call of ", std::string(1, what), " instead of ", std::string(1, c.what), " at ", next - 1);
    REQUIRE(std::vector<std::string>(kwnames.begin(), kwnames.end()) == all_names, "the functor gets other variables");
    const size_t off = what == 'b' && l.is_for;
    REQUIRE(args.size() == off + all_names.size(), "the functor gets ", args.size(), " arguments");
    if (off) REQUIRE(TagOf(l.item_kind, args[0]) == c.item, "the body gets another item");
    for (size_t v = 0; v < all_names.size(); ++v) {
      const uint64_t t = TagOf(v < l.names.size() ? l.kinds[v] : l.out_kind, args[off + v]);
      REQUIRE(t == c.state[v], "variable ", all_names[v], " is ", t, " instead of ", c.state[v], " in call ", next - 1, " (", std::string(1, what), ")");
    }
    auto cur = CurrentExecutor();
    REQUIRE(cur.ok() && cur->get() == ax.ex.get() && IsExecutorTask(), "the functor does not run on the executor");
    REQUIRE(arolla::CurrentCancellationContext() == ctx, "the functor does not run within the cancellation context");
    vs::Point();
    return c;
  };
  auto do_step = [&](const Step& s, int i) -> absl::StatusOr<TypedValue> {
    if (s.fail == 1) return SomeError(i);
    if (s.fail == 4) return MakeValue(Kind::kInt, 1);
    std::vector<std::string> names;
    std::vector<TypedValue> holders;
    for (auto [v, t] : s.sets) {
      names.push_back(l.names[v]);
      holders.push_back(MakeValue(l.kinds[v], t));
    }
    if (s.out) {
      const size_t at = names.empty() ? 0 : *s.out % (names.size() + 1);
      names.insert(names.begin() + at, l.out_name);
      holders.insert(holders.begin() + at, MakeValue(l.out_kind, *s.out));
    }
    if (s.fail == 2) {
      names.push_back("nobody");
      holders.push_back(MakeValue(Kind::kInt, 1));
    }
    if (s.fail == 3) {
      if (!s.out) {
        names.push_back(l.out_name);
        holders.push_back(MakeValue(Kind::kInt, 1));
      }
      const size_t at = std::find(names.begin(), names.end(), l.out_name) - names.begin();
      holders[at] = MakeValue(l.out_kind == Kind::kMid ? Kind::kInt : Kind::kMid, 3);
    }
    std::vector<TypedRef> refs;
    for (auto& h : holders) refs.push_back(h.AsRef());
    return arolla::MakeNamedTupleValue(names, refs);
  };
  using Refs = absl::Span<const TypedRef>;
  using Names = absl::Span<const std::string>;
  auto body = [&, w = Tracked(1)](Refs a, Names k) -> absl::StatusOr<TypedValue> {
    const auto& c = enter('b', a, k);
    auto res = do_step(l.steps[c.index], c.index);
    --inside;
    return res;
  };
  auto finalize = [&, w = Tracked(1)](Refs a, Names k) -> absl::StatusOr<TypedValue> {
    enter('f', a, k);
    auto res = do_step(l.final_step, 900);
    --inside;
    return res;
  };
  auto condition = [&, weight = Tracked(1)](Refs a, Names k) -> absl::StatusOr<TypedValue> {
    const auto& call = enter('c', a, k);
    const Cond c = l.conds[call.index];
    const int i = call.index;
    struct Leave { std::atomic<int>& n; ~Leave() { --n; } } leave{inside};
    if (c.via == 0) {
      if (c.what == Cond::kError) return SomeError(500 + i);
      if (c.what == Cond::kWrongType) return MakeValue(Kind::kInt, 1);
      return TypedValue::FromValue(CondSlice(c.what));
    }
    if (c.via == 5) {
      auto [s, w] = MakeStream(TypeOf(Kind::kInt), 1);
      w->Write(MakeValue(Kind::kInt, 1).AsRef());
      return MakeStreamQValue(s);
    }
    auto [s, w] = MakeStream(arolla::GetQType<DataSlice>(), 1);
    auto fill = [c, i, w = std::shared_ptr<StreamWriter>(std::move(w))]() mutable {
      if (c.via == 6) { w.reset(); return; }
      if (c.via == 4) { std::move(*w).Close(SomeError(500 + i)); return; }
      if (c.via == 3) { std::move(*w).Close(); return; }
      auto v = TypedValue::FromValue(CondSlice(c.what));
      w->TryWrite(v.AsRef());
      w->TryClose(absl::OkStatus());
    };
    if (c.via == 1) fill();
    else feeder.Add(std::move(fill));
    return MakeStreamQValue(std::move(s));
  };

  std::vector<TypedValue> holders;
  std::vector<TypedRef> refs;
  for (int v = 0; v < nv; ++v) holders.push_back(MakeValue(l.kinds[v], l.init[v]));
  for (auto& h : holders) refs.push_back(h.AsRef());
  std::shared_ptr<StreamWriter> in_writer;
  StreamPtr out;
  {
    auto init_out = MakeValue(l.out_kind, l.out_init);
    auto init_state = arolla::MakeNamedTupleValue(l.names, refs);
    StreamPtr in;
    if (l.is_for) {
      auto [s, w] = MakeStream(TypeOf(l.item_kind), r.Below(3));
      in = std::move(s);
      in_writer = std::move(w);
    }
    arolla::CancellationContext::ScopeGuard guard(ctx);
    absl::StatusOr<StreamPtr> res;
    StreamForFunctor ff, fc;
    if (l.has_final) ff = std::move(finalize);
    if (l.has_cond) fc = std::move(condition);
    if (l.is_for && !l.yields)
      res = StreamForReturns(ax.ex, in, std::move(body), std::move(ff), std::move(fc), init_out.AsRef(), init_state.AsRef());
    else if (l.is_for)
      res = StreamForYields(ax.ex, in, std::move(body), std::move(ff), std::move(fc), l.out_name, init_out.AsRef(), init_state.AsRef());
    else if (!l.yields)
      res = StreamWhileReturns(ax.ex, std::move(fc), std::move(body), init_out.AsRef(), init_state.AsRef());
    else
      res = StreamWhileYields(ax.ex, std::move(fc), std::move(body), l.out_name, init_out.AsRef(), init_state.AsRef());
    REQUIRE(res.ok(), "the loop was refused: ", res.status().ToString());
    out = std::move(*res);
  }
  REQUIRE(out->value_qtype() == TypeOf(l.out_kind));
  feeder.Start();
  Read read;
  std::atomic<bool> read_done{false};
  vs::Spawn([&, out = std::move(out)]() mutable {
    auto reader = out->MakeReader();
    out.reset();
    while (static_cast<int>(read.tags.size()) != quit_after) {
      auto t = reader->TryRead();
      if (auto* item = t.item()) {
        read.tags.push_back(TagOf(l.out_kind, *item));
        continue;
      }
      if (auto* st = t.close_status()) {
        read.closed = true;
        read.status = *st;
        break;
      }
      auto flag = std::make_shared<std::atomic<bool>>(false);
      reader->SubscribeOnce([flag] { flag->store(true); });
      vs::Wait([&] { return flag->load(); }, "the callback of the reader of the output");
    }
    reader.reset();
    read_done = true;
  });
  if (l.is_for) {
    vs::Spawn([&, w = std::move(in_writer)]() mutable {
      for (int i = 0; i < l.n; ++i) if (!w->TryWrite(MakeValue(l.item_kind, i).AsRef())) return;
      if (!l.input_dropped) w->TryClose(l.input_status);
      w.reset();
    });
  }
  if (cancels && !cancelled_before) vs::Spawn([&] { vs::Point(); vs::Point(); ctx->Cancel(cancel_status); });
  vs::Wait([&] { return read_done.load(); }, "the end of the output");
  vs::WaitQuiet(ax.idle, "idle");
  feeder.over = true;
  ax.stop();
  vs::End();
  vs::WaitQuiet(ax.idle, "idle");
  ax = AnyExecutor();

  const auto& tags = read.tags;
  REQUIRE(tags.size() <= l.expected.size(), tags.size(), " items instead of ", l.expected.size());
  for (size_t i = 0; i < tags.size(); ++i) REQUIRE(tags[i] == l.expected[i], l.is_for, l.yields, l.has_final, " drops ", drops, " cancels ", cancels, " n ", l.n, " ", l.has_cond, " quit ", quit_after, " ", read.closed, read.status.ToString(), " ", l.calls.size(), " ", next, " item ", i, " is ", tags[i], " instead of ", l.expected[i]);
  if (read.closed) {
    const auto& s = read.status;
    bool fits = tags.size() == l.expected.size() && next == l.calls.size();
    if (l.end == 0) fits = fits && s.ok();
    if (l.end == 1) fits = fits && SameStatus(s, SomeError(l.end_tag));
    if (l.end == 2) fits = fits && s.code() == absl::StatusCode::kInvalidArgument;
    if (l.end == 3) fits = fits && (l.input_dropped ? s.code() == absl::StatusCode::kCancelled : SameStatus(s, l.input_status));
    if (l.end == 4) fits = fits && s.code() == absl::StatusCode::kCancelled;
    if (cancels || drops) fits = fits || s.code() == absl::StatusCode::kCancelled;
    REQUIRE(fits, "the loop ends with ", s.ToString(), " after ", tags.size(), " of ", l.expected.size(), " items and ", next, " of ",
            l.calls.size(), " calls; expected end ", l.end);
    if (cancelled_before) REQUIRE(SameStatus(s, cancel_status) && next == 0, "cancelled before it began, but it ends with ", s.ToString());
    Count(absl::StrCat(l.is_for ? "for_" : "while_", l.yields ? "yields_" : "returns_", s.ok() ? "ok" : "error").c_str());
  } else {
    REQUIRE(quit_after >= 0);
    Count("abandoned");
  }
  Count("calls", next);
}

// -------------------------------------------------------------------- X10
struct Arg {
  // 0 value, 1 awaited stream, 2 awaited future, 3 stream that is not awaited,
  // 4 awaited value (no effect)
  int what = 0;
  Kind kind;
  uint64_t tag;
  // of the awaited: 0 one item, 1 none, 2 more, 3 an error in front, 4 an error
  // behind the item, 5 the writer goes away
  int how = 0;
  bool early = false;
  StreamPtr stream;
  std::shared_ptr<StreamWriter> sw;
  FuturePtr future;
  std::shared_ptr<FutureWriter> fw;
  TypedValue value = arolla::GetUnspecifiedQValue();
  std::atomic<bool> set{false};
  bool awaited() const { return what == 1 || what == 2; }
};

void Calls(Rng& r) {
  AnyExecutor ax = MakeAnyExecutor(r, true);
  const bool drops = ax.drops;
  const auto some_kind = [&] { return r.Of({Kind::kInt, Kind::kTracked, Kind::kTracked, Kind::kMid, Kind::kBig}); };
  const bool fails = r.P(1, 3);
  const int na = r.Below(6);
  std::vector<std::unique_ptr<Arg>> args;
  auto fill = [](Arg& a, int id) {
    const auto item = MakeValue(a.kind, a.tag);
    a.set = true;
    if (a.what == 1) {
      auto w = std::move(a.sw);
      if (a.how == 3) { w->TryClose(SomeError(id)); return; }
      if (a.how != 1 && a.how != 5) w->TryWrite(item.AsRef());
      if (a.how == 2) w->TryWrite(MakeValue(a.kind, a.tag + 1).AsRef());
      if (a.how == 4) w->TryClose(SomeError(id));
      else if (a.how != 5) w->TryClose(absl::OkStatus());
    } else {
      auto w = std::move(a.fw);
      if (a.how == 3) std::move(*w).SetValue(SomeError(id));
      else if (a.how != 5) std::move(*w).SetValue(item);
    }
  };
  int first = na;
  for (int i = 0; i < na; ++i) {
    auto a = std::make_unique<Arg>();
    a->what = r.P(1, 5) ? 2 : r.Below(5);
    a->kind = some_kind();
    a->tag = 1 + r.Below(1000);
    if (a->awaited() && fails && r.P(1, 3)) a->how = a->what == 1 ? 1 + r.Below(5) : (r.P(1, 2) ? 3 : 5);
    if (a->how && first == na) first = i;
    if (a->what == 1 || a->what == 3) {
      auto [s, w] = MakeStream(TypeOf(a->kind), r.Below(2));
      a->stream = std::move(s);
      a->sw = std::move(w);
      a->value = MakeStreamQValue(a->stream);
    } else if (a->what == 2) {
      auto p = MakeFuture(TypeOf(a->kind));
      a->future = std::move(p.first);
      a->fw = std::make_shared<FutureWriter>(std::move(p.second));
      a->value = MakeFutureQValue(a->future);
    } else {
      a->value = MakeValue(a->kind, a->tag);
    }
    a->early = a->awaited() && r.P(1, 3);
    if (a->early) fill(*a, i);
    args.push_back(std::move(a));
  }
  const Kind out_kind = some_kind();
  // 0 value, 1 complete stream, 2 stream filled later, 3 error, 4 wrong type,
  // 5 stream of another type
  const int res = r.P(1, 2) ? r.Below(3) : r.Below(6);
  std::vector<uint64_t> expected;
  if (res == 0) expected = {42};
  if (res == 1 || res == 2) for (int i = r.Below(5); i > 0; --i) expected.push_back(100 + i);
  const absl::Status inner_status = (res == 1 || res == 2) && r.P(1, 4) ? SomeError(77) : absl::OkStatus();
  arolla::CancellationContextPtr ctx;
  bool cancels = false;
  if (r.P(1, 3)) ctx = arolla::CancellationContext::Make();
  if (ctx && r.P(1, 2)) cancels = true;
  const int quit_after = r.P(1, 10) ? static_cast<int>(r.Below(2)) : -1;
  std::atomic<int> calls{0};
  Feeder feeder;
  auto functor = [&, weight = Tracked(1)](absl::Span<const TypedRef> got) -> absl::StatusOr<TypedValue> {
    REQUIRE(++calls == 1, "the functor was called twice");
    REQUIRE(first == na, "the functor was called although an argument has no value");
    REQUIRE(got.size() == args.size(), "the functor got ", got.size(), " of ", args.size(), " arguments");
    for (int round = 0; round < 2; ++round) {
      for (size_t i = 0; i < got.size(); ++i) {
        auto& a = *args[i];
        if (a.awaited()) REQUIRE(a.set.load(), "the functor was called before its argument was there");
        if (a.what == 3) {
          REQUIRE(got[i].GetType() == GetStreamQType(TypeOf(a.kind)) && got[i].UnsafeAs<StreamPtr>() == a.stream, "argument ", i, " is another stream");
        } else {
          const uint64_t t = TagOf(a.kind, got[i]);
          REQUIRE(t == a.tag, "argument ", i, " is ", t, " instead of ", a.tag);
        }
      }
      vs::Point();
    }
    auto cur = CurrentExecutor();
    REQUIRE(cur.ok() && cur->get() == ax.ex.get() && IsExecutorTask(), "the functor does not run on the executor");
    REQUIRE(arolla::CurrentCancellationContext() == ctx, "the functor does not run within the cancellation context");
    if (res == 0) return MakeValue(out_kind, 42);
    if (res == 3) return SomeError(55);
    if (res == 4) return MakeValue(out_kind == Kind::kInt ? Kind::kMid : Kind::kInt, 1);
    if (res == 5) return MakeStreamQValue(MakeStream(TypeOf(out_kind == Kind::kInt ? Kind::kMid : Kind::kInt)).first);
    auto [s, w] = MakeStream(TypeOf(out_kind));
    auto f = [&, w = std::shared_ptr<StreamWriter>(std::move(w))] {
      for (auto t : expected) w->TryWrite(MakeValue(out_kind, t).AsRef());
      w->TryClose(inner_status);
    };
    if (res == 1) f();
    else feeder.Add(std::move(f));
    return MakeStreamQValue(std::move(s));
  };
  StreamPtr out;
  {
    std::vector<TypedRef> refs;
    for (auto& a : args) refs.push_back(a->awaited() || a->what == 4 ? MakeStreamCallAwaitArg(a->value.AsRef()) : a->value.AsRef());
    arolla::CancellationContext::ScopeGuard guard(ctx);
    auto s = StreamCall(ax.ex, std::move(functor), TypeOf(out_kind), refs);
    REQUIRE(s.ok());
    out = std::move(*s);
  }
  for (auto& a : args) {
    a->value = arolla::GetUnspecifiedQValue();
    if (a->what != 3) a->stream.reset();
    a->future.reset();
  }
  feeder.Start();
  Read read;
  std::atomic<bool> read_done{false};
  vs::Spawn([&, out = std::move(out)]() mutable {
    auto reader = out->MakeReader();
    out.reset();
    while (static_cast<int>(read.tags.size()) != quit_after) {
      auto t = reader->TryRead();
      if (auto* item = t.item()) {
        read.tags.push_back(TagOf(out_kind, *item));
        continue;
      }
      if (auto* st = t.close_status()) {
        read.closed = true;
        read.status = *st;
        break;
      }
      auto flag = std::make_shared<std::atomic<bool>>(false);
      reader->SubscribeOnce([flag] { flag->store(true); });
      vs::Wait([&] { return flag->load(); }, "the callback of the reader of the output");
    }
    reader.reset();
    read_done = true;
  });
  for (int t = 0; t < 2; ++t) {
    vs::Spawn([&, t] {
      for (int i = t; i < na; i += 2) if (args[i]->awaited() && !args[i]->early) fill(*args[i], i);
    });
  }
  if (cancels) vs::Spawn([&] { vs::Point(); vs::Point(); ctx->Cancel(absl::CancelledError("by the test")); });
  vs::Wait([&] { return read_done.load(); }, "the end of the output");
  vs::WaitQuiet(ax.idle, "idle");
  feeder.over = true;
  ax.stop();
  vs::End();
  vs::WaitQuiet(ax.idle, "idle");
  ax = AnyExecutor();
  const auto& tags = read.tags;
  const bool called = first == na;
  const size_t want = called ? expected.size() : 0;
  REQUIRE(tags.size() <= want, "items came out: ", tags.size(), " instead of ", want);
  for (size_t i = 0; i < tags.size(); ++i) REQUIRE(tags[i] == expected[i], "item ", i, " is ", tags[i], " instead of ", expected[i]);
  if (read.closed) {
    const auto& s = read.status;
    bool fits = tags.size() == want;
    if (!called) {
      const int how = args[first]->how;
      if (how == 1 || how == 2) fits = fits && s.code() == absl::StatusCode::kInvalidArgument;
      else if (how == 5) fits = fits && s.code() == absl::StatusCode::kCancelled;
      else fits = fits && SameStatus(s, SomeError(first));
    } else if (res == 3) {
      fits = fits && SameStatus(s, SomeError(55));
    } else if (res >= 4) {
      fits = fits && s.code() == absl::StatusCode::kInvalidArgument;
    } else {
      fits = fits && SameStatus(s, inner_status) && calls.load() == 1;
    }
    if (cancels || drops) fits = fits || s.code() == absl::StatusCode::kCancelled;
    REQUIRE(fits, "the call ends with ", s.ToString(), " and ", tags.size(), " of ", want, " items, drops ", drops, " cancels ", cancels, " (then ", inner_status.ToString(), ", ", calls.load(), " calls); the first argument without a value: ", first, " of ", na, ", result ", res);
    Count(s.ok() ? "clean" : "failing");
  } else {
    REQUIRE(quit_after >= 0);
    Count("abandoned");
  }
  Count("calls", calls.load());
  Count("arguments", na);
}

Register r9("X09", Loops), r10("X10", Calls);
}  // namespace
}  // namespace drv
