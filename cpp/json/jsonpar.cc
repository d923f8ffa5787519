// JSON operators on streams under any schedule (J08).
#include "common.h"
#include "koladata/data_slice.h"
#include "koladata/functor/parallel/stream_filter_json.h"
#include "koladata/operators/json_stream.h"

namespace drv {
namespace {
namespace ops = koladata::ops;
using koladata::DataSlice;

constexpr int kOps = 16;

absl::StatusOr<StreamPtr> Make(int op, const ExecutorPtr& ex, const StreamPtr& in) {
  auto text = [](const char* s) { return DataSlice::CreatePrimitive(arolla::Text(s)); };
  auto num = [](int64_t n) { return DataSlice::CreatePrimitive(n); };
  switch (op) {
    case 0: return ops::JsonStreamSalvageStream(ex, in, DataSlice::CreatePrimitive(false), DataSlice::CreatePrimitive(true), num(100));
    case 1: return ops::JsonStreamPrettifyStream(ex, in, text("  "));
    case 2: return ops::JsonStreamHeadStream(ex, in, num(2));
    case 3: return ops::JsonStreamSelectNonemptyObjectsStream(ex, in);
    case 4: return ops::JsonStreamSelectNonemptyArraysStream(ex, in);
    case 5: return ops::JsonStreamSelectNonnullStream(ex, in);
    case 6: return ops::JsonStreamGetObjectKeyValueStream(ex, in, text("a"));
    case 7: return ops::JsonStreamGetObjectKeyValuesStream(ex, in, text("a"));
    case 8: return ops::JsonStreamImplodeArrayStream(ex, in);
    case 9: return ops::JsonStreamExplodeArrayStream(ex, in);
    case 10: return ops::JsonStreamGetArrayNthValueStream(ex, in, num(1));
    case 11: return ops::JsonStreamUnquoteStream(ex, in);
    case 12: return ops::JsonStreamQuoteStream(ex, in);
    case 13: return ops::JsonStreamChunkValuesStream(ex, in);
    case 14: return StreamFilterJson(ex, in, text("$.a"));
    default: return StreamStringFromJson(ex, in, text("$.a"));
  }
}

void Value(Rng& r, int depth, std::string& t) {
  switch (r.Below(depth > 0 ? 7 : 4)) {
    case 0: t += r.Of({"1", "-20", "3.5", "1e9"}); break;
    case 1: t += r.Of({"true", "false", "null"}); break;
    case 2: case 3: t += r.Of({"\"\"", "\"x\"", "\"a b\\n\"", "\"\xc3\xa9\\u00e9\"", "\"\\\"]\"", "\"\\ud83d\\ude80\""}); break;
    case 4: {
      t += '[';
      const int n = r.Below(3);
      for (int i = 0; i < n; ++i) { if (i) t += ','; Value(r, depth - 1, t); }
      t += ']';
      break;
    }
    default: {
      t += '{';
      const int n = r.Below(3);
      for (int i = 0; i < n; ++i) {
        if (i) t += ", ";
        t += r.Of({"\"a\":", "\"a\": ", "\"b\":"});
        Value(r, depth - 1, t);
      }
      t += '}';
    }
  }
}

struct Item {
  DataSlice ds;
  bool bad = false;
};

struct Out {
  std::vector<std::string> items;
  bool closed = false;
  absl::Status status;
  std::string All() const { std::string s; for (auto& i : items) s += i; return s; }
};

// What has come out so far.
bool Drain(StreamReader& reader, Out& out, int limit = 1 << 30) {
  while (static_cast<int>(out.items.size()) < limit) {
    auto t = reader.TryRead();
    if (auto* item = t.item()) {
      const DataSlice& d = item->UnsafeAs<DataSlice>();
      REQUIRE(d.is_item() && d.GetSchemaImpl() == koladata::schema::kString && !d.IsEmpty(), "an output item is not a string");
      out.items.push_back(std::string(d.item().value<arolla::Text>().view()));
      vs::Point();
      continue;
    }
    if (auto* s = t.close_status()) {
      out.closed = true;
      out.status = *s;
      return true;
    }
    return false;
  }
  return true;
}

void Json(Rng& r) {
  const int op = r.Below(kOps);
  const bool lists = op == 13 || op == 14;
  std::string doc;
  const int vals = r.P(1, 12) ? 10 + r.Below(10) : r.Below(4);
  for (int i = 0; i < vals; ++i) { Value(r, op == 15 ? 1 : r.Below(3), doc); doc += r.Of({"\n", " ", "\n\n"}); }
  if (op == 14 || op == 15) doc = "{\"a\": \"x\\ny" + std::string(r.Below(4), 'z') + "\"}\n" + doc;
  const bool cut = r.P(1, 4);
  if (cut && !doc.empty()) doc.resize(r.Below(doc.size()));
  while (!doc.empty() && (static_cast<unsigned char>(doc.back()) & 0x80)) doc.pop_back();
  std::vector<Item> items;
  for (size_t p = 0; p < doc.size();) {
    size_t n = r.P(1, 6) ? doc.size() : 1 + r.Below(8);
    n = std::min(n, doc.size() - p);
    items.push_back({DataSlice::CreatePrimitive(arolla::Text(doc.substr(p, n)))});
    p += n;
  }
  while (r.P(1, 4)) {
    DataSlice d = DataSlice::CreatePrimitive(arolla::Text(""));
    if (r.P(2, 3)) d.it.text.reset();  // a missing string
    items.insert(items.begin() + r.Below(items.size() + 1), {d});
  }
  if (r.P(1, 6)) {
    Item bad{DataSlice::CreatePrimitive(static_cast<int>(7)), true};
    if (r.P(1, 2)) { bad.ds = DataSlice::CreatePrimitive(arolla::Text("x")); bad.ds.one = false; }
    items.insert(items.begin() + r.Below(items.size() + 1), bad);
  }
  absl::Status input_status;
  bool input_dropped = false;
  const int e = r.Below(6);
  if (e == 0) input_status = SomeError(100000 + r.Below(4));
  if (e == 1) input_dropped = true;
  auto end_input = [&](std::shared_ptr<StreamWriter> w) {
    if (!input_dropped) w->TryClose(input_status);
  };

  // The same on the executor that runs everything at once.
  Out want;
  {
    auto [in, w] = MakeStream(arolla::GetQType<DataSlice>());
    auto made = Make(op, GetEagerExecutor(), in);
    REQUIRE(made.ok());
    auto reader = (*made)->MakeReader();
    std::shared_ptr<StreamWriter> writer = std::move(w);
    bool ended = false;
    for (auto& i : items) {
      if (!writer->TryWrite(TypedRef::FromValue(i.ds)) || (ended = Drain(*reader, want))) break;
    }
    const std::string before = want.All();
    if (!ended) { end_input(std::move(writer)); Drain(*reader, want); }
    REQUIRE((input_status.ok() && !input_dropped) || want.All() == before, "operator ", op, " wrote more although its input ended with an error: after ", before, " it wrote ", want.All());
  }
  REQUIRE(want.closed, "the output did not end although the input did");
  bool has_bad = false;
  for (auto& i : items) has_bad = has_bad || i.bad;
  {
    const auto& s = want.status;
    const bool early = op == 2 || op == 15;
    bool fits = false;
    if (has_bad) fits = s.code() == absl::StatusCode::kInvalidArgument && !SameStatus(s, input_status);
    else if (input_dropped) fits = s.code() == absl::StatusCode::kCancelled;
    else fits = SameStatus(s, input_status);
    // A text cut short is refused by what parses it, once the input ended well.
    if (cut && op >= 14 && input_status.ok() && !input_dropped) fits = fits || s.code() == absl::StatusCode::kInvalidArgument;
    REQUIRE(fits || (early && s.ok()), "operator ", op, " ends with ", s.ToString());
    Count(s.ok() ? "ends_ok" : has_bad ? "ends_refusing_an_item" : "ends_as_the_input");
  }

  AnyExecutor ax = MakeAnyExecutor(r, true);
  const bool drops = ax.drops;
  arolla::CancellationContextPtr ctx;
  if (r.P(1, 2)) ctx = arolla::CancellationContext::Make();
  const bool cancels = ctx && r.P(2, 3);
  const absl::Status cancel_status = absl::CancelledError("by the test");
  const bool cancelled_before = cancels && r.P(1, 8);
  if (cancelled_before) ctx->Cancel(cancel_status);
  const int quit_after = r.P(1, 7) ? static_cast<int>(r.Below(4)) : 1 << 30;

  auto [in, in_writer] = MakeStream(arolla::GetQType<DataSlice>(), r.Below(3));
  StreamPtr out;
  {
    arolla::CancellationContext::ScopeGuard guard(ctx);
    auto made = Make(op, ax.ex, in);
    REQUIRE(made.ok());
    out = std::move(*made);
  }
  in.reset();
  std::shared_ptr<StreamWriter> feed = std::move(in_writer);
  vs::Spawn([&items, &end_input, w = std::move(feed)]() mutable {
    for (auto& i : items) {
      if (!w->TryWrite(TypedRef::FromValue(i.ds))) { w.reset(); return; }
    }
    end_input(std::move(w));
  });
  const int wait = r.Below(12);
  if (cancels && !cancelled_before) vs::Spawn([&] { for (int i = 0; i < wait; ++i) vs::Point(); ctx->Cancel(cancel_status); });
  Out got;
  std::atomic<bool> read_done{false};
  vs::Spawn([&, out = std::move(out)]() mutable {
    auto reader = out->MakeReader();
    out.reset();
    while (!Drain(*reader, got, quit_after)) {
      auto flag = std::make_shared<std::atomic<bool>>(false);
      reader->SubscribeOnce([flag] { flag->store(true); });
      vs::Wait([&] { return flag->load(); }, "the callback of the reader of the output");
    }
    reader.reset();
    read_done = true;
  });
  vs::Wait([&] { return read_done.load(); }, "the end of the output");
  vs::WaitQuiet(ax.idle, "idle");
  ax.stop();
  vs::End();
  vs::WaitQuiet(ax.idle, "idle");
  ax = AnyExecutor();

  auto show = [&] { return absl::StrCat("operator ", op, " on ", doc, "\nin ", items.size(), " items, got ", got.All(), " and ", got.closed ? got.status.ToString() : "no end", ", wanted ", want.All(), " and ", want.status.ToString()); };
  const bool same = lists ? got.items == want.items : got.All() == want.All();
  bool part = lists ? got.items.size() <= want.items.size() : want.All().compare(0, got.All().size(), got.All()) == 0;
  if (lists) for (size_t i = 0; part && i < got.items.size(); ++i) part = got.items[i] == want.items[i];
  REQUIRE(part, "the output is not the beginning of what it has to be: ", show());
  if (got.closed) {
    bool fits = same && SameStatus(got.status, want.status);
    if (input_dropped && want.status.code() == absl::StatusCode::kCancelled) fits = fits || (same && got.status.code() == absl::StatusCode::kCancelled);
    if (cancels) fits = fits || got.status.code() == absl::StatusCode::kCancelled;
    if (drops) fits = fits || got.status.code() == absl::StatusCode::kCancelled;
    REQUIRE(fits, "the output ends otherwise: ", show());
    if (!drops && !cancels && quit_after == 1 << 30) Count("whole");
    if (cancelled_before) REQUIRE(SameStatus(got.status, cancel_status), "cancelled before it began, but: ", show());
    if (cancels && SameStatus(got.status, cancel_status)) Count("cancelled");
  } else {
    REQUIRE(quit_after != 1 << 30, "the output does not end: ", show());
    Count("abandoned");
  }
  Count("items", got.items.size());
}

Register j8("J08", Json);
}  // namespace
}  // namespace drv
