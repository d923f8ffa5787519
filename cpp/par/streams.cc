// Streams: delivery (X01), subscriptions (X02), closing and lifetime (X03).
#include "common.h"

namespace drv {
namespace {

struct WriterLog {
  std::vector<uint64_t> accepted;
  bool refused = false;
};

// Readers agree, nothing is lost, repeated, invented or reordered.
void CheckSequences(Kind k, const std::vector<WriterLog>& logs, const std::vector<Read>& reads,
                    const std::vector<char>& complete) {
  size_t total = 0;
  for (auto& l : logs) total += l.accepted.size();
  const std::vector<uint64_t>* longest = nullptr;
  for (auto& rd : reads) if (!longest || rd.tags.size() > longest->size()) longest = &rd.tags;
  for (size_t i = 0; i < reads.size(); ++i) {
    auto& t = reads[i].tags;
    if (complete[i]) REQUIRE(t.size() == total, "a reader saw ", t.size(), " of ", total, " accepted values");
    REQUIRE(std::equal(t.begin(), t.end(), longest->begin()), "two readers saw different sequences");
  }
  if (k == Kind::kEmpty || !longest) {
    if (longest) REQUIRE(longest->size() <= total, "more values than were written");
    return;
  }
  std::vector<size_t> next(logs.size(), 0);
  for (uint64_t tag : *longest) {
    const size_t w = tag >> 16;
    REQUIRE(w < logs.size(), "a value nobody wrote: ", tag);
    REQUIRE(next[w] < logs[w].accepted.size(), "a value that was not accepted: ", tag);
    REQUIRE(logs[w].accepted[next[w]] == tag, "values of one writer out of order: got ", tag, " for ", logs[w].accepted[next[w]]);
    ++next[w];
  }
}

void Delivery(Rng& r) {
  const Kind k = AnyKind(r);
  const size_t cap = r.Of<size_t>({0, 0, 0, 1, 2, 3, 7, 40});
  const int nw = 1 + r.Below(3), nr = 1 + r.Below(3);
  const int big = k == Kind::kInt ? 150 : k == Kind::kEmpty ? 520 : 24;
  const bool visible = r.P(1, 2);
  auto [stream0, writer0] = MakeStream(TypeOf(k), cap);
  StreamPtr stream = std::move(stream0);
  StreamWriterPtr writer = std::move(writer0);
  REQUIRE(stream->value_qtype() == TypeOf(k) && writer->value_qtype() == TypeOf(k));
  const int closer = r.P(1, 3) ? static_cast<int>(r.Below(nw)) : -1;
  const absl::Status final_status = r.P(1, 2) ? absl::OkStatus() : SomeError(r.Below(100));
  std::vector<WriterLog> logs(nw);
  std::vector<Read> reads(nr + 1);
  std::vector<char> complete(nr + 1, 0);
  std::atomic<uint64_t> accepted{0};
  std::atomic<bool> closed{false};
  std::atomic<int> writers_left{nw};
  auto close = [&] {
    writer->TryClose(final_status);
    closed.store(true);
  };
  for (int w = 0; w < nw; ++w) {
    const int n = r.P(1, 8) ? big : static_cast<int>(r.Below(9));
    const bool this_closes = w == closer;
    const int close_at = this_closes ? static_cast<int>(r.Below(n + 1)) : -1;
    const bool plain = nw == 1 && !this_closes;
    vs::Spawn([&, w, n, this_closes, close_at, plain] {
      auto& log = logs[w];
      for (int i = 0; i < n; ++i) {
        if (i == close_at) close();
        const uint64_t tag = (static_cast<uint64_t>(w) << 16) | i;
        auto v = MakeValue(k, tag);
        if (plain) {
          writer->Write(v.AsRef());
        } else if (!writer->TryWrite(v.AsRef())) {
          log.refused = true;
          continue;
        }
        REQUIRE(!log.refused, "a write was accepted after one was refused");
        log.accepted.push_back(tag);
        if (visible) accepted.fetch_add(1);
      }
      if (this_closes && close_at == n) close();
      if (--writers_left == 0 && closer < 0) close();
    });
  }
  auto read_body = [&](int i, int stop_after, int polls) {
    auto reader = stream->MakeReader();
    std::vector<TypedRef> refs;
    auto& rd = reads[i];
    while (static_cast<int>(rd.tags.size()) != stop_after) {
      const uint64_t known = visible ? accepted.load() : 0;
      const bool was_closed = visible && closed.load();
      auto t = reader->TryRead();
      if (auto* item = t.item()) {
        rd.tags.push_back(TagOf(k, *item));
        refs.push_back(*item);
        continue;
      }
      REQUIRE(rd.tags.size() >= known, "a write had returned, but the read finds nothing");
      if (auto* st = t.close_status()) {
        rd.closed = true;
        rd.status = *st;
        break;
      }
      REQUIRE(!was_closed, "the stream was closed, but the read finds neither item nor status");
      REQUIRE(t.empty());
      if (polls-- > 0) { Count("polls"); continue; }
      auto flag = std::make_shared<std::atomic<bool>>(false);
      reader->SubscribeOnce([flag] { flag->store(true, std::memory_order_relaxed); });
      vs::Wait([&] { return flag->load(std::memory_order_relaxed); }, "the callback of a reader");
      Count("waits");
    }
    if (rd.closed) {
      complete[i] = 1;
      REQUIRE(SameStatus(rd.status, final_status), "closed with ", rd.status.ToString(), " instead of ", final_status.ToString());
      for (int j = 0; j < 2; ++j) {
        auto t = reader->TryRead();
        REQUIRE(t.close_status() && SameStatus(*t.close_status(), final_status), "the status was not reported again");
      }
    }
    // References stay good as long as the reader does.
    for (size_t j = 0; j < refs.size(); ++j) REQUIRE(TagOf(k, refs[j]) == rd.tags[j], "a value changed after it was read");
    Count("values_read", rd.tags.size());
  };
  for (int i = 0; i < nr; ++i) {
    const int stop_after = r.P(1, 5) ? static_cast<int>(r.Below(6)) : -1;
    const int polls = r.Below(4);
    vs::Spawn([&, i, stop_after, polls] { read_body(i, stop_after, polls); });
  }
  vs::End();
  read_body(nr, -1, 0);  // and one that comes when all is over
  CheckSequences(k, logs, reads, complete);
  Count("writers", nw);
}

// A chain of callbacks that reads a stream to its end.
struct Chain : std::enable_shared_from_this<Chain> {
  Kind k;
  StreamReaderPtr reader;
  std::vector<uint64_t> tags;
  absl::Status status;
  std::atomic<int> calls{0};
  std::atomic<bool> closed{false};
  std::atomic<int> subscribed{0};
  std::atomic<int> inside{0};
  std::function<void()> extra;  // re-enters the stream
  size_t per_wakeup = ~0ull;    // how much to read before subscribing again
  Tracked weight{1};

  void Go(bool woken) {
    REQUIRE(++inside == 1, "a callback ran while another of its reader did");
    if (extra) extra();
    size_t n = 0;
    for (;; ++n) {
      if (n >= per_wakeup && n > 0) break;
      auto t = reader->TryRead();
      if (auto* item = t.item()) {
        tags.push_back(TagOf(k, *item));
        continue;
      }
      if (auto* st = t.close_status()) {
        status = *st;
        --inside;
        closed.store(true);
        return;
      }
      REQUIRE(!(woken && n == 0), "woken, but there is nothing to read");
      break;
    }
    --inside;
    ++subscribed;
    auto fired = std::make_shared<std::atomic<int>>(0);
    reader->SubscribeOnce([self = shared_from_this(), fired]() mutable {
      REQUIRE(++*fired == 1, "a callback was called twice");
      ++self->calls;
      auto s = std::move(self);
      s->Go(true);
    });
  }
};

void Subscriptions(Rng& r) {
  const Kind k = AnyKind(r);
  auto [stream0, writer0] = MakeStream(TypeOf(k), r.Below(3));
  StreamPtr stream = std::move(stream0);
  std::shared_ptr<StreamWriter> writer = std::move(writer0);
  const int nw = 1 + r.Below(2), nc = 1 + r.Below(3), nf = r.Below(3);
  const int n = r.P(1, 10) ? 60 : 1 + r.Below(6);
  const int ending = r.Below(4);  // 0: closed, 1: closed with an error, 2: dropped, 3: closed from a callback
  const absl::Status error = ending == 1 ? SomeError(r.Below(50)) : absl::OkStatus();
  std::atomic<int> written{0}, left{nw};
  std::vector<std::shared_ptr<Chain>> chains;
  std::vector<std::shared_ptr<Chain>> nested;
  for (int c = 0; c < nc; ++c) {
    auto ch = std::make_shared<Chain>();
    ch->k = k;
    ch->reader = stream->MakeReader();
    if (r.P(1, 3)) ch->per_wakeup = 1;
    // What the callback does to the stream it belongs to.
    switch (r.Below(4)) {
      case 0: ch->extra = [&, once = false]() mutable {
          if (once) return;
          once = true;
          auto rd = stream->MakeReader();
          (void)rd->TryRead();
          auto ch2 = std::make_shared<Chain>();
          ch2->k = k;
          ch2->reader = std::move(rd);
          // from the second value on, if there was one
          ch2->reader = stream->MakeReader();
          { vs::Critical cr; nested.push_back(ch2); }
          ch2->Go(false);
        };
        break;
      case 1: ch->extra = [&, w = std::weak_ptr<StreamWriter>(writer), left = 2]() mutable {
          if (left-- <= 0) return;
          if (auto s = w.lock()) if (s->TryWrite(MakeValue(k, 7).AsRef())) ++written;
        };
        break;
      default: break;
    }
    chains.push_back(ch);
  }
  if (ending == 3) {
    chains[0]->extra = [w = std::weak_ptr<StreamWriter>(writer), calls = 0]() mutable {
      if (++calls == 2) if (auto s = w.lock()) s->TryClose(absl::OkStatus());
    };
  }
  for (int w = 0; w < nw; ++w) {
    vs::Spawn([&, wr = writer, n]() mutable {
      for (int i = 0; i < n; ++i) if (wr->TryWrite(MakeValue(k, i).AsRef())) ++written;
      if (--left == 0) {
        if (ending <= 1) wr->TryClose(error);
        if (ending == 3) wr->TryClose(absl::OkStatus());
      }
      wr.reset();
    });
  }
  writer.reset();
  for (auto& ch : chains) vs::Spawn([ch] { ch->Go(false); });
  // Several subscriptions of one reader, none of which reads.
  std::vector<std::shared_ptr<std::atomic<int>>> flags;
  for (int f = 0; f < nf; ++f) {
    for (int j = 0; j < 2; ++j) flags.push_back(std::make_shared<std::atomic<int>>(0));
    vs::Spawn([&, a = flags[2 * f], b = flags[2 * f + 1]] {
      auto reader = stream->MakeReader();
      reader->SubscribeOnce([a, t = Tracked(1)] { ++*a; });
      reader->SubscribeOnce([b, t = Tracked(2)] { ++*b; });
      vs::Wait([&] { return a->load() > 0 && b->load() > 0; }, "two callbacks of one reader");
      REQUIRE(!reader->TryRead().empty(), "woken, but there is nothing to read");
    });
  }
  vs::End();
  for (auto& ch : nested) chains.push_back(ch);
  for (auto& f : flags) REQUIRE(f->load() == 1, "a callback was called ", f->load(), " times");
  for (auto& ch : chains) {
    REQUIRE(ch->closed.load(), "a reader was never told that the stream is closed");
    REQUIRE(ch->calls.load() == ch->subscribed.load(), ch->subscribed.load(), " subscriptions, ", ch->calls.load(), " calls");
    REQUIRE(static_cast<int>(ch->tags.size()) == written.load(), "a reader saw ", ch->tags.size(), " of ", written.load(), " values");
    if (ending == 2) REQUIRE(ch->status.code() == absl::StatusCode::kCancelled, ch->status.ToString());
    else REQUIRE(SameStatus(ch->status, error), ch->status.ToString());
    Count("callbacks", ch->calls.load());
  }
  // The chains hold readers; readers hold the stream; nothing holds the chains.
  std::weak_ptr<Stream> weak = stream;
  for (auto& ch : chains) ch->reader.reset();
  stream.reset();
  REQUIRE(weak.expired(), "the stream outlives everybody who knew it");
}

void Closing(Rng& r) {
  const Kind k = AnyKind(r);
  auto [stream0, writer0] = MakeStream(TypeOf(k), r.Below(3));
  StreamPtr stream = std::move(stream0);
  std::shared_ptr<StreamWriter> writer = std::move(writer0);
  std::weak_ptr<Stream> weak = stream;
  REQUIRE(!writer->Orphaned(), "a new stream is orphaned");
  const int mode = r.Below(3);
  if (mode == 0) {
    // Many close; one status wins, and it is not one that came late.
    const int nc = 1 + r.Below(3), nr = 1 + r.Below(2), nw = r.Below(3);
    std::atomic<uint64_t> clock{1};
    std::vector<uint64_t> began(nc, ~0ull), ended(nc, ~0ull);
    std::atomic<bool> any_began{false};
    std::atomic<int> any_ended{0};
    std::vector<Read> reads(nr);
    std::atomic<int> accepted{0};
    for (int c = 0; c < nc; ++c) {
      const bool rvalue = nc == 1 && r.P(1, 2);
      vs::Spawn([&, c, rvalue] {
        any_began.store(true);
        began[c] = clock.fetch_add(1);
        if (rvalue) std::move(*writer).Close(SomeError(c));
        else writer->TryClose(SomeError(c));
        REQUIRE(writer->Orphaned(), "closed, but not orphaned");
        ended[c] = clock.fetch_add(1);
        ++any_ended;
      });
    }
    for (int w = 0; w < nw; ++w) {
      vs::Spawn([&] {
        bool no = false;
        for (int i = 0; i < 5; ++i) {
          const bool all_ended = any_ended.load() == nc;
          const bool orphaned = writer->Orphaned();
          const bool ok = writer->TryWrite(MakeValue(k, i).AsRef());
          if (ok) ++accepted;
          REQUIRE(!(ok && orphaned), "accepted though orphaned");
          REQUIRE(!(ok && no), "accepted after a refusal");
          REQUIRE(!(ok && all_ended), "accepted after the stream was closed");
          const bool began_now = any_began.load();
          REQUIRE(ok || began_now, "refused before anybody closed the stream");
          no = !ok;
        }
      });
    }
    vs::Spawn([&] {
      bool was = false;
      for (int i = 0; i < 6; ++i) {
        const bool o = writer->Orphaned();
        const bool began_now = any_began.load();
        REQUIRE(!(was && !o), "no longer orphaned");
        REQUIRE(!o || began_now, "orphaned while the stream is open and known");
        was = o;
        vs::Point();
      }
    });
    for (int i = 0; i < nr; ++i) vs::Spawn([&, i] { reads[i] = ReadAll(k, stream); });
    vs::End();
    reads.push_back(ReadAll(k, stream));
    int winner = -1;
    for (int c = 0; c < nc; ++c) if (SameStatus(reads[0].status, SomeError(c))) winner = c;
    REQUIRE(winner >= 0, "closed with a status nobody gave: ", reads[0].status.ToString());
    for (int c = 0; c < nc; ++c) REQUIRE(ended[c] > began[winner], "a later close won over an earlier one");
    for (auto& rd : reads) {
      REQUIRE(SameStatus(rd.status, reads[0].status), "two readers see different statuses");
      REQUIRE(static_cast<int>(rd.tags.size()) == accepted.load(), rd.tags.size(), " of ", accepted.load(), " values");
    }
    Count("closers", nc);
  } else if (mode == 1) {
    // The stream and its readers go away one by one while somebody writes.
    const int nr = r.Below(3);
    std::atomic<int> holders{nr + 1};
    std::vector<StreamReaderPtr> readers;
    for (int i = 0; i < nr; ++i) readers.push_back(stream->MakeReader());
    const int n = 1 + r.Below(6);
    const bool silent = r.P(1, 2);  // the writer only looks
    for (int i = 0; i < nr; ++i) {
      const int sub = r.Below(2);
      vs::Spawn([&, i, sub] {
        StreamReaderPtr rd = std::move(readers[i]);
        if (sub) rd->SubscribeOnce([t = Tracked(3)] {});
        for (int j = 0; j < 3; ++j) (void)rd->TryRead();
        --holders;
        rd.reset();
      });
    }
    vs::Spawn([&, s = std::move(stream)]() mutable { vs::Point(); --holders; s.reset(); });
    vs::Spawn([&] {
      bool was = false;
      for (int i = 0; i < n; ++i) {
        const bool o = writer->Orphaned();
        REQUIRE(!o || holders.load() == 0, "orphaned while somebody can read");
        REQUIRE(!(was && !o), "no longer orphaned");
        was = o;
        if (silent) {
          vs::Point();
          continue;
        }
        const bool ok = writer->TryWrite(MakeValue(k, i).AsRef());
        REQUIRE(ok || holders.load() == 0, "refused while somebody can read");
        REQUIRE(!(ok && was), "accepted though orphaned");
      }
    });
    vs::End();
    REQUIRE(weak.expired(), "the stream outlives its readers");
    REQUIRE(writer->Orphaned(), "nobody can read, but not orphaned");
    REQUIRE(!writer->TryWrite(MakeValue(k, 1).AsRef()), "accepted though nobody can read");
    writer->Write(MakeValue(k, 1).AsRef());
    writer->TryClose(SomeError(1));
    Count("orphaned");
  } else {
    // The writer goes away; readers that come from a stream dropped earlier.
    const int n = r.Below(5);
    const bool close_first = r.P(1, 2);
    std::vector<Read> reads(2);
    auto late = stream->MakeReader();
    vs::Spawn([&, w = std::move(writer)]() mutable {
      for (int i = 0; i < n; ++i) REQUIRE(w->TryWrite(MakeValue(k, i).AsRef()), "refused");
      if (close_first) w->TryClose(SomeError(5));
      w.reset();
    });
    for (int i = 0; i < 2; ++i) vs::Spawn([&, i, s = stream]() mutable { reads[i] = ReadAll(k, s); });
    stream.reset();
    vs::End();
    reads.push_back(ReadNow(k, *late));
    for (auto& rd : reads) {
      REQUIRE(rd.closed, "the writer is gone, but the stream is open");
      REQUIRE(static_cast<int>(rd.tags.size()) == n, rd.tags.size(), " of ", n, " values");
      if (close_first) REQUIRE(SameStatus(rd.status, SomeError(5)), rd.status.ToString());
      else REQUIRE(rd.status.code() == absl::StatusCode::kCancelled, "a stream left open by its writer ends with ", rd.status.ToString());
    }
    late.reset();
    REQUIRE(weak.expired(), "the stream outlives its readers");
    Count("dropped_writers");
  }
}

Register r1("X01", Delivery), r2("X02", Subscriptions), r3("X03", Closing);
}  // namespace
}  // namespace drv
