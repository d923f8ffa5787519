// Interleaving and chaining of streams (X06).
#include "common.h"
#include "koladata/functor/parallel/stream_composition.h"

namespace drv {
namespace {

struct Input {
  bool is_stream = false, is_item = false;
  absl::Status error;         // of an error input, or what closes the stream
  bool dropped = false;       // the writer goes away instead of closing
  std::vector<uint64_t> tags;
  StreamPtr stream;
  std::shared_ptr<StreamWriter> writer;
  std::atomic<bool> done{false};
  bool fails() const { return dropped || !error.ok(); }
};

template <typename C>
void Compose(Rng& r, bool ordered) {
  const Kind k = r.Of({Kind::kInt, Kind::kTracked, Kind::kBig, Kind::kMid});
  auto [stream0, writer0] = MakeStream(TypeOf(k), r.Below(3));
  StreamPtr out = std::move(stream0);
  auto comp = std::make_shared<C>(std::move(writer0));
  REQUIRE(!comp->Orphaned(), "a new composition is orphaned");
  const int ni = r.Below(6);
  const bool errors = r.P(1, 3), orphan = r.P(1, 8);
  std::vector<std::unique_ptr<Input>> inputs;
  for (int i = 0; i < ni; ++i) {
    auto in = std::make_unique<Input>();
    const int what = r.Below(10);
    const bool fails = errors && r.P(1, 3);
    if (what < 7) {
      in->is_stream = true;
      auto [s, w] = MakeStream(TypeOf(k), r.Below(3));
      in->stream = std::move(s);
      in->writer = std::move(w);
      const int n = r.P(1, 12) ? 40 : r.Below(5);
      for (int j = 0; j < n; ++j) in->tags.push_back((i << 16) | j);
      if (fails) {
        if (r.P(1, 3)) in->dropped = true;
        else in->error = SomeError(i * 4 + r.Below(3));
      }
      if (r.P(1, 4)) {  // some are complete before they are added
        for (auto t : in->tags) in->writer->Write(MakeValue(k, t).AsRef());
        if (!in->dropped) in->writer->TryClose(in->error);
        in->writer.reset();
        in->done = true;
      }
    } else if (fails) {
      in->error = SomeError(i * 4 + 3);
      in->done = true;
    } else {
      in->is_item = true;
      in->tags.push_back(i << 16);
      in->done = true;
    }
    inputs.push_back(std::move(in));
  }
  std::atomic<bool> comp_gone{false};
  auto out_reader = out->MakeReader();
  Read read;
  std::atomic<bool> read_done{false};
  const int quit_after = orphan ? static_cast<int>(r.Below(4)) : -1;
  const bool by_chain = r.P(1, 2);
  (void)by_chain;
  vs::Spawn([&, reader = std::shared_ptr<StreamReader>(std::move(out_reader)), s = out]() mutable {
    s.reset();
    while (static_cast<int>(read.tags.size()) != quit_after) {
      auto t = reader->TryRead();
      if (auto* item = t.item()) {
        read.tags.push_back(TagOf(k, *item));
        continue;
      }
      if (auto* st = t.close_status()) {
        read.closed = true;
        read.status = *st;
        if (st->ok()) {
          REQUIRE(comp_gone.load(), "closed while more could be added");
          for (auto& in : inputs) REQUIRE(in->done.load(), "closed before an input was");
        }
        break;
      }
      auto flag = std::make_shared<std::atomic<bool>>(false);
      reader->SubscribeOnce([flag] { flag->store(true); });
      vs::Wait([&] { return flag->load(); }, "the callback of the reader of a composition");
    }
    reader.reset();
    read_done = true;
  });
  out.reset();
  // The writers of the inputs.
  for (auto& p : inputs) {
    if (!p->is_stream || !p->writer) continue;
    vs::Spawn([&, in = p.get()] {
      auto w = std::move(in->writer);
      for (auto t : in->tags) if (!w->TryWrite(MakeValue(k, t).AsRef())) return;
      in->done = true;
      if (!in->dropped) w->TryClose(in->error);
      w.reset();
    });
  }
  // Who adds them: for a chain one thread, else maybe two.
  const int na = ordered ? 1 : 1 + r.Below(2);
  std::atomic<int> adders{na};
  for (int a = 0; a < na; ++a) {
    vs::Spawn([&, a, c = comp]() mutable {
      for (int i = a; i < ni; i += na) {
        auto& in = *inputs[i];
        if (in.is_stream) {
          c->Add(in.stream);
          in.stream.reset();
        } else if (in.is_item) {
          auto v = MakeValue(k, in.tags[0]);
          c->AddItem(v.AsRef());
        } else {
          c->AddError(in.error);
        }
        if (quit_after < 0 && !errors) REQUIRE(!c->Orphaned(), "orphaned while somebody reads");
      }
      if (--adders == 0) comp_gone = true;
      c.reset();
    });
  }
  comp.reset();
  vs::End();
  REQUIRE(read_done.load());
  // What may have come out.
  std::vector<std::vector<uint64_t>> by(ni);
  size_t last = 0;
  for (auto t : read.tags) {
    const size_t i = t >> 16;
    REQUIRE(i < inputs.size() && (inputs[i]->is_stream || inputs[i]->is_item), "an item nobody put in: ", t);
    by[i].push_back(t);
    if (ordered) {
      REQUIRE(i >= last, "items of a later input before those of an earlier one");
      last = i;
    }
  }
  size_t first_failing = ~0ull;
  for (size_t i = 0; i < inputs.size(); ++i) {
    auto& in = *inputs[i];
    REQUIRE(by[i].size() <= in.tags.size() && std::equal(by[i].begin(), by[i].end(), in.tags.begin()),
            "the items of an input changed or are out of order");
    if (first_failing == ~0ull && in.fails()) first_failing = i;
  }
  if (quit_after < 0 || read.closed) {
    if (first_failing == ~0ull) {
      REQUIRE(read.closed && read.status.ok(), "no input failed, but the output ends with ", read.status.ToString());
      for (size_t i = 0; i < inputs.size(); ++i)
        REQUIRE(by[i].size() == inputs[i]->tags.size(), "input ", i, ": ", by[i].size(), " of ", inputs[i]->tags.size(), " items");
      Count("complete");
    } else {
      REQUIRE(!read.status.ok(), "an input failed, but the output ends well");
      auto gave = [&](const Input& in) {
        return in.dropped ? read.status.code() == absl::StatusCode::kCancelled : !in.error.ok() && SameStatus(read.status, in.error);
      };
      if (ordered) {
        REQUIRE(gave(*inputs[first_failing]), "the output ends with ", read.status.ToString(), ", not as its first failing input");
        for (size_t i = 0; i < inputs.size(); ++i) {
          const size_t want = i <= first_failing ? inputs[i]->tags.size() : 0;
          REQUIRE(by[i].size() == want, "input ", i, ": ", by[i].size(), " items, expected ", want, "; the first to fail is ", first_failing);
        }
      } else {
        bool any = false;
        for (size_t i = 0; i < inputs.size(); ++i) {
          if (gave(*inputs[i])) {
            any = true;
            // What was in the failing input comes out before its failure.
            if (std::count_if(inputs.begin(), inputs.end(), [](auto& in) { return in->fails(); }) == 1)
              REQUIRE(by[i].size() == inputs[i]->tags.size(), "items before the failure of an input are lost");
          }
        }
        REQUIRE(any, "the output ends with a status no input gave: ", read.status.ToString());
      }
      Count("failed");
    }
  } else {
    Count("abandoned");
  }
  Count("items", read.tags.size());
}

// Whoever reads the output may add to the composition from its callback.
void Feedback(Rng& r) {
  const Kind k = Kind::kTracked;
  auto [stream0, writer0] = MakeStream(TypeOf(k), 0);
  StreamPtr out = std::move(stream0);
  auto chain = std::make_shared<StreamChain>(std::move(writer0));
  const int rounds = 1 + r.Below(4), n = 1 + r.Below(3);
  std::vector<std::shared_ptr<StreamWriter>> writers;
  std::vector<StreamPtr> streams;
  for (int i = 0; i <= rounds; ++i) {
    auto [s, w] = MakeStream(TypeOf(k), 0);
    streams.push_back(std::move(s));
    writers.push_back(std::move(w));
  }
  struct Loop {
    StreamReaderPtr reader;
    std::shared_ptr<StreamChain> chain;
    std::vector<StreamPtr>* streams;
    size_t next = 1;
    std::vector<uint64_t> tags;
    bool closed = false;
    absl::Status status;
    void Go(std::shared_ptr<Loop> self) {
      for (;;) {
        auto t = reader->TryRead();
        if (auto* item = t.item()) {
          tags.push_back(TagOf(Kind::kTracked, *item));
          if (chain && tags.back() % 10 == 0) {
            if (next < streams->size()) chain->Add((*streams)[next++]);
            if (next == streams->size()) chain.reset();
          }
          continue;
        }
        if (auto* st = t.close_status()) {
          closed = true;
          status = *st;
          return;
        }
        break;
      }
      reader->SubscribeOnce([self]() mutable { auto s = std::move(self); s->Go(s); });
    }
  };
  auto loop = std::make_shared<Loop>();
  loop->reader = out->MakeReader();
  loop->chain = chain;
  loop->streams = &streams;
  chain->Add(streams[0]);
  chain.reset();
  loop->Go(loop);
  std::vector<uint64_t> expected;
  for (int i = 0; i <= rounds; ++i) {
    for (int j = 0; j < n; ++j) expected.push_back(i * 100 + j);
    vs::Spawn([&, i, w = writers[i]]() mutable {
      for (int j = 0; j < n; ++j) if (!w->TryWrite(MakeValue(k, i * 100 + j).AsRef())) return;
      w->TryClose(absl::OkStatus());
    });
  }
  writers.clear();
  vs::End();
  REQUIRE(loop->closed && loop->status.ok(), "a chain that is fed by its reader did not end well");
  REQUIRE(loop->tags == expected, "a chain that is fed by its reader lost or reordered items");
  loop->reader.reset();
  Count("feedback");
}

void Compositions(Rng& r) {
  const uint64_t k = r.Below(9);
  if (k < 4) Compose<StreamInterleave>(r, false);
  else if (k < 8) Compose<StreamChain>(r, true);
  else Feedback(r);
}
Register r6("X06", Compositions);
}  // namespace
}  // namespace drv
