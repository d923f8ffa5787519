// Runs the JSON stream processors on requests from stdin.
//
// request:  u32 size, then u8 kind, u8 flags, i64 a, str s, list of str paths,
//           list of str chunks
// response: u32 size, then list of (u8 tag, list of str)
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <variant>
#include <vector>

#include "absl/log/check.h"
#include "koladata/data_slice.h"
#include "koladata/functor/parallel/eager_executor.h"
#include "koladata/functor/parallel/stream.h"
#include "koladata/functor/parallel/stream_filter_json.h"
#include "koladata/internal/op_utils/json_stream.h"
#include "koladata/operators/json_stream.h"
#include "koladata/operators/json_stream_parser.h"

namespace in = koladata::internal;
using koladata::ops::JsonStreamParser;

namespace {

struct Reader {
  const std::string& d;
  size_t p = 0;
  uint8_t u8() { return static_cast<uint8_t>(d[p++]); }
  uint32_t u32() { uint32_t v; std::memcpy(&v, d.data() + p, 4); p += 4; return v; }
  int64_t i64() { int64_t v; std::memcpy(&v, d.data() + p, 8); p += 8; return v; }
  std::string str() { uint32_t n = u32(); std::string s = d.substr(p, n); p += n; return s; }
  std::vector<std::string> strs() { std::vector<std::string> v(u32()); for (auto& s : v) s = str(); return v; }
};

struct Writer {
  std::string d;
  void u32(uint32_t v) { d.append(reinterpret_cast<const char*>(&v), 4); }
  void str(std::string_view s) { u32(s.size()); d.append(s); }
};

using Step = std::pair<uint8_t, std::vector<std::string>>;
using Path = absl::Span<const std::variant<int64_t, std::string>>;

std::string Encode(Path path) {
  std::string s;
  for (const auto& x : path) {
    if (const int64_t* i = std::get_if<int64_t>(&x)) s += "i" + std::to_string(*i) + "/";
    else s += "k" + std::to_string(std::get<std::string>(x).size()) + ":" + std::get<std::string>(x);
  }
  return s;
}

template <typename P>
void Drive(P& p, uint8_t flags, const std::vector<std::string>& chunks, std::vector<Step>& out) {
  for (size_t i = 0; i <= chunks.size(); ++i) {
    // With flag 1, the end comes with the last chunk, otherwise by itself.
    const bool last = i == chunks.size();
    if (last && (flags & 1) && !chunks.empty()) return;
    const bool end = last || ((flags & 1) && i + 1 == chunks.size());
    // An exact copy, so that reading past it is seen.
    std::unique_ptr<char[]> exact;
    std::string_view view;
    if (!last) {
      exact.reset(new char[chunks[i].size()]);
      std::memcpy(exact.get(), chunks[i].data(), chunks[i].size());
      view = std::string_view(exact.get(), chunks[i].size());
    }
    auto r = p.Process(view, end);
    out.push_back({static_cast<uint8_t>(r.is_end), std::vector<std::string>(r.chunks.begin(), r.chunks.end())});
    if (r.is_end) return;
  }
}

template <typename P>
void Make(uint8_t flags, const std::vector<std::string>& chunks, std::vector<Step>& out) {
  auto p = std::make_unique<P>();
  Drive(*p, flags, chunks, out);
}

void Parser(uint8_t flags, int64_t a, const std::vector<std::string>& chunks, std::vector<Step>& out) {
  JsonStreamParser p((flags & 2) ? JsonStreamParser::SeparatorPolicy::REMOVE : JsonStreamParser::SeparatorPolicy::KEEP);
  p.AllowSingleQuotes(flags & 4);
  p.AllowUnquotedKeys(flags & 8);
  p.AllowLinebreakInStrings(flags & 16);
  p.EnableQuotingInvalidTokens(flags & 32);
  p.SetValueBeginCallback([&](absl::string_view path, JsonStreamParser::ValueType t) {
    std::vector<std::string> v = {std::string(path), std::to_string(static_cast<int>(t))};
    if (a & 1) v.push_back(std::string(p.ConsumeChunk()));
    out.push_back({'B', v});
  });
  p.SetValueEndCallback([&](absl::string_view path, absl::string_view json) {
    std::vector<std::string> v = {std::string(path), std::string(json)};
    if (a & 2) v.push_back(std::string(p.ConsumeChunk()));
    out.push_back({'E', v});
  });
  for (const std::string& c : chunks) {
    absl::Status s = p.AddChunk(c);
    if (a & 4) out.push_back({'C', {std::string(p.ConsumeChunk())}});
    if (!s.ok()) {
      out.push_back({'S', {"error", std::string(s.message())}});
      return;
    }
  }
  absl::Status s = p.Finalize();
  if (a & 4) out.push_back({'C', {std::string(p.ConsumeChunk())}});
  out.push_back({'S', {s.ok() ? "ok" : "unfinished", std::string(s.message())}});
}

// An operator, fed through a stream item by item; steps hold what could be read
// after each item. `missing` names the items that are missing values. The last
// step has what could be read after the end, tag 1 if the output ended well, 2
// with an error (its message first), 3 if it did not end.
void Operator(int kind, uint8_t flags, int64_t a, const std::string& s, const std::vector<std::string>& missing, const std::vector<std::string>& chunks,
              std::vector<Step>& out) {
  namespace par = koladata::functor::parallel;
  namespace ops = koladata::ops;
  using koladata::DataSlice;
  auto ex = par::GetEagerExecutor();
  auto [in, writer] = par::MakeStream(arolla::GetQType<DataSlice>());
  const DataSlice text = DataSlice::CreatePrimitive(arolla::Text(s));
  const DataSlice num = a % 2 && a < 1000000 && a > -1000000 ? DataSlice::CreatePrimitive(static_cast<int>(a)) : DataSlice::CreatePrimitive(a);
  auto make = [&]() -> absl::StatusOr<par::StreamPtr> {
    switch (kind) {
      case 30: return ops::JsonStreamSalvageStream(ex, in, DataSlice::CreatePrimitive((flags & 2) != 0), DataSlice::CreatePrimitive((flags & 4) != 0), num);
      case 31: return ops::JsonStreamPrettifyStream(ex, in, text);
      case 32: return ops::JsonStreamHeadStream(ex, in, num);
      case 33: return ops::JsonStreamSelectNonemptyObjectsStream(ex, in);
      case 34: return ops::JsonStreamSelectNonemptyArraysStream(ex, in);
      case 35: return ops::JsonStreamSelectNonnullStream(ex, in);
      case 36: return ops::JsonStreamGetObjectKeyValueStream(ex, in, text);
      case 37: return ops::JsonStreamGetObjectKeyValuesStream(ex, in, text);
      case 38: return ops::JsonStreamImplodeArrayStream(ex, in);
      case 39: return ops::JsonStreamExplodeArrayStream(ex, in);
      case 40: return ops::JsonStreamGetArrayNthValueStream(ex, in, num);
      case 41: return ops::JsonStreamUnquoteStream(ex, in);
      case 42: return ops::JsonStreamQuoteStream(ex, in);
      case 43: return ops::JsonStreamChunkValuesStream(ex, in);
      case 44: return par::StreamFilterJson(ex, in, text);
      case 45: return par::StreamStringFromJson(ex, in, text);
    }
    return absl::InternalError("no such operator");
  };
  absl::StatusOr<par::StreamPtr> made = make();
  if (!made.ok()) {
    out.push_back({4, {std::string(made.status().message())}});
    return;
  }
  auto reader = (*made)->MakeReader();
  bool ended = false;
  auto read = [&](uint8_t tag) {
    std::vector<std::string> v;
    for (;;) {
      auto t = reader->TryRead();
      if (auto* item = t.item()) {
        const DataSlice& d = item->UnsafeAs<DataSlice>();
        CHECK(d.is_item() && d.GetSchemaImpl() == koladata::schema::kString);
        v.push_back(std::string(d.item().value<arolla::Text>().view()));
        continue;
      }
      if (auto* status = t.close_status()) {
        ended = true;
        if (status->ok()) tag = 1;
        else { tag = 2; v.insert(v.begin(), std::string(status->message())); }
      } else if (tag == 9) {
        tag = 3;
      }
      out.push_back({tag, v});
      return;
    }
  };
  const std::set<std::string> gaps(missing.begin(), missing.end());
  for (size_t i = 0; i < chunks.size(); ++i) {
    DataSlice d = DataSlice::CreatePrimitive(arolla::Text(chunks[i]));
    if (gaps.count(std::to_string(i))) d.it.text.reset();
    if (!writer->TryWrite(arolla::TypedRef::FromValue(d))) break;
    read(0);
    if (ended) return;
  }
  writer->TryClose(absl::OkStatus());
  read(9);
}

std::vector<Step> Case(const std::string& req) {
  Reader r{req};
  const uint8_t kind = r.u8(), flags = r.u8();
  vshim::dchecks = (flags & 128) != 0;
  const int64_t a = r.i64();
  const std::string s = r.str();
  const std::vector<std::string> paths = r.strs(), chunks = r.strs();
  std::vector<Step> out;
  switch (kind) {
    case 0: {
      in::JsonSalvageStreamProcessor p({.allow_nan = (flags & 2) != 0, .ensure_ascii = (flags & 4) != 0, .max_depth = a});
      Drive(p, flags, chunks, out);
      break;
    }
    case 1: {
      in::JsonHeadStreamProcessor p({.n = a});
      Drive(p, flags, chunks, out);
      break;
    }
    case 2: {
      in::JsonPrettifyStreamProcessor p({.indent_string = s});
      Drive(p, flags, chunks, out);
      break;
    }
    case 3: Make<in::JsonCompactifyStreamProcessor>(flags, chunks, out); break;
    case 4: Make<in::JsonSelectNonemptyObjectsStreamProcessor>(flags, chunks, out); break;
    case 5: Make<in::JsonSelectNonemptyArraysStreamProcessor>(flags, chunks, out); break;
    case 6: Make<in::JsonSelectNonnullStreamProcessor>(flags, chunks, out); break;
    case 7: {
      const std::set<std::string> want(paths.begin(), paths.end());
      std::vector<std::string> asked;
      in::JsonExtractValuesOptions o;
      // A path part "**" asks for the values at one key or index anywhere.
      o.path_match_fn = [&](Path path) {
        std::string e = Encode(path);
        asked.push_back(e);
        return want.count(e) > 0;
      };
      o.with_path = (flags & 2) != 0;
      in::JsonExtractValuesStreamProcessor p(o);
      Drive(p, flags, chunks, out);
      out.push_back({'P', asked});
      break;
    }
    case 8: Make<in::JsonImplodeArrayStreamProcessor>(flags, chunks, out); break;
    case 9: Make<in::JsonExplodeArrayStreamProcessor>(flags, chunks, out); break;
    case 10: {
      in::JsonGetArrayNthValueStreamProcessor p({.n = a});
      Drive(p, flags, chunks, out);
      break;
    }
    case 11: Make<in::JsonUnquoteStreamProcessor>(flags, chunks, out); break;
    case 12: Make<in::JsonQuoteStreamProcessor>(flags, chunks, out); break;
    case 13: Make<in::JsonChunkValuesStreamProcessor>(flags, chunks, out); break;
    case 20: Parser(flags, a, chunks, out); break;
    default: Operator(kind, flags, a, s, paths, chunks, out); break;
  }
  return out;
}

}  // namespace

int main() {
  std::string req;
  for (;;) {
    uint32_t n;
    if (std::fread(&n, 4, 1, stdin) != 1) return 0;
    req.resize(n);
    if (n && std::fread(req.data(), n, 1, stdin) != 1) return 0;
    Writer w;
    auto steps = Case(req);
    w.u32(steps.size());
    for (auto& [tag, strs] : steps) {
      w.d.push_back(static_cast<char>(tag));
      w.u32(strs.size());
      for (auto& s : strs) w.str(s);
    }
    n = w.d.size();
    std::fwrite(&n, 4, 1, stdout);
    std::fwrite(w.d.data(), w.d.size(), 1, stdout);
    std::fflush(stdout);
  }
}
