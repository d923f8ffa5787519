source /verif/tools/seedlib.sh
source /verif/tools/cseedlib.sh
P=koladata/functor/parallel
JS=koladata/internal/op_utils/json_stream.cc
JP=koladata/operators/json_stream_parser.cc
JF=$P/stream_filter_json.cc
JO=koladata/operators/json_stream.cc
RT="$P/stream.cc $P/executor.cc $P/eager_executor.cc $P/basic_routine.cc"
IN='#include <cstdio>
#include <string>
#include <vector>
#include "koladata/internal/op_utils/json_stream.h"
namespace vs { void Point() {} }
using namespace koladata::internal;
template <typename P> std::string Run(P p, std::vector<std::string> chunks) {
  std::string r;
  for (size_t i = 0; i <= chunks.size(); ++i) {
    auto [out, end] = i < chunks.size() ? p.Process(chunks[i], false) : p.Process("", true);
    for (auto& s : out) r += s;
    if (end) break;
  }
  return r;
}
static int bad = 0;
void Eq(std::string a, std::string b) { while (!a.empty() && a.back() == '\''\n'\'') a.pop_back(); while (!b.empty() && b.back() == '\''\n'\'') b.pop_back(); if (a != b) { std::printf("got  %s\nwant %s\n", a.c_str(), b.c_str()); bad = 1; } }
'
RTI='#include "arolla/mini.h"
#include "koladata/data_slice.h"
#include "koladata/functor/parallel/eager_executor.h"
#include "koladata/functor/parallel/stream.h"
#include "koladata/functor/parallel/stream_filter_json.h"
#include "koladata/operators/json_stream.h"
using namespace koladata::functor::parallel;
using koladata::DataSlice;
DataSlice T(std::string s) { return DataSlice::CreatePrimitive(arolla::Text(s)); }
template <typename F> std::string Go(F make, std::vector<std::string> chunks, absl::Status close, std::vector<std::string>* items = nullptr) {
  auto [in, w] = MakeStream(arolla::GetQType<DataSlice>());
  auto out = *make(GetEagerExecutor(), in);
  for (auto& c : chunks) w->TryWrite(arolla::TypedRef::FromValue(T(c)));
  w->TryClose(std::move(close));
  auto r = out->MakeReader();
  std::string s;
  for (;;) {
    auto t = r->TryRead();
    if (auto* i = t.item()) { std::string x(i->template UnsafeAs<DataSlice>().item().template value<arolla::Text>().view()); s += x; if (items) items->push_back(x); }
    else if (auto* c = t.close_status()) return s + (c->ok() ? "|ok" : "|" + std::string(c->message()));
    else return s + "|open";
  }
}
'
pm() { local id="$1"; { printf '%s' "$IN"; cat; } | jdemo "$id" "$JS" ""; }
om() { local id="$1"; { printf '%s' "$IN$RTI"; cat; } | jdemo "$id" "$JS $JP $JF $JO $RT" ""; }

mk j01a J01 "a chunk that ends right after the first half of a surrogate pair written as two escapes" "the unquoting of a string gives up on a pending first half at the end of a chunk, so the text depends on where the input is cut" <<J
{"$JS": [["        AppendUtf8CodePoint(kReplacementCharacter, output);\n        escape_buffer_.clear();\n      }\n    } else if (c == '\"') {\n      is_in_string_ = true;\n    }\n  }\n", "        AppendUtf8CodePoint(kReplacementCharacter, output);\n        escape_buffer_.clear();\n      }\n    } else if (c == '\"') {\n      is_in_string_ = true;\n    }\n  }\n  if (escape_buffer_.size() == 6) {\n    AppendUtf8CodePoint(kReplacementCharacter, output);\n    escape_buffer_.clear();\n  }\n"]]}
J
pm j01a <<'C'
int main() { Eq(Run(JsonUnquoteStreamProcessor(), {"\"\\ud83d", "\\ude80\""}), "\xf0\x9f\x9a\x80"); return bad; }
C
mk j01b J01 "a value that reaches chunking in more than one piece, with the first piece ending right at a container end" "the chunking of values passes on what it has buffered at the end of every chunk that closes a container, not only at the end of a value" <<J
{"$JS": [["  if (end_of_compactify) {\n    DCHECK(buffer_.empty());\n  }\n", "  if (buffer_.size() > 1 && buffer_.back() == '}') {\n    output_chunks.push_back(std::move(buffer_));\n    buffer_.clear();\n  }\n  if (end_of_compactify) {\n    DCHECK(buffer_.empty());\n  }\n"]]}
J
pm j01b <<'C'
int main() {
  JsonChunkValuesStreamProcessor p;
  size_t n = 0;
  for (auto c : {"[{}", ",1]\n"}) { auto [out, end] = p.Process(c, false); n += out.size(); for (auto& s : out) Eq(s, "[{},1]\n"); }
  return bad || n != 1;
}
C
mk j02a J02 "the character U+0080 in a string when only ASCII may be output" "the character U+0080 is emitted as it is" <<J
{"$JS": [["  } else if (c >= 0x80 && options_.ensure_ascii) {\n", "  } else if (c > 0x80 && options_.ensure_ascii) {\n"]]}
J
pm j02a <<'C'
int main() { Eq(Run(JsonSalvageStreamProcessor({.ensure_ascii = true, .max_depth = 100}), {"\"\xc2\x80\""}), "\"\\u0080\"\n"); return bad; }
C
mk j03a J03 "an octal escape of three digits that is followed by another octal digit" "an octal escape takes up to four digits" <<J
{"$JS": [["        if (buffer_.size() == 5) {\n          EmitJsonStringCodePoint(ConvertBufferValueAt(2, 8));\n", "        if (buffer_.size() == 6) {\n          EmitJsonStringCodePoint(ConvertBufferValueAt(2, 8));\n"]]}
J
pm j03a <<'C'
int main() { Eq(Run(JsonSalvageStreamProcessor({.ensure_ascii = false, .max_depth = 100}), {"'\\1234'"}), "\"S4\"\n"); return bad; }
C
mk j03b J03 "a line continuation with a CR LF line ending inside of a string" "the LF of a CR LF line continuation stays in the string" <<J
{"$JS": [["        ClearBuffer();  // NOMUTANTS -- redundant; kept for readability\n", "        ClearBuffer();\n        consumed_c = false;\n"]]}
J
pm j03b <<'C'
int main() { Eq(Run(JsonSalvageStreamProcessor({.ensure_ascii = false, .max_depth = 100}), {"'a\\\r\nb'"}), "\"ab\"\n"); return bad; }
C
mk j04a J04 "a top-level array whose only content is an empty object" "the value of such an array is not ended with a newline, so it is glued to the next" <<J
{"$JS": [["      } else if (c == '{') {\n        ++container_depth_;\n        emit_c_if_matched();\n        has_contents_ = true;\n      } else if (c == ',' && is_top_level_array_ && container_depth_ == 1) {\n        output.push_back('\\\\n');\n      }", "      } else if (c == '{') {\n        ++container_depth_;\n        emit_c_if_matched();\n      } else if (c == ',' && is_top_level_array_ && container_depth_ == 1) {\n        output.push_back('\\\\n');\n      }"]]}
J
pm j04a <<'C'
int main() { Eq(Run(JsonExplodeArrayStreamProcessor(), {"[{}]\n[2]\n"}), "{}\n2\n"); return bad; }
C
mk j04b J04 "an input that goes on after the wanted number of values" "the first values only end the output when the next chunk comes" <<J
{"$JS": [["      ++line_number_;\n      if (line_number_ >= options_.n) {\n        return FromSingleStringOutput(std::move(output), true);\n      }\n", "      ++line_number_;\n      if (line_number_ >= options_.n) {\n        break;\n      }\n"]]}
J
om j04b <<'C'
int main() {
  auto [in, w] = MakeStream(arolla::GetQType<DataSlice>());
  auto out = *koladata::ops::JsonStreamHeadStream(GetEagerExecutor(), in, DataSlice::CreatePrimitive(int64_t{1}));
  w->TryWrite(arolla::TypedRef::FromValue(T("1\n")));
  auto r = out->MakeReader();
  std::string got;
  for (;;) {
    auto t = r->TryRead();
    if (auto* i = t.item()) { got += i->UnsafeAs<DataSlice>().item().value<arolla::Text>().view(); continue; }
    got += t.close_status() ? "closed" : "open";
    break;
  }
  Eq(got, "1\nclosed");
  return bad;
}
C
mk j05a J05 "a wanted key again inside of an object that is an element of an array under another key" "keys are matched by the last part of the path and its first, so nested objects in arrays yield extra values" <<J
{"$JO": [["  return RunCompositeJsonStreamProcessor(\n      std::move(executor), std::move(input_stream),\n      internal::JsonCompactifyStreamProcessor(),\n      internal::JsonExtractValuesStreamProcessor(\n          internal::JsonExtractValuesOptions{\n              .path_match_fn = std::move(path_match_fn),\n          }));\n", "  auto top_match_fn =\n      [path_match_fn = std::move(path_match_fn)](\n          absl::Span<const std::variant<int64_t, std::string>> path) -> bool {\n    if (path.size() == 3 && std::holds_alternative<int64_t>(path[1])) {\n      return path_match_fn(path.subspan(2));\n    }\n    return path_match_fn(path);\n  };\n\n  return RunCompositeJsonStreamProcessor(\n      std::move(executor), std::move(input_stream),\n      internal::JsonCompactifyStreamProcessor(),\n      internal::JsonExtractValuesStreamProcessor(\n          internal::JsonExtractValuesOptions{\n              .path_match_fn = std::move(top_match_fn),\n          }));\n"]]}
J
om j05a <<'C'
int main() {
  Eq(Go([](auto e, auto in) { return koladata::ops::JsonStreamGetObjectKeyValuesStream(e, in, T("k")); }, {"{\"b\":[{\"k\":1}],\"k\":2}\n"}, absl::OkStatus()), "[2]\n|ok");
  return bad;
}
C
mk j05b J05 "a matched value that is the last of an object, itself a container, with an escaped quote in a string" "strings within a match do not tell escaped characters" <<J
{"$JS": [["      if (is_in_escape_) {\n        is_in_escape_ = false;\n      } else if (c == '\"') {\n        is_in_string_ = false;\n      } else if (c == '\\\\\\\\') {\n        is_in_escape_ = true;\n      }\n    } else {\n      if (c == '\"') {\n        is_in_string_ = true;\n        if (!is_in_match_ && is_object_key_) {\n", "      if (is_in_escape_) {\n        is_in_escape_ = false;\n      } else if (c == '\"') {\n        is_in_string_ = false;\n      } else if (c == '\\\\\\\\') {\n        is_in_escape_ = !is_in_match_ || match_depth_ < 2;\n      }\n    } else {\n      if (c == '\"') {\n        is_in_string_ = true;\n        if (!is_in_match_ && is_object_key_) {\n"]]}
J
om j05b <<'C'
int main() {
  Eq(Go([](auto e, auto in) { return koladata::ops::JsonStreamGetObjectKeyValuesStream(e, in, T("k")); }, {"{\"k\":[[\"a\\\"]\"],3],\"z\":1}\n"}, absl::OkStatus()), "[[[\"a\\\"]\"],3]]\n|ok");
  return bad;
}
C
mk j06a J06 "an escape with the hexadecimal digit F in upper case" "the digit F in upper case counts as zero" <<J
{"$JS": [["  } else if (c >= 'A' && c <= 'F') {\n", "  } else if (c >= 'A' && c < 'F') {\n"]]}
J
pm j06a <<'C'
int main() { Eq(Run(JsonUnquoteStreamProcessor(), {"\"\\u00FF\""}), "\xc3\xbf"); return bad; }
C
mk j07a J07 "a dictionary key in single quotes after one in double quotes, in which the other quote stands" "the quote that opened a key is only remembered for the first key of a kind" <<J
{"$JP": [["    state_ = NAME;\n    last_opening_quote_ = c;\n    if (c != '\"') {\n", "    state_ = NAME;\n    if (c != '\"') {\n      last_opening_quote_ = c;\n"], ["    if (c != '\"' && c != '\\\\'') {\n      state_ = VALUE_TOKEN;\n", "    if (c == '{') last_opening_quote_ = '\"';\n    if (c != '\"' && c != '\\\\'') {\n      state_ = VALUE_TOKEN;\n"]]}
J
om j07a <<'C'
int main() {
  Eq(Go([](auto e, auto in) { return StreamFilterJson(e, in, T("$.b")); }, {"{'a': 1, \"b\": 2}"}, absl::OkStatus()), "2|ok");
  return bad;
}
C
mk j07b J07 "the character U+0800 written as an escape" "U+0800 is encoded in two bytes, which is not valid" <<J
{"$JF": [["    } else if (code < 0x800) {\n", "    } else if (code <= 0x800) {\n"]]}
J
om j07b <<'C'
int main() {
  Eq(Go([](auto e, auto in) { return StreamStringFromJson(e, in, T("$.a")); }, {"{\"a\": \"\\u0800\"}"}, absl::OkStatus()), "\xe0\xa0\x80|ok");
  return bad;
}
C
mk j07c J07 "an object that is closed with a square bracket" "a square bracket closes an object" <<J
{"$JP": [["  if (last_char == ']' && !vinfo.is_list) {\n", "  if (last_char == ']' && !vinfo.is_list && data.front() != '{') {\n"]]}
J
om j07c <<'C'
int main() {
  std::string s = Go([](auto e, auto in) { return StreamFilterJson(e, in, T("$.a.x")); }, {"{\"a\": {\"x\": 1]}"}, absl::OkStatus());
  if (s.ends_with("|ok")) { std::printf("%s\n", s.c_str()); return 1; }
  return bad;
}
C
mk j08a J08 "an input that ends with an error while the operator holds back some output" "what is held back is written although the input ended with an error" <<J
{"$JO": [["      if (status->ok()) {\n        auto [output, is_end_of_output] = processor_.Process(\"\", true);\n        DCHECK(is_end_of_output);\n        write_output(std::move(output));\n      }\n", "      auto [output, is_end_of_output] = processor_.Process(\"\", true);\n      DCHECK(is_end_of_output);\n      write_output(std::move(output));\n"]]}
J
om j08a <<'C'
int main() {
  Eq(Go([](auto e, auto in) { return koladata::ops::JsonStreamImplodeArrayStream(e, in); }, {"1\n2\n"}, absl::InternalError("Boom")), "[1,2|Boom");
  return bad;
}
C
mk j08b J08 "an input that ends with an error in the middle of a value" "the error of the input is replaced by that of the parser for the truncated text" <<J
{"$JF": [["      if (status->ok()) {\n        writer_->TryClose(parser_.Finalize());\n      } else {\n        writer_->TryClose(*status);\n      }\n", "      absl::Status final_status = parser_.Finalize();\n      writer_->TryClose(final_status.ok() ? std::move(*status)\n                                          : std::move(final_status));\n"]]}
J
om j08b <<'C'
int main() {
  Eq(Go([](auto e, auto in) { return StreamFilterJson(e, in, T("$.a")); }, {"{\"a\": 1, \"b\": [2"}, absl::InternalError("Boom")), "1|Boom");
  return bad;
}
C
