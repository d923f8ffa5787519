// What the stand-in for arolla declares but does not define in headers.
#include <charconv>
#include <random>

#include "absl/strings/ascii.h"
#include "absl/strings/numbers.h"
#include "arolla/core.h"

namespace arolla {
QTypePtr GetNothingQType() {
  static const QType* const q = new QType("NOTHING", typeid(void), 0);
  return q;
}
Fingerprint FingerprintOfString(absl::string_view s) { return FingerprintHasher("s").Combine(s).Finish(); }
Fingerprint RandomFingerprint() {
  static std::mt19937_64 g{std::random_device{}()};
  return Fingerprint{absl::MakeUint128(g(), g())};
}
namespace {
uint64_t M(uint64_t x) {
  x ^= x >> 30;
  x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27;
  x *= 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
}  // namespace
// Any fixed function of the bytes and the seed will do.
std::pair<uint64_t, uint64_t> CityHash128WithSeed(const void* data, size_t n, std::pair<uint64_t, uint64_t> s) {
  uint64_t a = s.first, b = s.second;
  auto mix = [&](uint64_t w) {
    a = M(a + 0x9E3779B97F4A7C15ull + w);
    b = M(b ^ (a + (w << 17 | w >> 47) * 0xD6E8FEB86659FD93ull));
  };
  mix(n);
  const unsigned char* c = static_cast<const unsigned char*>(data);
  while (n) {
    uint64_t w = 0;
    size_t k = std::min<size_t>(n, 8);
    std::memcpy(&w, c, k);
    mix(w);
    c += k;
    n -= k;
  }
  return {a, b};
}
uint64_t CityHash64(const void* d, size_t n) { return CityHash128WithSeed(d, n, {1, 2}).first; }
uint64_t CityHash64WithSeed(const void* d, size_t n, uint64_t s) { return CityHash128WithSeed(d, n, {1, s}).first; }

namespace vshim_str {
absl::StatusOr<double> ParseFloat(absl::string_view s, bool is32) {
  absl::string_view t = absl::StripAsciiWhitespace(s);
  auto bad = [&] { return absl::InvalidArgumentError(absl::StrCat("unable to parse FLOAT", is32 ? "32" : "64", ": ", s)); };
  if (!t.empty() && t[0] == '+') { t.remove_prefix(1); if (!t.empty() && (t[0] == '-' || t[0] == '+')) return bad(); }
  std::string z(t);
  for (char c : z) if (c == 'x' || c == 'X' || c == '\0' || c == '(') return bad();
  if (z.empty() || absl::ascii_isspace(z[0])) return bad();
  char* end = nullptr;
  double v = is32 ? std::strtof(z.c_str(), &end) : std::strtod(z.c_str(), &end);
  if (end != z.c_str() + z.size()) return bad();
  return v;
}
absl::StatusOr<int64_t> ParseInt(absl::string_view s, bool is32) {
  int32_t a;
  int64_t b;
  if (is32 ? absl::SimpleAtoi(s, &a) : absl::SimpleAtoi(s, &b)) return is32 ? a : b;
  return absl::InvalidArgumentError(absl::StrCat("unable to parse INT", is32 ? "32" : "64", ": ", s));
}
absl::StatusOr<Text> Decode(absl::string_view s) {
  auto bad = [&](size_t i) { return absl::InvalidArgumentError(absl::StrCat("invalid UTF-8 sequence at position ", i)); };
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 0 : c >= 0xc2 && c <= 0xdf ? 1 : (c & 0xf0) == 0xe0 ? 2 : c >= 0xf0 && c <= 0xf4 ? 3 : -1;
    if (n < 0 || i + n >= s.size() + 0 && n > 0 && i + n > s.size() - 1) return bad(i);
    for (int k = 1; k <= n; ++k) if ((static_cast<unsigned char>(s[i + k]) & 0xc0) != 0x80) return bad(i);
    unsigned char d = n ? s[i + 1] : 0;
    if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d > 0x9f) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d > 0x8f)) return bad(i);
    i += n + 1;
  }
  return Text(s);
}
std::string FloatText(double v, bool is32) {
  if (std::isnan(v)) return "nan";
  if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
  char b[64];
  auto r = is32 ? std::to_chars(b, b + 64, static_cast<float>(v)) : std::to_chars(b, b + 64, v);
  std::string t(b, r.ptr);
  if (t.find_first_of(".e") == std::string::npos) t += ".";
  return t;
}
}  // namespace vshim_str
AROLLA_DEFINE_SIMPLE_QTYPE(EXPR_QUOTE, expr::ExprQuote);
}  // namespace arolla
