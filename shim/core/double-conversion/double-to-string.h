#pragma once
// Shortest decimal text, laid out as ECMAScript does.
#include <charconv>
#include <cmath>
#include <cstring>
#include <string>
namespace double_conversion {
class StringBuilder {
 public:
  StringBuilder(char* b, int n) : b_(b), n_(n) {}
  char* Finalize() { std::memcpy(b_, s_.data(), s_.size()); b_[s_.size()] = 0; return b_; }
  void AddString(const std::string& s) { s_ += s; }
  int position() const { return s_.size(); }
  char* b_;
  int n_;
  std::string s_;
};
class DoubleToStringConverter {
 public:
  enum Flags { NO_FLAGS = 0, EMIT_POSITIVE_EXPONENT_SIGN = 1, EMIT_TRAILING_DECIMAL_POINT = 2, EMIT_TRAILING_ZERO_AFTER_POINT = 4, UNIQUE_ZERO = 8 };
  DoubleToStringConverter(int flags, const char* inf, const char* nan, char e, int low, int high, int, int, int = 0) : f_(flags), inf_(inf), nan_(nan), e_(e), low_(low), high_(high) {}
  bool ToShortest(double v, StringBuilder* b) const { return Do(v, v, b, false); }
  bool ToShortestSingle(float v, StringBuilder* b) const { return Do(v, v, b, true); }

 private:
  bool Do(double v, float, StringBuilder* b, bool single) const {
    if (std::isnan(v)) { b->AddString(nan_); return true; }
    if (std::isinf(v)) { b->AddString((v < 0 ? "-" : "") + inf_); return true; }
    char t[64];
    auto r = single ? std::to_chars(t, t + 64, static_cast<float>(v), std::chars_format::scientific) : std::to_chars(t, t + 64, v, std::chars_format::scientific);
    std::string s(t, r.ptr), out;
    if (s[0] == '-') { if (v != 0 || !(f_ & UNIQUE_ZERO)) out = "-"; s.erase(0, 1); }
    size_t e = s.find('e');
    int exp = std::stoi(s.substr(e + 1));
    std::string d = s.substr(0, e);
    if (d.size() > 1) d.erase(1, 1);
    int point = exp + 1;
    if (low_ <= exp && exp < high_) {
      if (point <= 0) out += "0." + std::string(-point, '0') + d;
      else if (point >= static_cast<int>(d.size())) {
        out += d + std::string(point - d.size(), '0');
        if (f_ & EMIT_TRAILING_DECIMAL_POINT) out += ".";
        if (f_ & EMIT_TRAILING_ZERO_AFTER_POINT) out += "0";
      } else out += d.substr(0, point) + "." + d.substr(point);
    } else {
      out += d.substr(0, 1);
      if (d.size() > 1) out += "." + d.substr(1);
      out += e_;
      if (exp < 0) out += "-"; else if (f_ & EMIT_POSITIVE_EXPONENT_SIGN) out += "+";
      out += std::to_string(std::abs(exp));
    }
    b->AddString(out);
    return true;
  }
  int f_;
  std::string inf_, nan_;
  char e_;
  int low_, high_;
};
}  // namespace double_conversion
