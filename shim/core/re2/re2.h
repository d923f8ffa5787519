// A small stand-in for RE2 on top of std::regex (which has no (?s), so it is stripped).
#ifndef VERIF_RE2_H_
#define VERIF_RE2_H_
#include <map>
#include <mutex>
#include <regex>
#include <string>
#include "absl/strings/string_view.h"
class RE2 {
 public:
  explicit RE2(absl::string_view p) : re_(Fix(std::string(p))) {}
  explicit RE2(const char* p) : re_(Fix(p)) {}
  static bool Replace(std::string* s, const RE2& re, absl::string_view rewrite) {
    std::smatch m;
    if (!std::regex_search(*s, m, re.re_)) return false;
    std::string out;
    for (size_t i = 0; i < rewrite.size(); ++i) {
      if (rewrite[i] == '\\' && i + 1 < rewrite.size()) {
        char c = rewrite[++i];
        if (c >= '0' && c <= '9') { out += m[c - '0'].str(); } else { out += c; }
      } else {
        out += rewrite[i];
      }
    }
    *s = m.prefix().str() + out + m.suffix().str();
    return true;
  }
  static bool FullMatch(absl::string_view s, const RE2& re) { return std::regex_match(s.begin(), s.end(), re.re_); }
  static bool PartialMatch(absl::string_view s, const RE2& re) { return std::regex_search(s.begin(), s.end(), re.re_); }

 private:
  static std::string Fix(std::string p) { return p.rfind("(?s)", 0) == 0 ? p.substr(4) : p; }
  std::regex re_;
};
class LazyRE2 {
 public:
  const RE2& operator*() const { return get(); }
  const RE2* operator->() const { return &get(); }
  const RE2& get() const {
    static auto* cache = new std::map<std::string, RE2*>();
    static auto* mu = new std::mutex();
    std::lock_guard<std::mutex> l(*mu);
    RE2*& re = (*cache)[pattern_];
    if (re == nullptr) re = new RE2(pattern_);
    return *re;
  }
  const char* pattern_;
};
#endif
