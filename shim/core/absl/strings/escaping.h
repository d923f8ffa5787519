#pragma once
#include <cstdio>
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
namespace vshim_esc {
inline std::string Impl(string_view src, bool hex, bool utf8) {
  std::string out;
  bool last_hex = false;
  for (unsigned char c : src) {
    bool is_hex = false;
    char b[8];
    switch (c) {
      case '\n': out += "\\n"; break;
      case '\r': out += "\\r"; break;
      case '\t': out += "\\t"; break;
      case '"': out += "\\\""; break;
      case '\'': out += "\\'"; break;
      case '\\': out += "\\\\"; break;
      default:
        if ((!utf8 || c < 0x80) && (c < 0x20 || c >= 0x7f || (last_hex && std::isxdigit(c)))) {
          out.append(b, std::snprintf(b, sizeof b, hex ? "\\x%02x" : "\\%03o", c));
          is_hex = hex;
        } else {
          out.push_back(c);
        }
    }
    last_hex = is_hex;
  }
  return out;
}
}  // namespace vshim_esc
inline std::string CHexEscape(string_view s) { return vshim_esc::Impl(s, true, false); }
inline std::string CEscape(string_view s) { return vshim_esc::Impl(s, false, false); }
inline std::string Utf8SafeCHexEscape(string_view s) { return vshim_esc::Impl(s, true, true); }
inline std::string Utf8SafeCEscape(string_view s) { return vshim_esc::Impl(s, false, true); }
}  // namespace absl
