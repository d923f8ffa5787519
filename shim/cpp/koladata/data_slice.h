#pragma once
// The part of a data slice that loop conditions and JSON streams look at.
#include <cstdint>
#include <optional>
#include <string>
#include "arolla/util/text.h"
namespace koladata {
namespace schema {
enum DType { kInt32, kMask, kObject, kFloat, kInt64, kBool, kString, kBytes };
}
struct DataItem {
  std::optional<int> v;  // an integer or, when `unit`, a present mask
  bool unit = false;
  std::optional<arolla::Text> text;
  std::optional<bool> flag;
  std::optional<int64_t> wide;
  template <typename T>
  bool holds_value() const {
    if constexpr (std::is_same_v<T, arolla::Unit>) return unit;
    else if constexpr (std::is_same_v<T, arolla::Text>) return text.has_value();
    else if constexpr (std::is_same_v<T, bool>) return flag.has_value();
    else if constexpr (std::is_same_v<T, int>) return v.has_value();
    else if constexpr (std::is_same_v<T, int64_t>) return wide.has_value();
    else return false;
  }
  template <typename T>
  const T& value() const {
    CHECK(holds_value<T>());
    if constexpr (std::is_same_v<T, arolla::Text>) return *text;
    else if constexpr (std::is_same_v<T, bool>) return *flag;
    else if constexpr (std::is_same_v<T, int>) return *v;
    else return *wide;
  }
  bool has_value() const { return unit || v || text || flag || wide; }
};
struct DataSlice {
  struct Shape {
    size_t r;
    size_t rank() const { return r; }
  };
  DataItem it;
  schema::DType s = schema::kMask;
  bool one = true;
  bool is_item() const { return one; }
  bool IsEmpty() const { return one ? !it.has_value() : false; }
  Shape GetShape() const { return Shape{one ? 0u : 1u}; }
  const DataItem& item() const { CHECK(one); return it; }
  const schema::DType& GetSchemaImpl() const { return s; }
  template <typename T>
  static DataSlice CreatePrimitive(T v) {
    DataSlice d;
    if constexpr (std::is_same_v<T, arolla::Text>) { d.s = schema::kString; d.it.text = std::move(v); }
    else if constexpr (std::is_same_v<T, bool>) { d.s = schema::kBool; d.it.flag = v; }
    else if constexpr (std::is_same_v<T, int>) { d.s = schema::kInt32; d.it.v = v; }
    else { d.s = schema::kInt64; d.it.wide = v; }
    return d;
  }
};
inline std::string DataSliceRepr(const DataSlice& d) { return absl::StrCat("slice(", d.one ? 1 : 2, ")"); }
}  // namespace koladata
namespace arolla {
VSHIM_QTYPE(DATA_SLICE, koladata::DataSlice)
inline std::string Repr(const koladata::schema::DType& t) { return absl::StrCat("dtype", static_cast<int>(t)); }
}
