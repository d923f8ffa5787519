#pragma once
// What the drivers of the core library share: random items and slices, and the
// bookkeeping of what was observed.
#include <cstdint>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "arolla/core.h"
#include "absl/strings/str_cat.h"
#include "koladata/internal/data_bag.h"
#include "koladata/internal/data_item.h"
#include "koladata/internal/data_slice.h"
#include "koladata/internal/dtype.h"
#include "koladata/internal/object_id.h"

namespace drv {
using namespace koladata::internal;
namespace schema = koladata::schema;

struct Rng {
  uint64_t s = 1;
  uint64_t Next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t Below(uint64_t n) { return n ? Next() % n : 0; }
  int64_t In(int64_t a, int64_t b) { return a + static_cast<int64_t>(Below(b - a + 1)); }
  bool P(int num, int den) { return Below(den) < static_cast<uint64_t>(num); }
  template <typename T>
  T Of(std::initializer_list<T> l) { return *(l.begin() + Below(l.size())); }
  template <typename T>
  const T& Of(const std::vector<T>& l) { return l[Below(l.size())]; }
};

void Count(const char* name, uint64_t n = 1);
void Distinct(uint64_t h);  // the signature of an input or state that was seen
void Log(std::string line);  // what the case did so far
void ClearLog();
std::map<AllocationId, std::string>& Names();  // short names of allocations, for the log
[[noreturn]] void Fail(const std::string& what);

#define REQUIRE(cond, ...)                                                                              \
  do {                                                                                                  \
    if (!(cond)) ::drv::Fail(absl::StrCat("[", #cond, "] line ", __LINE__, ": ", ##__VA_ARGS__));       \
  } while (0)
#define REQUIRE_OK(expr, ...)                                                                           \
  do {                                                                                                  \
    const absl::Status drv_st = (expr);                                                                 \
    if (!drv_st.ok()) ::drv::Fail(absl::StrCat("[", #expr, "] line ", __LINE__, ": ", std::string(drv_st.message()), " ", ##__VA_ARGS__)); \
  } while (0)
// That a slice is what it says: its types, counts and allocations.
void CheckSlice(const DataSliceImpl& s, const char* what, int line);
template <typename T>
T Get(absl::StatusOr<T> v, const char* what, int line) {
  if (!v.ok()) Fail(absl::StrCat("[", what, "] line ", line, ": ", std::string(v.status().message())));
  if constexpr (std::is_same_v<T, DataSliceImpl>) CheckSlice(*v, what, line);
  else if constexpr (requires { v->first.allocation_ids(); }) CheckSlice(v->first, what, line);
  return *std::move(v);
}
#define GET(...) ::drv::Get((__VA_ARGS__), #__VA_ARGS__, __LINE__)

using CaseFn = void (*)(Rng&);
struct Register { Register(const char* name, CaseFn fn); };
#define CASE(name) static void Case_##name(Rng& r); static ::drv::Register reg_##name(#name, Case_##name); static void Case_##name(Rng& r)

// ------------------------------------------------------------------ items
// The same value of the same type.
bool Same(const DataItem& a, const DataItem& b);
bool Same(const std::optional<DataItem>& a, const std::optional<DataItem>& b);
std::string Str(const DataItem& a);
std::string Str(const std::optional<DataItem>& a);
std::string Str(const DataSliceImpl& s);
std::string Str(const std::vector<DataItem>& v);
uint64_t Hash(const std::string& s);

enum Type { kI32, kI64, kF32, kF64, kBool, kUnit, kText, kBytes, kDType, kObj, kTypes };
// objs: the objects a kObj item can be (may be empty).
DataItem RandOf(Rng& r, int type, const std::vector<ObjectId>& objs);
DataItem RandItem(Rng& r, const std::vector<ObjectId>& objs, int missing_percent = 0);
// n values: of one type, or of several, or all missing.
std::vector<DataItem> RandValues(Rng& r, size_t n, const std::vector<ObjectId>& objs, int missing_percent);
DataSliceImpl Slice(const std::vector<DataItem>& v);
std::vector<DataItem> Items(const DataSliceImpl& s);
arolla::DenseArray<int64_t> Ints(const std::vector<std::optional<int64_t>>& v);

struct Alloc {
  AllocationId id;
  int64_t size;
  std::vector<ObjectId> objs() const {
    std::vector<ObjectId> r;
    for (int64_t i = 0; i < size; ++i) r.push_back(id.ObjectByOffset(i));
    return r;
  }
};
// kind: e(ntity) l(ist) d(ict) s(chema)
Alloc MakeAlloc(Rng& r, char kind, int64_t size);
}  // namespace drv
