#include "common.h"

#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unordered_set>

namespace drv {
namespace {
std::map<std::string, uint64_t>& Counts() { static auto* m = new std::map<std::string, uint64_t>(); return *m; }
std::unordered_set<uint64_t>& Seen() { static auto* m = new std::unordered_set<uint64_t>(); return *m; }
std::vector<std::string>& Lines() { static auto* m = new std::vector<std::string>(); return *m; }
std::map<std::string, CaseFn>& Cases() { static auto* m = new std::map<std::string, CaseFn>(); return *m; }
std::string now_name;
uint64_t now_seed = 0, now_case = 0;
void DumpLog() {
  auto& l = Lines();
  for (size_t i = l.size() > 120 ? l.size() - 120 : 0; i < l.size(); ++i) std::printf("  %s\n", l[i].substr(0, 600).c_str());
}
}  // namespace

void Count(const char* name, uint64_t n) { Counts()[name] += n; }
void Distinct(uint64_t h) { if (Seen().size() < 2000000) Seen().insert(h); }
void Log(std::string line) { Lines().push_back(std::move(line)); }
void ClearLog() { Lines().clear(); }
void Fail(const std::string& what) {
  std::string w = what;
  for (char& c : w) if (c == '\n') c = ' ';
  std::printf("VIOL %s: %s seed=%llu case=%llu\n", now_name.c_str(), w.c_str(), (unsigned long long)now_seed, (unsigned long long)now_case);
  DumpLog();
  std::fflush(stdout);
  _Exit(3);
}
std::map<AllocationId, std::string>& Names() { static auto* m = new std::map<AllocationId, std::string>(); return *m; }
Register::Register(const char* name, CaseFn fn) { Cases()[name] = fn; }

bool Same(const DataItem& a, const DataItem& b) {
  if (a.type_id() != b.type_id()) return false;
  if (a.is_nan() && b.is_nan()) return true;
  return a.IsEquivalentTo(b);
}
bool Same(const std::optional<DataItem>& a, const std::optional<DataItem>& b) {
  return a.has_value() == b.has_value() && (!a.has_value() || Same(*a, *b));
}
std::string Str(const DataItem& a) {
  return a.VisitValue([](const auto& v) -> std::string {
    using T = std::decay_t<decltype(v)>;
    if constexpr (std::is_same_v<T, MissingValue>) return "-";
    else if constexpr (std::is_same_v<T, ObjectId>) {
      auto it = Names().find(AllocationId(v));
      return it == Names().end() ? ObjectIdStr(v) : absl::StrCat(it->second, ".", v.Offset());
    }
    else if constexpr (std::is_same_v<T, arolla::Text>) return absl::StrCat("'", std::string(v.view()), "'");
    else if constexpr (std::is_same_v<T, arolla::Bytes>) return absl::StrCat("b'", std::string(v), "'");
    else if constexpr (std::is_same_v<T, arolla::Unit>) return "unit";
    else if constexpr (std::is_same_v<T, int64_t>) return absl::StrCat(v, "L");
    else if constexpr (std::is_same_v<T, int32_t>) return absl::StrCat(v);
    else if constexpr (std::is_same_v<T, float>) return absl::StrCat(v, "f");
    else if constexpr (std::is_same_v<T, double>) return absl::StrCat(v, "d");
    else if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_same_v<T, schema::DType>) return std::string(v.name());
    else return "?";
  });
}
std::string Str(const std::optional<DataItem>& a) { return a.has_value() ? a->has_value() ? Str(*a) : "removed" : "unset"; }
std::string Str(const std::vector<DataItem>& v) {
  std::string r = "[";
  for (const auto& x : v) { if (r.size() > 1) r += ' '; r += Str(x); }
  return r + "]";
}
std::string Str(const DataSliceImpl& s) { return Str(Items(s)); }
uint64_t Hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}

DataItem RandOf(Rng& r, int type, const std::vector<ObjectId>& objs) {
  switch (type) {
    case kI32: return DataItem(static_cast<int32_t>(r.P(1, 8) ? r.Of<int64_t>({INT32_MIN, INT32_MAX, -1}) : r.In(-3, 3)));
    case kI64: return DataItem(static_cast<int64_t>(r.P(1, 8) ? r.Of<int64_t>({INT64_MIN, INT64_MAX, int64_t{1} << 33}) : r.In(-3, 3)));
    case kF32: return DataItem(static_cast<float>(r.P(1, 8) ? r.Of<double>({1e30, -0.25, 16777216.0}) : r.In(-3, 3) * 0.5));
    case kF64: return DataItem(r.P(1, 8) ? r.Of<double>({1e300, 0.1, -4503599627370497.5}) : r.In(-3, 3) * 0.5);
    case kBool: return DataItem(r.P(1, 2));
    case kUnit: return DataItem(arolla::kUnit);
    case kText: return DataItem(arolla::Text(r.Of<const char*>({"", "a", "b", "ab", "a long text that does not fit into a small string", "\xc3\xa9"})));
    case kBytes: return DataItem(arolla::Bytes(r.Of<const char*>({"", "a", "b", "ab", "\xff\xfe", "some longer bytes that do not fit into a small string"})));
    case kDType: return DataItem(r.Of({schema::kInt32, schema::kInt64, schema::kFloat32, schema::kString, schema::kObject, schema::kItemId, schema::kMask}));
    default: return objs.empty() ? DataItem(static_cast<int32_t>(r.In(-3, 3))) : DataItem(r.Of(objs));
  }
}
DataItem RandItem(Rng& r, const std::vector<ObjectId>& objs, int missing_percent) {
  if (r.P(missing_percent, 100)) return DataItem();
  return RandOf(r, r.Below(kTypes), objs);
}
std::vector<DataItem> RandValues(Rng& r, size_t n, const std::vector<ObjectId>& objs, int missing_percent) {
  std::vector<DataItem> v(n);
  const int mode = r.Below(10);
  if (mode == 0 && missing_percent > 0) return v;  // all missing
  const int t1 = r.Below(kTypes), t2 = r.Below(kTypes);
  for (auto& x : v) {
    if (r.P(missing_percent, 100)) continue;
    if (mode <= 5) x = RandOf(r, t1, objs);
    else if (mode <= 7) x = RandOf(r, r.P(1, 2) ? t1 : t2, objs);
    else x = RandItem(r, objs);
  }
  return v;
}
DataSliceImpl Slice(const std::vector<DataItem>& v) { return DataSliceImpl::Create(absl::MakeConstSpan(v)); }
std::vector<DataItem> Items(const DataSliceImpl& s) {
  std::vector<DataItem> v;
  for (size_t i = 0; i < s.size(); ++i) v.push_back(s[i]);
  return v;
}
arolla::DenseArray<int64_t> Ints(const std::vector<std::optional<int64_t>>& v) {
  std::vector<arolla::OptionalValue<int64_t>> o;
  for (const auto& x : v) o.push_back(x ? arolla::OptionalValue<int64_t>(*x) : arolla::OptionalValue<int64_t>());
  return arolla::CreateDenseArray<int64_t>(o);
}
Alloc MakeAlloc(Rng& r, char kind, int64_t size) {
  AllocationId id;
  switch (kind) {
    case 'l': id = size == 1 && r.P(1, 2) ? AllocationId(AllocateSingleList()) : AllocateLists(size); break;
    case 'd': id = size == 1 && r.P(1, 2) ? AllocationId(AllocateSingleDict()) : AllocateDicts(size); break;
    case 's': id = size == 1 && r.P(1, 2) ? AllocationId(AllocateExplicitSchema()) : AllocateExplicitSchemas(size); break;
    default: id = size == 1 && r.P(1, 2) ? AllocationId(AllocateSingleObject()) : Allocate(size);
  }
  Names()[id] = absl::StrCat(std::string(1, kind), Names().size());
  return {id, size};
}

void CheckSlice(const DataSliceImpl& s, const char* what, int line) {
  size_t present = 0;
  std::set<std::string> types;
  for (size_t i = 0; i < s.size(); ++i) {
    const DataItem x = s[i];
    if (!x.has_value()) continue;
    ++present;
    types.insert(std::string(x.dtype()->name()));
    if (x.holds_value<ObjectId>()) {
      const ObjectId o = x.value<ObjectId>();
      bool known = o.IsSmallAlloc() ? s.allocation_ids().contains_small_allocation_id() : false;
      for (const AllocationId& a : s.allocation_ids()) known |= a.Contains(o);
      if (!known) Fail(absl::StrCat("[", what, "] line ", line, ": the allocation of item ", i, " of the slice is not among those it knows"));
    }
  }
  if (present != s.present_count()) Fail(absl::StrCat("[", what, "] line ", line, ": ", s.present_count(), " items are said to be present, not ", present));
  if (types.size() > 1 && !s.is_mixed_dtype()) Fail(absl::StrCat("[", what, "] line ", line, ": a slice of several types is not said to be so"));
  if (types.size() == 1 && s.is_single_dtype() && std::string(s.dtype()->name()) != *types.begin()) Fail(absl::StrCat("[", what, "] line ", line, ": the type of the slice is not that of its items"));
  if (!types.empty() && s.is_empty_and_unknown()) Fail(absl::StrCat("[", what, "] line ", line, ": a slice with items is said to be empty"));
}
}  // namespace drv

int main(int argc, char** argv) {
  using namespace drv;
  if (argc < 7 || !Cases().count(argv[1])) {
    std::fprintf(stderr, "usage: CASE SEED FIRST STEP COUNT SECONDS\n");
    return 2;
  }
  std::setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  now_name = argv[1];
  CaseFn fn = Cases()[now_name];
  const uint64_t first = std::strtoull(argv[3], nullptr, 10), step = std::strtoull(argv[4], nullptr, 10), count = std::strtoull(argv[5], nullptr, 10);
  now_seed = std::strtoull(argv[2], nullptr, 10);
  const double seconds = std::atof(argv[6]);
  const auto start = std::chrono::steady_clock::now();
  uint64_t done = 0;
  for (uint64_t i = first; done < count; i += step, ++done) {
    if (done && std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > seconds) break;
    now_case = i;
    std::fprintf(stderr, "\rcase %llu of seed %llu", (unsigned long long)i, (unsigned long long)now_seed);
    Rng r{now_seed * 0x1000003 + i * 7919 + 17};
    r.Next();
    ClearLog();
    Names().clear();
    try {
      fn(r);
    } catch (const std::exception& e) {
      Fail(std::string("exception: ") + e.what());
    }
  }
  std::printf("OK cases=%llu distinct=%llu", (unsigned long long)done, (unsigned long long)Seen().size());
  for (auto& [k, v] : Counts()) std::printf(" n:%s=%llu", k.c_str(), (unsigned long long)v);
  std::printf("\n");
  std::fflush(stdout);
  _Exit(0);
}
