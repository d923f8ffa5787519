// Item ids, operations on slices of values, and casting, against plain
// definitions.
#include <algorithm>
#include <cmath>
#include <mutex>
#include <thread>

#include "common.h"
#include "koladata/internal/casting.h"
#include "koladata/internal/op_utils/agg_common_schema.h"
#include "koladata/internal/op_utils/agg_uuid.h"
#include "koladata/internal/op_utils/at.h"
#include "koladata/internal/op_utils/base62.h"
#include "koladata/internal/op_utils/collapse.h"
#include "koladata/internal/op_utils/coalesce_with_filtered.h"
#include "koladata/internal/op_utils/equal.h"
#include "koladata/internal/op_utils/expand.h"
#include "koladata/internal/op_utils/group_by_utils.h"
#include "koladata/internal/op_utils/has.h"
#include "koladata/internal/op_utils/inverse_select.h"
#include "koladata/internal/op_utils/itemid.h"
#include "koladata/internal/op_utils/new_ids_like.h"
#include "koladata/internal/op_utils/presence_and.h"
#include "koladata/internal/op_utils/presence_or.h"
#include "koladata/internal/op_utils/reverse.h"
#include "koladata/internal/op_utils/select.h"
#include "koladata/internal/schema_utils.h"
#include "koladata/internal/slice_builder.h"
#include "koladata/internal/uuid_object.h"
#include "koladata/internal/uuid_schemas.h"

namespace drv {
namespace {
using Shape = arolla::JaggedDenseArrayShape;
using Edge = arolla::DenseArrayEdge;

Edge SizesEdge(const std::vector<int64_t>& sizes) {
  std::vector<int64_t> p{0};
  for (int64_t s : sizes) p.push_back(p.back() + s);
  return Edge::UnsafeFromSplitPoints(arolla::CreateFullDenseArray<int64_t>(p));
}
Shape ShapeOf(const std::vector<std::vector<int64_t>>& dims) {
  Shape::EdgeVec e;
  for (const auto& d : dims) e.push_back(SizesEdge(d));
  return *Shape::FromEdges(std::move(e));
}
std::vector<std::vector<int64_t>> RandDims(Rng& r, int rank, int64_t max = 60) {
  std::vector<std::vector<int64_t>> dims;
  int64_t n = 1;
  for (int i = 0; i < rank; ++i) {
    std::vector<int64_t> d(n);
    int64_t next = 0;
    for (auto& x : d) { x = next > max ? 0 : r.P(1, 6) ? 0 : r.In(0, i == 0 ? 8 : 4); next += x; }
    dims.push_back(d);
    n = next;
  }
  return dims;
}
int64_t DimsSize(const std::vector<std::vector<int64_t>>& d) {
  if (d.empty()) return 1;
  int64_t n = 0;
  for (int64_t x : d.back()) n += x;
  return n;
}
std::string Str(const std::vector<std::vector<int64_t>>& dims) {
  std::string s = "{";
  for (const auto& d : dims) { s += " ["; for (int64_t x : d) s += absl::StrCat(x, ","); s += "]"; }
  return s + " }";
}
std::vector<ObjectId> SomeObjs(Rng& r) {
  std::vector<ObjectId> objs;
  for (int i = r.In(0, 3); i >= 0; --i)
    for (const auto& o : MakeAlloc(r, r.Of({'e', 'e', 'l', 'd', 's'}), r.Of<int64_t>({1, 1, 2, 3, 9})).objs()) objs.push_back(o);
  return objs;
}
std::vector<DataItem> Mask(Rng& r, size_t n) {
  std::vector<DataItem> v(n);
  const int p = r.Of({0, 20, 50, 50, 80, 100});
  for (auto& x : v) if (r.P(p, 100)) x = DataItem(arolla::kUnit);
  return v;
}
DataSliceImpl MaskSlice(Rng& r, const std::vector<DataItem>& v) {
  if (r.P(1, 2)) return Slice(v);  // all missing: of unknown type
  arolla::DenseArrayBuilder<arolla::Unit> b(v.size());
  for (size_t i = 0; i < v.size(); ++i) if (v[i].has_value()) b.Set(i, arolla::kUnit);
  return DataSliceImpl::Create(std::move(b).Build());
}
void Expect(const char* what, const DataSliceImpl& got, const std::vector<DataItem>& want, const std::string& in) {
  CheckSlice(got, what, 0);
  if (got.size() != want.size()) Fail(absl::StrCat(what, ": ", got.size(), " items, not ", want.size(), "; ", in));
  for (size_t i = 0; i < want.size(); ++i)
    if (!Same(got[i], want[i])) Fail(absl::StrCat(what, ": item ", i, " is ", drv::Str(got[i]), ", not ", drv::Str(want[i]), "; ", in));
  Count("items", want.size());
}
void ExpectShape(const char* what, const Shape& got, const std::vector<std::vector<int64_t>>& dims, const std::string& in) {
  if (!got.IsEquivalentTo(ShapeOf(dims))) Fail(absl::StrCat(what, ": not the shape it should have, ", Str(dims), "; ", in));
}
bool Equals(const DataItem& a, const DataItem& b) {
  if (!a.has_value() || !b.has_value()) return false;
  return a.VisitValue([&](const auto& x) {
    return b.VisitValue([&](const auto& y) {
      using X = std::decay_t<decltype(x)>;
      using Y = std::decay_t<decltype(y)>;
      constexpr bool nx = std::is_same_v<X, int> || std::is_same_v<X, int64_t> || std::is_same_v<X, float> || std::is_same_v<X, double>;
      constexpr bool ny = std::is_same_v<Y, int> || std::is_same_v<Y, int64_t> || std::is_same_v<Y, float> || std::is_same_v<Y, double>;
      if constexpr (nx && ny) return x == y;  // as C++ compares them
      else if constexpr (std::is_same_v<X, Y>) return drv::Same(a, b);
      else return false;
    });
  });
}

// The id as text: 22 digits of base 62, the way a person would do it.
std::string Text62(absl::uint128 v) {
  const char* digits = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
  std::string s(22, '0');
  for (int i = 21; i >= 0; --i) { s[i] = digits[static_cast<int>(v % 62)]; v = v / 62; }
  return s;
}
}  // namespace

CASE(vector) {
  const auto objs = SomeObjs(r);
  const int what = r.Below(11);
  const int rank = r.In(1, 3);
  auto dims = RandDims(r, rank);
  const int64_t n = DimsSize(dims);
  const auto v = RandValues(r, n, objs, r.Of({0, 10, 40}));
  const DataSliceImpl s = Slice(v);
  const Shape shape = ShapeOf(dims);
  std::string in = absl::StrCat("operation ", what, " dims ", Str(dims), " of ", drv::Str(v));
  Log(in);
  std::vector<std::vector<int64_t>> groups;  // indices of the items of each group of the last dimension
  {
    int64_t at = 0;
    for (int64_t k : dims.back()) { groups.emplace_back(); while (k--) groups.back().push_back(at++); }
  }
  switch (what) {
    case 0: {  // select: the filter may have fewer dimensions
      const int frank = r.In(1, rank);
      const std::vector<std::vector<int64_t>> fdims(dims.begin(), dims.begin() + frank);
      const auto m = Mask(r, DimsSize(fdims));
      in += absl::StrCat(" filter ", drv::Str(m));
      auto res = SelectOp()(s, shape, MaskSlice(r, m), ShapeOf(fdims));
      REQUIRE(res.ok(), in, ": ", std::string(res.status().message()));
      // walk the tree
      std::vector<std::vector<int64_t>> want_dims(rank);
      std::vector<DataItem> want;
      std::vector<size_t> at(rank, 0);
      std::function<void(int, bool)> walk = [&](int level, bool kept) {
        if (level == rank) {
          if (kept) want.push_back(v[at[rank - 1] - 1]);
          return;
        }
        const size_t node = level == 0 ? 0 : at[level - 1] - 1;
        int64_t k = 0;
        const bool mine = kept;
        for (int64_t i = 0; i < dims[level][node]; ++i) {
          const size_t child = at[level]++;
          bool keep = kept;
          if (level == frank - 1) keep = keep && m[child].has_value();
          k += keep;
          walk(level + 1, keep);
        }
        if (mine) want_dims[level].push_back(k);
      };
      walk(0, true);
      Expect("select", res->data_slice_impl, want, in);
      ExpectShape("select", res->shape, want_dims, in);
      if (frank == rank && rank >= 1) {  // and back
        auto back = InverseSelectOp()(res->data_slice_impl, res->shape, MaskSlice(r, m), shape);
        REQUIRE(back.ok(), in, ": ", std::string(back.status().message()));
        std::vector<DataItem> wb(n);
        for (int64_t i = 0; i < n; ++i) if (m[i].has_value()) wb[i] = v[i];
        Expect("inverse_select", *back, wb, in);
        Count("inverse_selects");
        if (!m.empty()) {  // a slice of another size cannot be put back
          auto other = m;
          const size_t i = r.Below(other.size());
          other[i] = other[i].has_value() ? DataItem() : DataItem(arolla::kUnit);
          REQUIRE(!InverseSelectOp()(res->data_slice_impl, res->shape, Slice(other), shape).ok(), in, " accepted the filter ", drv::Str(other));
        }
      }
      break;
    }
    case 1: {  // at
      std::vector<std::optional<int64_t>> idx;
      for (int i = r.In(0, 12); i > 0; --i) idx.push_back(r.P(1, 8) ? std::optional<int64_t>() : r.P(1, 12) ? r.Of<int64_t>({INT64_MIN, INT64_MAX, INT64_MIN + 1}) : r.In(-n - 2, n + 2));
      std::vector<DataItem> want;
      for (const auto& i : idx) {
        DataItem x;
        if (i && *i >= 0 && *i < n) x = v[*i];
        else if (i && *i < 0 && *i >= -n) x = v[n + *i];
        want.push_back(x);
        in += i ? absl::StrCat(" ", *i) : " -";
      }
      Expect("at", GET(AtOp(s, Ints(idx))), want, in);
      break;
    }
    case 2: {  // expand and collapse along an edge of any kind
      std::vector<std::optional<int64_t>> map;
      Edge edge;
      if (r.P(1, 2)) {
        std::vector<int64_t> sizes(n);
        for (auto& x : sizes) x = r.In(0, 3);
        edge = SizesEdge(sizes);
        for (int64_t i = 0; i < n; ++i) for (int64_t k = 0; k < sizes[i]; ++k) map.push_back(i);
      } else {
        for (int i = r.In(0, 20); i > 0; --i) map.push_back(n == 0 || r.P(1, 6) ? std::optional<int64_t>() : r.In(0, n - 1));
        edge = *Edge::FromMapping(Ints(map), n);
      }
      std::vector<DataItem> want;
      for (const auto& i : map) want.push_back(i ? v[*i] : DataItem());
      const DataSliceImpl wide = GET(ExpandOp()(s, edge));
      Expect("expand", wide, want, in);
      // Collapse: the value all present items of a group share.
      const auto cv = RandValues(r, map.size(), objs, 30);
      std::vector<DataItem> cw(cv.size());
      for (size_t i = 0; i < cv.size(); ++i) cw[i] = r.P(2, 3) ? want[i] : cv[i];
      std::vector<DataItem> wc(n);
      std::vector<bool> seen(n, false), differ(n, false);
      for (size_t i = 0; i < cw.size(); ++i) {
        if (!map[i] || !cw[i].has_value()) continue;
        const int64_t g = *map[i];
        if (!seen[g]) { seen[g] = true; wc[g] = cw[i]; }
        else if (!(wc[g] == cw[i])) differ[g] = true;  // 1 and 1L are the same here
      }
      for (int64_t i = 0; i < n; ++i) if (differ[i]) wc[i] = DataItem();
      auto col = CollapseOp()(Slice(cw), edge);
      REQUIRE(col.ok(), in);
      REQUIRE(col->size() == static_cast<size_t>(n), in);
      for (int64_t i = 0; i < n; ++i) REQUIRE((*col)[i].has_value() == wc[i].has_value() && (!wc[i].has_value() || (*col)[i] == wc[i]), "collapse: item ", i, " is ", drv::Str((*col)[i]), ", not ", drv::Str(wc[i]), " of ", drv::Str(cw));
      Count("collapsed", n);
      break;
    }
    case 3: {  // reverse the last dimension
      std::vector<DataItem> want;
      for (const auto& g : groups) for (auto it = g.rbegin(); it != g.rend(); ++it) want.push_back(v[*it]);
      Expect("reverse", ReverseOp()(s, shape), want, in);
      break;
    }
    case 4: {  // presence
      const auto m = Mask(r, n);
      const DataSliceImpl ms = MaskSlice(r, m);
      std::vector<DataItem> want(n), has(n);
      for (int64_t i = 0; i < n; ++i) {
        if (m[i].has_value()) want[i] = v[i];
        if (v[i].has_value()) has[i] = DataItem(arolla::kUnit);
      }
      Expect("and", GET(PresenceAndOp()(s, ms)), want, absl::StrCat(in, " mask ", drv::Str(m)));
      Expect("has", GET(HasOp()(s)), has, in);
      const DataItem one = r.P(1, 2) ? DataItem(arolla::kUnit) : DataItem();
      Expect("and item", GET(PresenceAndOp()(s, one)), one.has_value() ? v : std::vector<DataItem>(n), in);
      if (s.present_count() && s.dtype() != arolla::GetQType<arolla::Unit>())
        REQUIRE(!PresenceAndOp()(ms, s).ok(), in, ": accepted as a mask");
      if (n) REQUIRE(!PresenceAndOp()(s, Slice(std::vector<DataItem>(n - 1))).ok(), "sizes");
      break;
    }
    case 5:
    case 6: {  // or: the first that is present
      auto b = RandValues(r, n, objs, r.Of({0, 30, 60}));
      if (r.P(1, 2)) for (int64_t i = 0; i < n; ++i) if (v[i].has_value()) b[i] = DataItem();  // no overlap
      if (r.P(1, 2)) for (int64_t i = 0; i < n; ++i) if (b[i].has_value() && r.P(1, 2)) b[i] = RandOf(r, kText, objs);
      bool overlap = false;
      std::vector<DataItem> want(n);
      for (int64_t i = 0; i < n; ++i) { want[i] = v[i].has_value() ? v[i] : b[i]; overlap |= v[i].has_value() && b[i].has_value(); }
      in += absl::StrCat(" or ", drv::Str(b));
      const DataSliceImpl bs = Slice(b);
      Expect("or", GET(PresenceOrOp<false>()(s, bs)), want, in);
      auto dis = PresenceOrOp<true>()(s, bs);
      REQUIRE(dis.ok() == !overlap, in, ": disjoint");
      if (dis.ok()) Expect("disjoint or", *dis, want, in);
      else Count("overlaps");
      const DataItem one = RandItem(r, objs, 20);
      for (int64_t i = 0; i < n; ++i) want[i] = v[i].has_value() ? v[i] : one;
      Expect("or item", GET(PresenceOrOp<false>()(s, one)), want, in);
      // left | (right & has(filter))
      const auto f = RandValues(r, n, objs, 50);
      for (int64_t i = 0; i < n; ++i) want[i] = v[i].has_value() ? v[i] : f[i].has_value() ? b[i] : DataItem();
      Expect("coalesce", GET(CoalesceWithFiltered(Slice(f), s, bs)), want, in);
      break;
    }
    case 7:
    case 8: {  // equal
      auto b = RandValues(r, n, objs, 20);
      for (auto& x : b) {
        const int64_t i = &x - b.data();
        if (!r.P(1, 2)) continue;
        x = v[i];
        if (r.P(1, 2) && x.holds_value<int32_t>()) x = r.P(1, 2) ? DataItem(static_cast<int64_t>(x.value<int32_t>())) : DataItem(static_cast<float>(x.value<int32_t>()));
      }
      in += absl::StrCat(" equal ", drv::Str(b));
      std::vector<DataItem> want(n);
      for (int64_t i = 0; i < n; ++i) if (Equals(v[i], b[i])) want[i] = DataItem(arolla::kUnit);
      const DataSliceImpl bs = Slice(b);
      Expect("equal", GET(EqualOp()(s, bs)), want, in);
      Expect("equal, the other way", GET(EqualOp()(bs, s)), want, in);
      for (int64_t i = 0; i < n; ++i) REQUIRE(Same(EqualOp()(v[i], b[i]), want[i]), in, ": items ", i);
      break;
    }
    case 9: {  // groups by schema
      std::vector<DataItem> k(n);
      const int kinds = r.In(1, 4), mode = r.Below(3);
      std::vector<ObjectId> ks;
      for (int i = 0; i < 4; ++i) ks.push_back(MakeAlloc(r, 's', r.Of<int64_t>({1, 4})).id.ObjectByOffset(0));
      const std::vector<schema::DType> ds{schema::kInt32, schema::kString, schema::kObject, schema::kMask};
      for (auto& x : k) {
        const int i = r.Below(kinds);
        if (mode == 0 || (mode == 2 && i % 2)) x = DataItem(ks[i]); else x = DataItem(ds[i]);
      }
      if (n == 0) break;
      std::vector<ObjectId> of;
      std::vector<DataItem> ofi;
      const Alloc a = MakeAlloc(r, 'e', n);
      for (int64_t i = 0; i < n; ++i) ofi.push_back(DataItem(a.id.ObjectByOffset(i)));
      ObjectsGroupBy g;
      auto res = g.BySchemas(Slice(k), Slice(ofi));
      REQUIRE(res.ok(), in);
      std::vector<DataItem> order;
      std::vector<std::vector<DataItem>> members;
      for (int64_t i = 0; i < n; ++i) {
        size_t j = 0;
        while (j < order.size() && !Same(order[j], k[i])) ++j;
        if (j == order.size()) { order.push_back(k[i]); members.emplace_back(); }
        members[j].push_back(ofi[i]);
      }
      Expect("group_by", res->first, order, absl::StrCat(in, " by ", drv::Str(k)));
      REQUIRE(res->second.size() == members.size());
      for (size_t j = 0; j < members.size(); ++j) {
        REQUIRE(res->second[j].size() == members[j].size(), "group ", j, " of ", drv::Str(k));
        for (size_t i = 0; i < members[j].size(); ++i)
          REQUIRE(res->second[j].present(i) && DataItem(res->second[j].values[i]) == members[j][i], "group ", j, " item ", i, " by ", drv::Str(k));
      }
      break;
    }
    default: {  // the building of a slice in parts
      SliceBuilder b(n);
      std::vector<DataItem> want(n);
      for (int step = r.In(1, 4); step > 0; --step) {
        for (int64_t i = 0; i < n; ++i) {
          if (!r.P(1, 2)) continue;
          const DataItem x = r.P(1, 2) ? RandItem(r, objs, 10) : v[i];
          if (b.IsSet(i)) { REQUIRE(b.IsSet(i)); }
          const bool was = b.IsSet(i);
          b.InsertIfNotSetAndUpdateAllocIds(i, x);
          if (!was) { want[i] = x; if (!b.IsSet(i)) Fail("an item that was put in is not set"); }
        }
      }
      bool all = true;
      for (int64_t i = 0; i < n; ++i) all &= b.IsSet(i);
      REQUIRE(b.is_finalized() == all, "is_finalized");
      Expect("builder", std::move(b).Build(), want, in);
    }
  }
  Distinct(Hash(in));
}

CASE(ids) {
  const int what = r.Below(6);
  if (what == 0) {  // text of an id
    absl::uint128 x = absl::MakeUint128(r.Next(), r.Next());
    if (r.P(1, 3)) x = x >> static_cast<int>(r.Below(128));
    if (r.P(1, 20)) x = ~absl::uint128(0) - r.Below(3);
    if (r.P(1, 6)) { absl::uint128 p = 1; for (int i = r.In(0, 21); i > 0; --i) p *= 62; x = p - 1 + r.Below(3); }
    const std::string t = Base62Repr(x);
    REQUIRE(t == Text62(x), "the text of an id is ", t, ", not ", Text62(x));
    REQUIRE(DecodeBase62(t) == x, "the text ", t, " is read as another id");
    const ObjectId id = ObjectId::UnsafeCreateFromInternalHighLow(absl::Uint128High64(x), absl::Uint128Low64(x));
    REQUIRE(id.ToRawInt128() == x);
    const DataItem enc = GET(EncodeItemId()(DataItem(id)));
    REQUIRE(enc.holds_value<arolla::Text>() && enc.value<arolla::Text>().view() == t);
    const DataItem dec = GET(DecodeItemId()(enc));
    REQUIRE(dec.holds_value<ObjectId>() && dec.value<ObjectId>() == id, "decode(encode(id)) is another id");
    Distinct(Hash(t));
    Count("texts");
  } else if (what == 1) {  // allocations are disjoint, also when threads make them
    struct Made { AllocationId id; int64_t size; char kind; };
    std::vector<Made> all;
    std::vector<int64_t> sizes;
    std::string kinds;
    const int threads = r.P(1, 4) ? r.In(2, 4) : 1;
    const int n = r.In(2, 40);
    for (int i = 0; i < n * threads; ++i) {
      sizes.push_back(r.Of<int64_t>({1, 1, 1, 2, 2, 3, 4, 5, 8, 9, 31, 32, 33, 1000, 4096, 4097, 70000, 1 << 20, (1 << 20) + 1, int64_t{1} << 33}));
      kinds += r.Of({'e', 'l', 'd', 's'});
    }
    std::mutex mu;
    const auto work = [&](int t) {
      std::vector<Made> mine;
      for (int i = t * n; i < (t + 1) * n; ++i) {
        const int64_t z = sizes[i];
        AllocationId id;
        const bool single = z == 1 && i % 2;
        if (kinds[i] == 'e') id = single ? AllocationId(AllocateSingleObject()) : Allocate(z);
        if (kinds[i] == 'l') id = single ? AllocationId(AllocateSingleList()) : AllocateLists(z);
        if (kinds[i] == 'd') id = single ? AllocationId(AllocateSingleDict()) : AllocateDicts(z);
        if (kinds[i] == 's') id = single ? AllocationId(AllocateExplicitSchema()) : AllocateExplicitSchemas(z);
        mine.push_back({id, z, kinds[i]});
      }
      std::lock_guard l(mu);
      all.insert(all.end(), mine.begin(), mine.end());
    };
    if (threads == 1) work(0);
    else {
      std::vector<std::thread> ts;
      for (int t = 0; t < threads; ++t) ts.emplace_back(work, t);
      for (auto& t : ts) t.join();
      Count("threaded");
    }
    // No two ranges of ids meet, whatever the kind said on top.
    std::vector<std::pair<absl::uint128, absl::uint128>> ranges;
    for (const Made& m : all) {
      REQUIRE(m.id.Capacity() >= static_cast<size_t>(m.size), "an allocation of ", m.size, " has room for ", m.id.Capacity());
      REQUIRE((m.id.Capacity() & (m.id.Capacity() - 1)) == 0 && (m.size <= 2 || m.id.Capacity() < 2 * static_cast<size_t>(m.size)), "capacity ", m.id.Capacity(), " for ", m.size);
      REQUIRE(m.id.IsEntitiesAlloc() == (m.kind == 'e') && m.id.IsListsAlloc() == (m.kind == 'l') && m.id.IsDictsAlloc() == (m.kind == 'd') && m.id.IsSchemasAlloc() == (m.kind == 's'), "kind ", std::string(1, m.kind));
      for (int64_t off : {int64_t{0}, m.size - 1, static_cast<int64_t>(r.Below(m.size))}) {
        const ObjectId o = m.id.ObjectByOffset(off);
        REQUIRE(o.Offset() == off && AllocationId(o) == m.id && m.id.Contains(o) && o.IsAllocated() && !o.IsUuid(), "offset ", off, " of ", m.size);
        REQUIRE(o.IsEntity() == (m.kind == 'e') && o.IsList() == (m.kind == 'l') && o.IsDict() == (m.kind == 'd') && o.IsSchema() == (m.kind == 's'));
        REQUIRE(o.IsSmallAlloc() == (m.size <= 2), "small");
      }
      const ObjectId a = m.id.ObjectByOffset(0);
      // ids without the kind
      const absl::uint128 base = absl::MakeUint128(a.InternalHigh64() & ((1ull << 58) - 1), a.InternalLow64());
      ranges.push_back({base, base + (m.size - 1)});
    }
    std::sort(ranges.begin(), ranges.end());
    for (size_t i = 1; i < ranges.size(); ++i) REQUIRE(ranges[i - 1].second < ranges[i].first, "two allocations share ids");
    for (int i = 0; i < 20; ++i) {
      const Made &a = r.Of(all), &b = r.Of(all);
      REQUIRE((a.id == b.id) == (&a == &b));
      REQUIRE(a.id.Contains(b.id.ObjectByOffset(b.size - 1)) == (&a == &b), "contains");
    }
    Count("allocations", all.size());
    std::string sig; for (int64_t z : sizes) sig += absl::StrCat(z, ",");
    Distinct(Hash(sig + kinds));
  } else if (what == 2) {  // sets of allocations
    std::vector<AllocationId> pool;
    const int n = r.Of({3, 8, 31, 60, 90});
    for (int i = 0; i < n; ++i) pool.push_back(r.P(1, 12) ? Allocate(r.In(1, 2)) : r.P(1, 4) ? AllocateLists(3) : Allocate(r.In(3, 9)));
    struct M { std::set<AllocationId> big; bool small = false; };
    std::vector<std::pair<AllocationIdSet, M>> sets(r.In(1, 3));
    const auto check = [&](size_t i) {
      auto& [s, m] = sets[i];
      REQUIRE(s.contains_small_allocation_id() == m.small, "small");
      REQUIRE(s.size() == m.big.size() && s.empty() == m.big.empty(), s.size(), " ids, not ", m.big.size());
      std::set<AllocationId> got(s.begin(), s.end());
      REQUIRE(got == m.big, "the ids of the set");
    };
    const int steps = r.In(5, 150);
    for (int k = 0; k < steps; ++k) {
      const size_t i = r.Below(sets.size());
      auto& [s, m] = sets[i];
      const int op = r.Below(20);
      if (op == 0) {
        std::vector<AllocationId> v;
        for (int j = r.Below(n); j > 0; --j) v.push_back(r.Of(pool));
        s = AllocationIdSet(absl::MakeConstSpan(v));
        m = {};
        for (const auto& a : v) if (a.IsSmall()) m.small = true; else m.big.insert(a);
        Log("set of many");
      } else if (op <= 3 && sets.size() > 1) {
        const size_t j = r.Below(sets.size());
        const AllocationIdSet o = sets[j].first;
        const M om = sets[j].second;
        s.Insert(o);
        m.small |= om.small;
        m.big.insert(om.big.begin(), om.big.end());
        Log(absl::StrCat("union ", i, " ", j));
      } else {
        const AllocationId a = r.Of(pool);
        const bool isnew = a.IsSmall() ? !m.small : !m.big.count(a);
        REQUIRE(s.Insert(a) == isnew, "insert says whether the id is new");
        if (a.IsSmall()) m.small = true; else m.big.insert(a);
        Log(absl::StrCat("insert ", i));
      }
      check(i);
      for (size_t j = 0; j < sets.size(); ++j)
        REQUIRE((sets[i].first == sets[j].first) == (m.small == sets[j].second.small && m.big == sets[j].second.big), "equality of sets");
      Count("set_steps");
    }
    Distinct(r.Next());
  } else if (what == 3) {  // uuids: a function of what they are made of
    const auto objs = SomeObjs(r);
    const int64_t n = r.In(1, 6);
    const size_t attrs = r.In(0, 4);
    const std::vector<std::string> names{"a", "b", "c", "dd", "e"};
    const std::vector<std::string> seeds{"", "x", "a", "seed"};
    const std::string seed = r.Of(seeds);
    const UuidType type = r.Of({UuidType::kDefault, UuidType::kList, UuidType::kDict});
    std::vector<std::vector<DataItem>> vals;
    std::vector<DataSliceImpl> slices;
    std::vector<size_t> order;
    for (size_t a = 0; a < attrs; ++a) { vals.push_back(RandValues(r, n, objs, 20)); slices.push_back(Slice(vals.back())); order.push_back(a); }
    const auto make = [&](const std::vector<size_t>& ord, const std::string& sd, UuidType ty, const std::vector<std::vector<DataItem>>& vs, int64_t row) {
      std::vector<absl::string_view> ns;
      std::vector<std::reference_wrapper<const DataItem>> is;
      for (size_t a : ord) { ns.push_back(names[a]); is.push_back(std::cref(vs[a][row])); }
      return CreateUuidFromFields(sd, ns, is, ty);
    };
    std::vector<size_t> shuffled = order;
    for (size_t i = shuffled.size(); i > 1; --i) std::swap(shuffled[i - 1], shuffled[r.Below(i)]);
    std::map<std::string, ObjectId> seen;
    for (int64_t row = 0; row < n; ++row) {
      const DataItem u = make(order, seed, type, vals, row);
      REQUIRE(u.holds_value<ObjectId>() && u.value<ObjectId>().IsUuid());
      const ObjectId o = u.value<ObjectId>();
      REQUIRE(o.IsList() == (type == UuidType::kList) && o.IsDict() == (type == UuidType::kDict), "kind of uuid");
      REQUIRE(make(shuffled, seed, type, vals, row) == u, "a uuid depends on the order of the attributes");
      std::string key = seed + "|" + std::to_string(static_cast<int>(type));
      for (size_t a : order) key += absl::StrCat("|", names[a], "=", drv::Str(vals[a][row]));
      for (const auto& [k2, o2] : seen) REQUIRE((k2 == key) == (o2 == o), "uuids of ", k2, " and ", key);
      seen[key] = o;
      // A change of anything changes it.
      REQUIRE(!(make(order, seed + "1", type, vals, row) == u), "the seed does not count");
      if (attrs) {
        auto other = vals;
        const size_t a = r.Below(attrs);
        other[a][row] = RandItem(r, objs, 20);
        REQUIRE((make(order, seed, type, other, row) == u) == Same(other[a][row], vals[a][row]), "uuid of ", drv::Str(vals[a][row]), " and ", drv::Str(other[a][row]));
        std::vector<size_t> less(order.begin(), order.end() - 1);
        REQUIRE(!(make(less, seed, type, vals, row) == u), "a uuid does not depend on the last attribute");
      }
      Count("uuids");
    }
    if (attrs) {
      std::vector<absl::string_view> ns;
      std::vector<std::reference_wrapper<const DataSliceImpl>> ss;
      for (size_t a : shuffled) { ns.push_back(names[a]); ss.push_back(std::cref(slices[a])); }
      const DataSliceImpl us = GET(CreateUuidFromFields(seed, ns, ss, type));
      std::vector<DataItem> want;
      for (int64_t row = 0; row < n; ++row) want.push_back(make(order, seed, type, vals, row));
      Expect("uuids of slices", us, want, "");
    }
    // of lists and dicts
    const auto li = RandValues(r, r.In(0, 5), objs, 20);
    const DataItem lu = CreateListUuidFromItemsAndFields(seed, Slice(li), {}, {});
    REQUIRE(lu.value<ObjectId>().IsList() && lu.value<ObjectId>().IsUuid());
    REQUIRE(lu == CreateListUuidFromItemsAndFields(seed, Slice(li), {}, {}));
    auto l2 = li;
    if (l2.size() > 1) {
      std::swap(l2[0], l2.back());
      REQUIRE((CreateListUuidFromItemsAndFields(seed, Slice(l2), {}, {}) == lu) == Same(l2[0], li[0]), "order of list items ", drv::Str(li));
    }
    l2.push_back(DataItem());
    REQUIRE(!(CreateListUuidFromItemsAndFields(seed, Slice(l2), {}, {}) == lu), "length of the list");
    std::vector<DataItem> ks, vs;
    std::set<std::string> had;
    for (int i = r.In(0, 5); i > 0; --i) {
      const DataItem k = RandItem(r, objs);
      if (had.insert(drv::Str(k)).second) { ks.push_back(k); vs.push_back(RandItem(r, objs, 20)); }
    }
    const DataItem du = CreateDictUuidFromKeysValuesAndFields(seed, Slice(ks), Slice(vs), {}, {});
    REQUIRE(du.value<ObjectId>().IsDict() && du.value<ObjectId>().IsUuid());
    if (ks.size() > 1) {
      auto k2 = ks, v2 = vs;
      const size_t i = r.Below(ks.size()), j = r.Below(ks.size());
      std::swap(k2[i], k2[j]);
      REQUIRE((CreateDictUuidFromKeysValuesAndFields(seed, Slice(k2), Slice(vs), {}, {}) == du) == (i == j || Same(vs[i], vs[j])), "values of dict keys");
      std::swap(v2[i], v2[j]);
      REQUIRE(CreateDictUuidFromKeysValuesAndFields(seed, Slice(k2), Slice(v2), {}, {}) == du, "order of dict keys");
    }
    std::string sig = drv::Str(li);
    for (auto& x : vals) sig += drv::Str(x);
    Distinct(Hash(sig));
  } else if (what == 4) {  // uuids beside objects
    const auto objs = SomeObjs(r);
    std::vector<DataItem> v;
    for (int i = r.In(0, 8); i > 0; --i) v.push_back(r.P(1, 6) ? DataItem() : DataItem(r.Of(objs)));
    const std::string salt = r.Of<const char*>({"", "x", "schema"});
    const DataSliceImpl s = GET(CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(Slice(v), salt));
    std::vector<DataItem> want;
    for (const auto& x : v) {
      const DataItem u = GET(CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(x, salt));
      REQUIRE(u.has_value() == x.has_value());
      if (u.has_value()) {
        const ObjectId a = x.value<ObjectId>(), b = u.value<ObjectId>();
        REQUIRE(b.IsUuid() && b.IsImplicitSchema() && b.IsSchema() && b.Offset() == a.Offset() && AllocationId(b).Capacity() == AllocationId(a).Capacity());
        REQUIRE(!(GET(CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(x, salt + "z")) == u), "the salt does not count");
      }
      want.push_back(u);
    }
    Expect("uuids of main objects", s, want, drv::Str(v));
    for (size_t i = 0; i < v.size(); ++i)
      for (size_t j = 0; j < i; ++j) REQUIRE(Same(v[i], v[j]) == Same(want[i], want[j]), "uuids of two objects ", drv::Str(v[i]), " ", drv::Str(v[j]));
    // New ids like the given ones: as many, of the same kinds, all new.
    std::vector<DataItem> w;
    for (const auto& x : v) w.push_back(r.P(1, 10) ? DataItem(int32_t{5}) : x);
    const DataSliceImpl ws = Slice(w);
    auto fresh = NewIdsLike(ws);
    CheckSlice(fresh, "new_ids_like", __LINE__);
    REQUIRE(fresh.size() == w.size());
    std::set<ObjectId> used(objs.begin(), objs.end());
    for (size_t i = 0; i < w.size(); ++i) {
      const bool obj = w[i].holds_value<ObjectId>();
      if (!obj) { REQUIRE(!fresh[i].has_value() || Same(fresh[i], w[i]), "item ", i, " of ", drv::Str(w)); continue; }
      REQUIRE(fresh[i].holds_value<ObjectId>(), "no new id for item ", i, " of ", drv::Str(w));
      const ObjectId o = fresh[i].value<ObjectId>(), old = w[i].value<ObjectId>();
      REQUIRE(used.insert(o).second, "an id that is not new, for item ", i, " of ", drv::Str(w));
      REQUIRE(o.IsList() == old.IsList() && o.IsDict() == old.IsDict() && o.IsSchema() == old.IsSchema() && o.IsAllocated(), "kind of item ", i);
    }
    // No-follow and back.
    for (const auto& o : objs) {
      if (!o.IsSchema()) continue;
      const ObjectId nf = CreateNoFollowWithMainObject(o);
      REQUIRE(nf.IsNoFollowSchema() && nf.IsSchema() && !o.IsNoFollowSchema() && GetOriginalFromNoFollow(nf) == o);
    }
    Count("main_objects", v.size());
    Distinct(Hash(drv::Str(v) + salt));
  } else {  // an allocation of uuids; aggregated uuids
    const int64_t size = r.Of<int64_t>({1, 2, 3, 5, 8, 9, 100, 1000});
    const std::string seed = r.Of<const char*>({"", "q", "seed"});
    const DataSliceImpl s = GET(CreateUuidsWithAllocationSize(seed, size));
    REQUIRE(s.size() == static_cast<size_t>(size) && s.present_count() == static_cast<size_t>(size));
    const DataSliceImpl again = GET(CreateUuidsWithAllocationSize(seed, size)), other = GET(CreateUuidsWithAllocationSize(seed + "1", size)), longer = GET(CreateUuidsWithAllocationSize(seed, size + 1));
    std::set<ObjectId> seen;
    for (int64_t i = 0; i < size; ++i) {
      const ObjectId o = s[i].value<ObjectId>();
      REQUIRE(o.IsUuid() && seen.insert(o).second && s[i] == again[i] && !(s[i] == other[i]) && !(s[i] == longer[i]) && o.Offset() == i && AllocationId(o) == AllocationId(s[0].value<ObjectId>()), "uuids ", size);
    }
    auto dims = RandDims(r, r.In(1, 2));
    const int64_t n = DimsSize(dims);
    const auto v = RandValues(r, n, SomeObjs(r), 10);
    const DataSliceImpl agg = GET(AggUuidOp(Slice(v), ShapeOf(dims)));
    REQUIRE(agg.size() == dims.back().size() && agg.present_count() == agg.size());
    int64_t at = 0;
    std::map<std::string, DataItem> by;
    for (size_t g = 0; g < dims.back().size(); ++g) {
      std::string key;
      for (int64_t k = 0; k < dims.back()[g]; ++k, ++at) if (v[at].has_value()) key += drv::Str(v[at]) + "|";
      for (const auto& [k2, u] : by) REQUIRE((k2 == key) == (u == agg[g]), "aggregated uuids of ", k2, " and ", key);
      by[key] = agg[g];
    }
    Count("uuid_allocations");
    Distinct(Hash(drv::Str(v)) ^ size);
  }
}

namespace {
const std::vector<schema::DType>& AllDTypes() {
  static const auto* v = [] {
    auto* r = new std::vector<schema::DType>;
    for (schema::DTypeId i = 0; i < schema::kNextDTypeId; ++i)
      if (!schema::DType::UnsafeFromId(i).name().empty()) r->push_back(schema::DType::UnsafeFromId(i));  // some ids are of types that were
    return r;
  }();
  return *v;
}
// The types above a type, as the language reference draws them.
bool Above(schema::DType a, schema::DType b) {
  using namespace schema;
  if (a == b || a == kNone) return true;
  const std::vector<DType> nums{kInt32, kInt64, kFloat32, kFloat64};
  int ia = -1, ib = -1;
  for (int i = 0; i < 4; ++i) { if (nums[i] == a) ia = i; if (nums[i] == b) ib = i; }
  if (ia >= 0 && ib >= 0) return ia <= ib;
  return b == kObject && a != kItemId && a != kSchema;
}
std::optional<schema::DType> Sup(const std::vector<schema::DType>& v) {
  std::vector<schema::DType> ub;
  for (const auto& t : AllDTypes()) {
    bool all = true;
    for (const auto& x : v) all &= Above(x, t);
    if (all) ub.push_back(t);
  }
  for (const auto& t : ub) {
    bool least = true;
    for (const auto& o : ub) least &= Above(t, o);
    if (least) return t;
  }
  return std::nullopt;
}
template <typename F>
auto WithCast(int k, F f) {
  switch (k) {
    case 0: return f(schema::ToInt32(), schema::kInt32);
    case 1: return f(schema::ToInt64(), schema::kInt64);
    case 2: return f(schema::ToFloat32(), schema::kFloat32);
    case 3: return f(schema::ToFloat64(), schema::kFloat64);
    case 4: return f(schema::ToBool(), schema::kBool);
    case 5: return f(schema::ToMask(), schema::kMask);
    case 6: return f(schema::ToStr(), schema::kString);
    case 7: return f(schema::ToBytes(), schema::kBytes);
    case 8: return f(schema::ToItemId(), schema::kItemId);
    case 9: return f(schema::ToSchema(), schema::kSchema);
    case 10: return f(schema::ToNone(), schema::kNone);
    default: return f(schema::Encode(), schema::kBytes);
  }
}
}  // namespace

CASE(casts) {
  const auto objs = SomeObjs(r);
  if (r.P(1, 2)) {  // common schemas
    std::vector<DataItem> v;
    std::vector<schema::DType> ds;
    std::set<ObjectId> os;
    std::vector<ObjectId> ss;
    for (int i = 0; i < 2; ++i) ss.push_back(MakeAlloc(r, 's', r.Of<int64_t>({1, 5})).id.ObjectByOffset(0));
    ss.push_back(CreateUuidExplicitSchema(arolla::Fingerprint{r.Next()}));
    const int pobj = r.Of({0, 0, 30, 100}), pnone = r.Of({0, 50});
    for (int i = r.In(0, 6); i > 0; --i) {
      if (r.P(1, 8)) { v.push_back(DataItem()); continue; }
      if (r.P(pobj, 100)) { const ObjectId o = r.P(5, 6) ? ss[0] : r.Of(ss); os.insert(o); v.push_back(DataItem(o)); continue; }
      const schema::DType d = pobj && r.P(pnone, 100) ? schema::kNone : r.P(1, 3) ? r.Of({schema::kInt32, schema::kInt64, schema::kFloat32, schema::kFloat64, schema::kNone}) : r.Of(AllDTypes());
      ds.push_back(d);
      v.push_back(DataItem(d));
    }
    std::optional<DataItem> want;  // unset: there is none
    const auto sup = ds.empty() ? std::nullopt : Sup(ds);
    if (os.empty()) { if (ds.empty()) want = DataItem(); else if (sup) want = DataItem(*sup); }
    else if (os.size() == 1 && (ds.empty() || (sup && *sup == schema::kNone))) want = DataItem(*os.begin());
    const std::string in = drv::Str(v);
    const auto check = [&](const char* how, const absl::StatusOr<DataItem>& got) {
      REQUIRE(got.ok() == want.has_value(), how, " of ", in, " should be ", want ? drv::Str(*want) : std::string("an error"), " and is ", got.ok() ? drv::Str(*got) : std::string("an error"));
      if (got.ok()) REQUIRE(Same(*got, *want), how, " of ", in, " is ", drv::Str(*got), ", not ", drv::Str(*want));
    };
    check("common schema", schema::CommonSchema(Slice(v)));
    for (int k = 0; k < 2; ++k) {
      auto p = v;
      for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[r.Below(i)]);
      schema::CommonSchemaAggregator agg;
      for (const auto& x : p) agg.Add(x);
      check("common schema in another order", std::move(agg).Get());
    }
    if (v.size() == 2) check("common schema of two", schema::CommonSchema(v[0], v[1]));
    if (v.size() >= 1 && v[0].has_value() && v.size() <= 2 && v.back().has_value()) {
      const DataItem &a = v[0], &b = v.back();
      REQUIRE(schema::IsImplicitlyCastableTo(a, b) == (want && Same(*want, b)), "castable ", drv::Str(a), " to ", drv::Str(b));
    }
    // in groups
    const auto dims = std::vector<std::vector<int64_t>>{{static_cast<int64_t>(v.size()), 0, 1}};
    auto w = v;
    w.push_back(DataItem(schema::kMask));
    auto grouped = AggCommonSchemaOp(Slice(w), SizesEdge(dims[0]));
    REQUIRE(grouped.ok() == want.has_value(), "in groups: ", in);
    if (grouped.ok()) REQUIRE(Same((*grouped)[0], *want) && !(*grouped)[1].has_value() && Same((*grouped)[2], w.back()), "in groups: ", in);
    Count("common_schemas");
    Distinct(Hash(in));
    return;
  }
  // A slice is cast as its items are.
  auto v = RandValues(r, r.In(0, 8), objs, r.Of({0, 30}));
  if (r.P(1, 3)) for (auto& x : v) if (x.has_value()) x = r.P(1, 2) ? RandOf(r, r.Below(kBool + 1), objs) : r.P(1, 2) ? DataItem(arolla::Text(r.Of<const char*>({"1", "-7", "2147483648", "1.5", "1e9", "inf", "nan", "", "x", " 1", "0x1", "9223372036854775808"}))) : DataItem(arolla::Bytes(r.Of<const char*>({"1", "-7", "99999999999"})));
  const DataSliceImpl s = Slice(v);
  const int k = r.Below(12);
  const std::string in = absl::StrCat("cast ", k, " of ", drv::Str(v));
  Log(in);
  WithCast(k, [&](auto cast, schema::DType to) {
    const auto type = to == schema::kItemId ? arolla::GetQType<ObjectId>() : to.qtype();
    bool ok = true;
    std::vector<DataItem> want;
    for (const auto& x : v) {
      auto one = cast(x);
      ok &= one.ok();
      if (!one.ok()) continue;
      want.push_back(*one);
      REQUIRE(one->has_value() <= x.has_value(), in, ": a value out of nothing");
      if (one->has_value() && to != schema::kSchema) REQUIRE(one->dtype() == type, in, ": an item of another type");
      if (x.has_value() && x.dtype() == type && k != 9) REQUIRE(Same(*one, x), in, ": a value of the type is changed");
      Count("casts");
      // what numbers become
      x.VisitValue([&]<typename T>(const T& a) {
        if constexpr (std::is_arithmetic_v<T>) {
          if (k == 0) REQUIRE(one->template value<int32_t>() == static_cast<int32_t>(a), in);
          if (k == 1) REQUIRE(one->template value<int64_t>() == static_cast<int64_t>(a), in);
          if (k == 2 && !std::isnan(static_cast<double>(a))) REQUIRE(one->template value<float>() == static_cast<float>(a), in);
          if (k == 3 && !std::isnan(static_cast<double>(a))) REQUIRE(one->template value<double>() == static_cast<double>(a), in);
          if (k == 4) REQUIRE(one->template value<bool>() == (a != 0), in);
          if (k == 5) REQUIRE(one->has_value() == (a != 0), in);
        }
      });
    }
    auto all = cast(s);
    if (ok != all.ok()) Fail(absl::StrCat(in, ": the slice is ", all.ok() ? "" : "not ", "cast, its items are ", ok ? "" : "not"));
    if (all.ok()) {
      Expect("cast", *all, want, in);
      if (all->present_count() && to != schema::kSchema) REQUIRE(all->dtype() == type, in);
    } else Count("refused");
    if (k < 11) {  // the same by the schema
      auto by = schema::CastDataTo(s, DataItem(to));
      REQUIRE(by.ok() == all.ok(), in, ": by the schema");
      if (by.ok()) Expect("cast by schema", *by, want, in);
    }
    return 0;
  });
  // What one type is implicitly cast to can be cast to it, and keeps numbers.
  const int t1 = r.Below(kTypes);
  const DataItem x = RandOf(r, t1, objs);
  const DataItem from = schema::GetDataSchema(x, nullptr);
  if (from.has_value()) {
    for (const auto& t : AllDTypes()) {
      if (t == schema::kObject || !schema::IsImplicitlyCastableTo(from, DataItem(t))) continue;
      REQUIRE(schema::CastDataTo(x, DataItem(t)).ok(), drv::Str(x), " is not cast to ", std::string(t.name()));
    }
  }
  Distinct(Hash(in));
}
}  // namespace drv
