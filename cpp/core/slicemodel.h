#pragma once
// A plain model of slices with their bags: what each object is, what its
// schema is, and what follows from it for every answer of a slice.
#include <algorithm>
#include <cmath>

#include "common.h"
#include "koladata/data_bag.h"
#include "koladata/data_slice.h"
#include "koladata/internal/schema_attrs.h"
#include "koladata/internal/slice_builder.h"
#include "koladata/internal/uuid_object.h"
#include "koladata/object_factories.h"
#include "koladata/shape_utils.h"

namespace drv {
namespace {
using koladata::DataBag;
using koladata::DataBagPtr;
using koladata::DataSlice;
using Shape = DataSlice::JaggedShape;
using Values = std::vector<DataItem>;
namespace sa = koladata::schema;

std::string Str2(const DataSlice& s) {
  return s.is_item() ? drv::Str(s.item()) : drv::Str(s.slice());
}
Values Items2(const DataSlice& s) { return s.is_item() ? Values{s.item()} : drv::Items(s.slice()); }

// ------------------------------------------------------------------ schemas
DataItem Dt(schema::DType t) { return DataItem(t); }
bool IsObjectSchema(const DataItem& s) { return s.holds_value<schema::DType>() && s.value<schema::DType>() == schema::kObject; }
bool IsDt(const DataItem& s, schema::DType t) { return s.holds_value<schema::DType>() && s.value<schema::DType>() == t; }
int Num(const DataItem& s) {
  if (!s.holds_value<schema::DType>()) return -1;
  const auto t = s.value<schema::DType>();
  return t == schema::kInt32 ? 0 : t == schema::kInt64 ? 1 : t == schema::kFloat32 ? 2 : t == schema::kFloat64 ? 3 : -1;
}
bool IsPrim(const DataItem& s) { return s.holds_value<schema::DType>() && s.value<schema::DType>().is_primitive(); }
// The schema both can be seen as.
std::optional<DataItem> Join(const DataItem& a, const DataItem& b) {
  if (Same(a, b)) return a;
  if (IsDt(a, schema::kNone)) return b;
  if (IsDt(b, schema::kNone)) return a;
  if (Num(a) >= 0 && Num(b) >= 0) return Num(a) > Num(b) ? a : b;
  const auto up = [](const DataItem& s) { return IsPrim(s) || IsObjectSchema(s); };
  if (up(a) && up(b)) return Dt(schema::kObject);
  return std::nullopt;
}
std::optional<DataItem> Join(const Values& v) {
  std::optional<DataItem> r = Dt(schema::kNone);
  for (const auto& x : v) if (r) r = Join(*r, x);
  return r;
}
DataItem TypeOf(const DataItem& x) {
  DataItem r;
  x.VisitValue([&]<typename T>(const T& a) {
    if constexpr (std::is_same_v<T, ObjectId>) r = Dt(schema::kObject);
    else if constexpr (std::is_same_v<T, schema::DType>) r = Dt(schema::kSchema);
    else if constexpr (!std::is_same_v<T, MissingValue> && !std::is_same_v<T, arolla::expr::ExprQuote>) r = Dt(schema::GetDType<T>());
  });
  return r;
}
DataItem Convert(const DataItem& x, const DataItem& to) {
  const int n = Num(to);
  if (n < 0 || !x.has_value()) return x;
  DataItem r = x;
  x.VisitValue([&]<typename T>(const T& a) {
    if constexpr (std::is_arithmetic_v<T> && !std::is_same_v<T, bool>) {
      if constexpr (std::is_floating_point_v<T>) if (n < 2 && !(a > -1e9 && a < 1e9)) return;  // it cannot be seen as one
      if (n == 0) r = DataItem(static_cast<int32_t>(a));
      if (n == 1) r = DataItem(static_cast<int64_t>(a));
      if (n == 2) r = DataItem(static_cast<float>(a));
      if (n == 3) r = DataItem(static_cast<double>(a));
    }
  });
  return r;
}
// That a value may be in a slice of the schema.
bool Fits(const DataItem& x, const DataItem& s) {
  if (!x.has_value()) return true;
  if (s.holds_value<ObjectId>() || IsDt(s, schema::kItemId)) return x.holds_value<ObjectId>();
  if (IsObjectSchema(s)) return true;
  if (IsDt(s, schema::kSchema)) return x.holds_value<schema::DType>() || (x.holds_value<ObjectId>() && x.value<ObjectId>().IsSchema());
  return Same(TypeOf(x), s);
}

// ------------------------------------------------------------------- shapes
std::vector<std::vector<int64_t>> RandDims(Rng& r, int rank, int max) {
  std::vector<std::vector<int64_t>> d;
  int64_t n = 1;
  for (int i = 0; i < rank; ++i) {
    std::vector<int64_t> v;
    int64_t s = 0;
    for (int64_t k = 0; k < n; ++k) { v.push_back(r.P(1, 6) ? 0 : r.In(1, max)); s += v.back(); }
    d.push_back(v);
    n = s;
  }
  return d;
}
int64_t DimsSize(const std::vector<std::vector<int64_t>>& d) {
  int64_t n = 1;
  for (const auto& v : d) { n = 0; for (int64_t x : v) n += x; }
  return n;
}
Shape ShapeOf(const std::vector<std::vector<int64_t>>& d) {
  Shape s = Shape::Empty();
  for (const auto& v : d) {
    std::vector<int64_t> sp{0};
    for (int64_t x : v) sp.push_back(sp.back() + x);
    s = GET(s.AddDims({GET(arolla::DenseArrayEdge::FromSplitPoints(arolla::CreateFullDenseArray<int64_t>(sp)))}));
  }
  return s;
}
using Dims = std::vector<std::vector<int64_t>>;
// For each place of the deeper shape, its place in the first `rank` dimensions.
std::vector<size_t> Parents(const Dims& d, size_t rank) {
  std::vector<size_t> p(DimsSize(Dims(d.begin(), d.begin() + rank)));
  for (size_t i = 0; i < p.size(); ++i) p[i] = i;
  for (size_t k = rank; k < d.size(); ++k) {
    std::vector<size_t> q;
    for (size_t i = 0; i < p.size(); ++i) for (int64_t j = 0; j < d[k][i]; ++j) q.push_back(p[i]);
    p = q;
  }
  return p;
}
Dims DimsOf(const Shape& s) {
  Dims d;
  for (const auto& e : s.edges()) {
    std::vector<int64_t> v;
    for (int64_t i = 0; i + 1 < e.edge_values().size(); ++i) v.push_back(e.edge_values()[i + 1].value - e.edge_values()[i].value);
    d.push_back(v);
  }
  return d;
}
bool IsPrefix(const Dims& a, const Dims& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
DataSlice Make(const Values& v, const Dims& d, const DataItem& schema, DataBagPtr db = nullptr) {
  if (d.empty()) return GET(DataSlice::Create(v[0], schema, db));
  return GET(DataSlice::Create(drv::Slice(v), ShapeOf(d), schema, db));
}

// -------------------------------------------------------------------- model
struct Bag {
  DataBagPtr db;
  bool frozen = false;
  std::map<ObjectId, std::map<std::string, DataItem>> data;    // a missing value was removed
  std::map<ObjectId, std::map<std::string, DataItem>> schema;  // likewise
  std::map<ObjectId, Values> lists;
  std::map<ObjectId, std::map<std::string, std::pair<DataItem, DataItem>>> dicts;
};
struct World {
  Rng& r;
  std::vector<Alloc> allocs;
  std::vector<ObjectId> objs;
  std::map<ObjectId, DataItem> entity;   // the schema an object has where it is an entity
  Values ents;                           // entity schemas
  Values impl;                           // implicit schemas
  std::vector<std::string> names{"a", "b", "c"};
  Values palette;                        // types that are used most
  explicit World(Rng& rng) : r(rng) {
    if (r.P(1, 3)) names.resize(r.In(1, 2));
    if (r.P(1, 3)) return;
    const Values numbers{Dt(schema::kInt32), Dt(schema::kInt64), Dt(schema::kFloat32), Dt(schema::kFloat64), Dt(schema::kObject), Dt(schema::kNone)};
    const bool num = r.P(2, 3);
    for (int i = r.In(2, 4); i > 0; --i) palette.push_back(num ? r.Of(numbers) : Dt(r.Of({schema::kInt32, schema::kString, schema::kBytes, schema::kItemId, schema::kSchema, schema::kMask, schema::kBool, schema::kObject})));
  }
  World(const World&) = default;
  World& operator=(const World& o) {
    allocs = o.allocs; objs = o.objs; entity = o.entity; ents = o.ents; impl = o.impl; names = o.names; palette = o.palette;
    return *this;
  }

  DataItem ValueOf(const DataItem& s, const Bag& b) const {
    if (s.holds_value<ObjectId>()) {
      Values c;
      for (const auto& [o, e] : entity) if (Same(e, s)) c.push_back(DataItem(o));
      return c.empty() ? DataItem() : r.Of(c);
    }
    const auto t = s.value<schema::DType>();
    if (t == schema::kNone) return DataItem();
    if (t == schema::kInt32) return RandOf(r, kI32, objs);
    if (t == schema::kInt64) return RandOf(r, kI64, objs);
    if (t == schema::kFloat32) return RandOf(r, kF32, objs);
    if (t == schema::kFloat64) return RandOf(r, kF64, objs);
    if (t == schema::kBool) return RandOf(r, kBool, objs);
    if (t == schema::kMask) return RandOf(r, kUnit, objs);
    if (t == schema::kString) return RandOf(r, kText, objs);
    if (t == schema::kBytes) return RandOf(r, kBytes, objs);
    if (t == schema::kItemId) return DataItem(r.Of(objs));
    if (t == schema::kSchema) return r.P(1, 2) ? Dt(r.Of({schema::kInt32, schema::kObject, schema::kString})) : r.Of(ents);
    return DataItem();
  }
  DataItem RandSchema() const {
    if (r.P(1, 5)) return r.Of(ents);
    if (!palette.empty() && r.P(5, 6)) return r.Of(palette);
    return Dt(r.Of({schema::kInt32, schema::kInt32, schema::kInt64, schema::kFloat32, schema::kFloat64, schema::kBool, schema::kMask, schema::kString, schema::kString, schema::kBytes, schema::kItemId, schema::kSchema, schema::kNone, schema::kObject, schema::kObject}));
  }
  Values ValuesOf(const DataItem& s, size_t n, const Bag& b, int missing) const {
    Values v;
    const int how = r.Below(4);
    const DataItem one = Dt(r.Of({schema::kInt32, schema::kInt64, schema::kFloat32, schema::kString}));
    for (size_t i = 0; i < n; ++i) {
      if (r.P(missing, 100)) { v.push_back(DataItem()); continue; }
      if (!IsObjectSchema(s)) { v.push_back(ValueOf(s, b)); continue; }
      // OBJECT: primitives of one type, of several, objects, or everything
      std::vector<ObjectId> os;
      for (const auto& o : objs) if (b.data.count(o) && b.data.at(o).count("__schema__") && b.data.at(o).at("__schema__").has_value()) os.push_back(o);
      if (os.empty() || how == 0) v.push_back(ValueOf(one, b));
      else if (how == 1) v.push_back(ValueOf(Dt(r.Of({schema::kInt32, schema::kInt64, schema::kString, schema::kMask})), b));
      else if (how == 2 || r.P(1, 2)) v.push_back(DataItem(r.Of(os)));
      else v.push_back(ValueOf(one, b));
    }
    return v;
  }
};

// A bag and those it falls back to, as one.
struct Chain {
  std::vector<const Bag*> bags;
  DataItem Data(const ObjectId& o, const std::string& n) const {
    for (const Bag* b : bags) if (auto i = b->data.find(o); i != b->data.end()) if (auto j = i->second.find(n); j != i->second.end()) return j->second;
    return DataItem();
  }
  DataItem Schema(const DataItem& s, const std::string& n) const {
    if (!s.holds_value<ObjectId>()) return DataItem();
    for (const Bag* b : bags) if (auto i = b->schema.find(s.value<ObjectId>()); i != b->schema.end()) if (auto j = i->second.find(n); j != i->second.end()) return j->second;
    return DataItem();
  }
  std::set<std::string> Names(const DataItem& s) const {
    std::set<std::string> r;
    if (!s.holds_value<ObjectId>()) return r;
    for (const Bag* b : bags) if (auto i = b->schema.find(s.value<ObjectId>()); i != b->schema.end()) for (const auto& [n, _] : i->second) if (Schema(s, n).has_value()) r.insert(n);
    return r;
  }
};


DataBagImpl& Mut(const DataBagPtr& db) {
  auto st = db->GetMutableImpl();
  REQUIRE(st.ok(), "a bag that should be mutable is not");
  return *st;
}
bool ObjSchemaOf(const Chain& c, const DataItem& o, DataItem& s) {
  s = c.Data(o.value<ObjectId>(), "__schema__");
  return s.has_value();
}

void MakeWorld(World& w, Bag& b) {
  Rng& r = w.r;
  for (int i = r.In(2, 3); i > 0; --i) w.ents.push_back(DataItem(MakeAlloc(r, 's', 1).id.ObjectByOffset(0)));
  for (int i = r.In(2, 5); i > 0; --i) {
    const Alloc a = MakeAlloc(r, 'e', r.Of<int64_t>({1, 1, 2, 3, 6, 17}));
    w.allocs.push_back(a);
    const DataItem e = r.Of(w.ents);
    const int how = r.Below(5);
    for (const auto& o : a.objs()) {
      w.objs.push_back(o);
      w.entity[o] = e;
      if (how == 0 || (how == 1 && r.P(1, 4))) continue;  // not objects
      DataItem s = e;
      if (how >= 2 && !(how == 4 && r.P(1, 3))) s = GET(CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(DataItem(o), sa::kImplicitSchemaSeed));
      if (s.is_implicit_schema()) w.impl.push_back(s);
      REQUIRE_OK(Mut(b.db).SetAttr(DataItem(o), sa::kSchemaAttr, s));
      b.data[o]["__schema__"] = s;
    }
  }
}

// The schema the values have of themselves.
DataItem Narrow(const Values& v, const DataItem& s, const Chain* c) {
  if (!IsObjectSchema(s)) return s;
  Values t;
  bool prims = false, objs = false;
  for (const auto& x : v) {
    if (!x.has_value()) continue;
    if (!x.holds_value<ObjectId>()) { prims = true; t.push_back(TypeOf(x)); continue; }
    objs = true;
    DataItem os;
    if (!c || !ObjSchemaOf(*c, x, os)) return s;
    t.push_back(os);
  }
  if (prims && objs) return s;
  const auto j = Join(t);
  return j ? *j : s;
}
// The values as those of an attribute that has the schema `to`; unset: they
// cannot be. embed: what objects get a schema.
std::optional<Values> CastIn(const Values& v, const DataItem& from, const DataItem& to, const Chain& own, const Chain* vals, std::vector<ObjectId>* embed) {
  if (Same(from, to)) return v;
  if (IsObjectSchema(to) && from.holds_value<ObjectId>()) {
    for (const auto& x : v) {
      if (!x.has_value()) continue;
      DataItem os;
      if (ObjSchemaOf(own, x, os) && !Same(os, from)) return std::nullopt;
      embed->push_back(x.value<ObjectId>());
    }
    return v;
  }
  const auto j = Join(Narrow(v, from, vals), to);
  if (!j || !Same(*j, to)) return std::nullopt;
  Values out;
  for (const auto& x : v) out.push_back(Convert(x, to));
  return out;
}

// Sets an attribute in the model; false: it cannot be set and nothing changes.
bool ModelSet(Bag& b, const Values& objs, const DataItem& schema, const std::string& name, const Values& vals, const DataItem& vschema, const Chain* vchain, bool overwrite) {
  const Chain own{{&b}};
  Values schemas;  // of the objects, where there are any
  if (IsObjectSchema(schema)) {
    for (const auto& o : objs) {
      if (!o.has_value()) continue;
      DataItem s;
      if (!ObjSchemaOf(own, o, s)) return false;
      schemas.push_back(s);
    }
  } else schemas.push_back(schema);
  if (schemas.empty()) return true;
  std::optional<DataItem> cast_to;
  bool set = overwrite;
  DataItem to = vschema;
  if (!overwrite) {
    for (const auto& s : schemas) {
      const DataItem stored = own.Schema(s, name);
      if (!stored.has_value()) { set = true; continue; }
      if (s.is_implicit_schema()) { set |= !Same(stored, vschema); continue; }
      if (cast_to && !Same(*cast_to, stored)) return false;
      cast_to = stored;
    }
  }
  Values v = vals;
  std::vector<ObjectId> embed;
  if (cast_to) {
    auto c = CastIn(vals, vschema, *cast_to, own, vchain, &embed);
    if (!c) return false;
    v = *c;
    to = *cast_to;
    set |= !Same(to, vschema);
  }
  for (const auto& o : embed) b.data[o]["__schema__"] = vschema;
  if (set) for (const auto& s : schemas) if (!cast_to || !s.has_value() || s.is_implicit_schema() || !own.Schema(s, name).has_value()) b.schema[s.value<ObjectId>()][name] = to;
  for (size_t i = 0; i < objs.size(); ++i) if (objs[i].has_value()) b.data[objs[i].value<ObjectId>()][name] = v[i];
  return true;
}

struct Answer {
  bool known = true, ok = true;  // not known: what it should be is not said
  DataItem schema;
  Values v;
};
// get: 0 every object has the attribute, 1 or it is missing.
Answer ModelGet(const Chain& c, const Values& objs, const DataItem& schema, const std::string& name, bool maybe) {
  Answer a;
  a.v.resize(objs.size());
  Values per(objs.size());
  if (IsDt(schema, schema::kNone)) { a.schema = Dt(schema::kNone); return a; }
  if (IsObjectSchema(schema)) {
    Values ss;
    for (size_t i = 0; i < objs.size(); ++i) {
      if (!objs[i].has_value()) continue;
      DataItem s;
      if (!ObjSchemaOf(c, objs[i], s)) { a.ok = false; return a; }
      per[i] = c.Schema(s, name);
      if (per[i].has_value()) ss.push_back(per[i]);
      else if (!maybe) { a.ok = false; return a; }
    }
    const auto j = Join(ss);
    if (!j) { a.ok = false; return a; }
    a.schema = *j;
  } else {
    a.schema = c.Schema(schema, name);
    if (!a.schema.has_value()) {
      if (!maybe) { a.ok = false; return a; }
      a.schema = Dt(schema::kNone);
      return a;
    }
    for (size_t i = 0; i < objs.size(); ++i) if (objs[i].has_value()) per[i] = a.schema;
  }
  for (size_t i = 0; i < objs.size(); ++i) {
    if (!per[i].has_value()) continue;
    const DataItem x = c.Data(objs[i].value<ObjectId>(), name);
    if (!Fits(x, per[i])) {
      if (IsObjectSchema(schema) || IsDt(a.schema, schema::kSchema)) a.known = false;
      else a.ok = false;
    }
    a.v[i] = Convert(x, a.schema);
  }
  return a;
}

void ExpectSlice(const char* what, const DataSlice& got, const Values& v, const DataItem& schema, const Dims& d) {
  REQUIRE(Same(got.GetSchemaImpl(), schema), what, ": the schema is ", drv::Str(got.GetSchemaImpl()), ", not ", drv::Str(schema));
  REQUIRE(got.size() == v.size() && DimsOf(got.GetShape()) == d, what, ": the shape");
  const Values g = Items2(got);
  for (size_t i = 0; i < v.size(); ++i) REQUIRE(Same(g[i], v[i]), what, ": value ", i, " is ", drv::Str(g[i]), ", not ", drv::Str(v[i]), " in ", drv::Str(v));
  if (!got.is_item()) CheckSlice(got.slice(), what, __LINE__);
}
void ExpectAnswer(const char* what, const absl::StatusOr<DataSlice>& got, const Answer& a, const Dims& d) {
  if (!a.known) return;
  REQUIRE(got.ok() == a.ok, what, ": ", got.ok() ? Str2(*got) : std::string(got.status().message()), " where ", a.ok ? drv::Str(a.v) : std::string("an error"), " should be");
  if (!got.ok()) { Count("refused_reads"); return; }
  ExpectSlice(what, *got, a.v, a.schema, d);
}

// Everything the bag says of the objects and schemas, against the model.
void CheckAll(const World& w, const Bag& b, const char* when) {
  const Chain c{{&b}};
  for (const auto& o : w.objs) {
    for (const auto& n : w.names) {
      const DataItem got = GET(b.db->GetImpl().GetAttr(DataItem(o), n)), want = c.Data(o, n);
      REQUIRE(Same(got, want), when, ": attribute ", n, " of ", drv::Str(DataItem(o)), " is ", drv::Str(got), ", not ", drv::Str(want));
    }
    const DataItem got = GET(b.db->GetImpl().GetAttr(DataItem(o), sa::kSchemaAttr)), want = c.Data(o, "__schema__");
    REQUIRE(Same(got, want), when, ": schema of ", drv::Str(DataItem(o)), " is ", drv::Str(got), ", not ", drv::Str(want));
  }
  for (const auto* ss : {&w.ents, &w.impl}) {
    for (const auto& s : *ss) {
      std::set<std::string> names;
      for (const auto& n : GET(b.db->GetImpl().GetSchemaAttrsAsVector(s))) if (GET(b.db->GetImpl().GetSchemaAttrAllowMissing(s, n.value<arolla::Text>().view())).has_value()) names.insert(std::string(n.value<arolla::Text>().view()));
      REQUIRE(names == c.Names(s), when, ": attributes of schema ", drv::Str(s));
      for (const auto& n : names) {
        const DataItem got = GET(b.db->GetImpl().GetSchemaAttr(s, n)), want = c.Schema(s, n);
        REQUIRE(Same(got, want), when, ": attribute ", n, " of schema ", drv::Str(s), " is ", drv::Str(got), ", not ", drv::Str(want));
      }
    }
  }
}

// Some objects as a slice.
struct Pick {
  Values v;
  Dims d;
  DataItem schema;
  bool full = false;  // a whole allocation in order
  AllocationId alloc;
  DataSlice In(const DataBagPtr& db) const {
    if (full) return GET(DataSlice::CreateFullAlloc(alloc, ShapeOf(d), schema, db));
    return Make(v, d, schema, db);
  }
};
Pick PickObjs(World& w, const Bag& b, bool dups) {
  Rng& r = w.r;
  Pick p;
  const int kind = r.Below(3);  // 0 entities, 1 objects, 2 objects or what is not
  if (kind == 0) p.schema = r.Of(w.ents);
  else p.schema = Dt(schema::kObject);
  if (r.P(1, 30)) p.schema = Dt(schema::kNone);
  std::vector<ObjectId> can;
  for (const auto& o : w.objs) {
    if (kind == 0 ? Same(w.entity[o], p.schema) : b.data.count(o) && b.data.at(o).count("__schema__")) can.push_back(o);
    else if (kind == 2 && r.P(1, 20)) can.push_back(o);
  }
  if (r.P(1, 5)) {
    for (const auto& a : w.allocs) {
      const auto os = a.objs();
      if (a.size < 2 || !std::all_of(os.begin(), os.end(), [&](const ObjectId& o) { return std::find(can.begin(), can.end(), o) != can.end(); }) || IsDt(p.schema, schema::kNone)) continue;
      p.full = true;
      p.alloc = a.id;
      for (const auto& o : os) p.v.push_back(DataItem(o));
      p.d = {{a.size}};
      if (a.size == 6 && r.P(1, 2)) p.d = {{3}, {2, 0, 4}};
      return p;
    }
  }
  p.d = RandDims(r, r.Of({0, 0, 1, 1, 1, 2, 2, 3}), 4);
  const int64_t n = DimsSize(p.d);
  const int missing = r.Of({0, 0, 20, 100});
  if (r.P(1, 2)) {  // in the order of ids
    std::sort(can.begin(), can.end());
  } else for (size_t i = can.size(); i > 1; --i) std::swap(can[i - 1], can[r.Below(i)]);
  size_t at = r.P(1, 2) && !can.empty() ? r.Below(can.size()) : 0;
  for (int64_t i = 0; i < n; ++i) {
    if (r.P(missing, 100) || IsDt(p.schema, schema::kNone) || can.empty()) { p.v.push_back(DataItem()); continue; }
    if (dups) { p.v.push_back(DataItem(r.Of(can))); continue; }
    p.v.push_back(at < can.size() ? DataItem(can[at++]) : DataItem());
  }
  return p;
}
std::string PickStr(const Pick& p) {
  std::string s = absl::StrCat(drv::Str(p.v), p.full ? " (an allocation)" : "", " of ", drv::Str(p.schema), " in");
  for (const auto& d : p.d) { s += " ["; for (int64_t x : d) absl::StrAppend(&s, x, " "); s += "]"; }
  return s;
}

// Lists or dicts, with their schemas, beside the objects of a world.
World Collections(World& w, Bag& b, bool dict) {
  Rng& r = w.r;
  World c(r);
  // Often what differs is only which numbers they are of.
  const bool alike = r.P(1, 2);
  const DataItem one_key = Dt(r.Of({schema::kInt32, schema::kInt64, schema::kString, schema::kObject}));
  const auto elem = [&](bool key) {
    if (alike && key) return one_key;
    if (alike && r.P(4, 5)) return Dt(r.Of({schema::kInt32, schema::kInt64, schema::kFloat32, schema::kFloat64}));
    if (r.P(1, 6)) return r.Of(w.ents);
    if (key) return Dt(r.Of({schema::kInt32, schema::kInt64, schema::kString, schema::kString, schema::kObject, schema::kBytes, schema::kBool}));
    return Dt(r.Of({schema::kInt32, schema::kInt64, schema::kFloat32, schema::kFloat64, schema::kString, schema::kString, schema::kObject, schema::kObject, schema::kMask, schema::kSchema}));
  };
  for (int i = r.In(2, 4); i > 0; --i) {
    const DataItem s(MakeAlloc(r, 's', 1).id.ObjectByOffset(0));
    c.ents.push_back(s);
    const bool same = i > 1 && r.P(1, 3) && c.ents.size() > 1;
    for (const char* a : {"__items__", "__keys__", "__values__"}) {
      if (dict == (a == std::string("__items__")) || r.P(1, 25)) continue;
      DataItem e = elem(a == std::string("__keys__"));
      if (same) if (const DataItem x = Chain{{&b}}.Schema(c.ents[0], a); x.has_value()) e = x;
      REQUIRE_OK(Mut(b.db).SetSchemaAttr(s, a, e));
      b.schema[s.value<ObjectId>()][a] = e;
    }
  }
  for (int i = r.In(2, 4); i > 0; --i) {
    const Alloc a = MakeAlloc(r, dict ? 'd' : 'l', r.Of<int64_t>({1, 1, 2, 3, 6, 17}));
    c.allocs.push_back(a);
    const DataItem e = r.Of(c.ents);
    const int how = r.Below(4);
    for (const auto& o : a.objs()) {
      c.objs.push_back(o);
      c.entity[o] = e;
      if (how == 0) continue;
      const DataItem os = (how == 1 || alike) && r.P(1, 3) ? r.Of(c.ents) : e;
      if (!Same(os, e)) c.entity[o] = os;
      REQUIRE_OK(Mut(b.db).SetAttr(DataItem(o), sa::kSchemaAttr, os));
      b.data[o]["__schema__"] = os;
    }
  }
  return c;
}
// The values as elements; unset: they cannot be.
std::optional<Values> AsElements(Bag& b, const Pick& p, const char* attr, const Values& v, const DataItem& vs, const Chain* vc) {
  const Chain own{{&b}};
  if (IsDt(p.schema, schema::kNone)) return v;
  std::optional<DataItem> to;
  if (IsObjectSchema(p.schema)) {
    for (const auto& o : p.v) {
      if (!o.has_value()) continue;
      DataItem s;
      if (!ObjSchemaOf(own, o, s)) return std::nullopt;
      const DataItem e = own.Schema(s, attr);
      if (!e.has_value() || (to && !Same(*to, e))) return std::nullopt;
      to = e;
    }
    if (!to) return v;
  } else {
    to = own.Schema(p.schema, attr);
    if (!to->has_value()) return std::nullopt;
  }
  std::vector<ObjectId> embed;
  auto c = CastIn(v, vs, *to, own, vc, &embed);
  if (c) for (const auto& o : embed) b.data[o]["__schema__"] = vs;
  return c;
}
// The schema of what is read; unset: nothing can be read.
std::optional<DataItem> ElementSchema(const Chain& c, const Pick& p, const char* attr) {
  if (IsDt(p.schema, schema::kNone)) return p.schema;
  if (!IsObjectSchema(p.schema)) {
    const DataItem s = c.Schema(p.schema, attr);
    return s.has_value() ? std::optional<DataItem>(s) : std::nullopt;
  }
  Values t;
  for (const auto& o : p.v) {
    if (!o.has_value()) continue;
    DataItem s;
    if (!ObjSchemaOf(c, o, s)) return std::nullopt;
    t.push_back(c.Schema(s, attr));
    if (!t.back().has_value()) return std::nullopt;
  }
  return Join(t);
}
const Values& ListOf(const Chain& c, const DataItem& o) {
  static const Values none;
  if (o.has_value()) for (const Bag* b : c.bags) if (auto i = b->lists.find(o.value<ObjectId>()); i != b->lists.end()) return i->second;
  return none;
}
std::pair<size_t, size_t> Cut2(int64_t from, std::optional<int64_t> to, int64_t n) {
  const auto fix = [&](int64_t x) { return std::min(n, std::max<int64_t>(0, x < 0 ? x + n : x)); };
  const int64_t f = fix(from), t = to ? fix(*to) : n;
  return {f, std::max(f, t)};
}
int64_t Place(int64_t i, int64_t n) { if (i < 0) i += n; return i >= 0 && i < n ? i : -1; }
// Indices: values, their schema, and whether they can be indices.
struct Index { Values v; Dims d; DataItem schema; bool ok = true; };
Index RandIndex(Rng& r, const Dims& d) {
  Index x;
  x.d = d;
  x.schema = Dt(r.Of({schema::kInt64, schema::kInt64, schema::kInt32, schema::kInt32, schema::kObject, schema::kNone, schema::kFloat32, schema::kString}));
  if (r.P(2, 3) && (IsDt(x.schema, schema::kFloat32) || IsDt(x.schema, schema::kString))) x.schema = Dt(schema::kInt32);
  const int missing = r.Of({0, 20, 20, 100});
  bool bad = false;
  for (int64_t i = DimsSize(d); i > 0; --i) {
    const int32_t k = r.In(-5, 5);
    DataItem v = Num(x.schema) == 0 ? DataItem(k) : Num(x.schema) == 1 ? DataItem(static_cast<int64_t>(k)) : Num(x.schema) == 2 ? DataItem(static_cast<float>(k)) : r.P(1, 2) ? DataItem(k) : DataItem(static_cast<int64_t>(k));
    if (IsDt(x.schema, schema::kString)) v = DataItem(arolla::Text("1"));
    if (IsObjectSchema(x.schema) && r.P(1, 40)) v = DataItem(1.0f);
    if (r.P(missing, 100) || IsDt(x.schema, schema::kNone)) v = DataItem();
    bad |= v.holds_value<float>();
    x.v.push_back(v);
  }
  x.ok = !(Num(x.schema) == 2 || IsDt(x.schema, schema::kString) || (IsObjectSchema(x.schema) && bad));
  return x;
}
std::optional<int64_t> IntOf(const DataItem& x) {
  if (x.holds_value<int32_t>()) return x.value<int32_t>();
  if (x.holds_value<int64_t>()) return x.value<int64_t>();
  return std::nullopt;
}
// The shape two operands have together; unset: there is none.
std::optional<Dims> Together(const Dims& a, const Dims& b) {
  if (IsPrefix(a, b)) return b;
  if (IsPrefix(b, a)) return a;
  return std::nullopt;
}
Values Spread(const Values& v, const Dims& from, const Dims& to) {
  Values out;
  for (size_t i : Parents(to, from.size())) out.push_back(v[i]);
  return out;
}
// A shape that goes with another one, deeper by at most `more`.
Dims Beside(Rng& r, const Dims& d, int more) {
  Dims x = d;
  if (r.P(1, 30)) return RandDims(r, r.In(0, 2), 3);
  if (r.P(1, 3)) x.resize(r.Below(x.size() + 1));
  else if (more && r.P(1, 3))
    for (int k = r.In(1, more); k > 0; --k) {
      std::vector<int64_t> last;
      for (int64_t i = DimsSize(x); i > 0; --i) last.push_back(r.P(1, 5) ? 0 : r.In(1, 3));
      x.push_back(last);
    }
  return x;
}
void CheckLists(const World& l, const Bag& b, const char* when) {
  for (const auto& o : l.objs) {
    const Values got = drv::Items(GET(b.db->GetImpl().ExplodeList(DataItem(o)))), &want = ListOf(Chain{{&b}}, DataItem(o));
    REQUIRE(got.size() == want.size(), when, ": list ", drv::Str(DataItem(o)), " is ", drv::Str(got), ", not ", drv::Str(want));
    for (size_t i = 0; i < got.size(); ++i) REQUIRE(Same(got[i], want[i]), when, ": list ", drv::Str(DataItem(o)), " is ", drv::Str(got), ", not ", drv::Str(want));
  }
}
Chain RandChain(Rng& r, std::vector<Bag>& bags, size_t bi, DataBagPtr& db, std::string& how) {
  Chain c{{&bags[bi]}};
  db = bags[bi].db;
  how = absl::StrCat("bag ", bi);
  if (!r.P(1, 4)) return c;
  const size_t k = r.Below(bags.size());
  db = GET(DataBag::ImmutableEmptyWithFallbacks({bags[bi].db->Freeze(), bags[k].db->Freeze()}));
  c.bags.push_back(&bags[k]);
  how += absl::StrCat(" then ", k);
  return c;
}
void RandFork(Rng& r, std::vector<Bag>& bags, size_t bi) {
  if (bags.size() > 3) return;
  Bag nb = bags[bi];
  const bool frozen = r.P(1, 4);
  Log(absl::StrCat("bag ", bags.size(), " = fork of bag ", bi, frozen ? ", frozen" : ""));
  nb.db = GET(bags[bi].db->Fork(frozen));
  nb.frozen = frozen;
  bags.push_back(nb);
  Count("forks");
}
std::string Str3(const Values& v, const Dims& d, const DataItem& s) {
  Pick p;
  p.v = v; p.d = d; p.schema = s;
  return PickStr(p);
}
}  // namespace
}  // namespace drv
