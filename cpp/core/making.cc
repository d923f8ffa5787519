// Factories: entities, objects, ids from content, schemas, lists and dicts,
// made from values of other bags.
#include <atomic>
#include <thread>
#include "slicemodel.h"
#include "koladata/adoption_utils.h"
#include "koladata/check_frozen.h"
#include "koladata/uuid_utils.h"
#include "absl/strings/str_join.h"

namespace drv {
namespace {
// A bag with what is in it, that values are taken from.
struct Source {
  World w;
  Bag b;
  explicit Source(Rng& r) : w(r) { b.db = DataBag::EmptyMutable(); }
};
void SetSchema(Bag& b, const DataItem& s, const std::string& n, const DataItem& t) {
  REQUIRE_OK(Mut(b.db).SetSchemaAttr(s, n, t));
  b.schema[s.value<ObjectId>()][n] = t;
}
void SetData(Bag& b, const ObjectId& o, const std::string& n, const DataItem& v) {
  REQUIRE_OK(Mut(b.db).SetAttr(DataItem(o), n, v));
  b.data[o][n] = v;
}
// Entities and objects, each of them under one schema, with attributes.
void Fill(Source& s) {
  World& w = s.w;
  Rng& r = w.r;
  for (int i = r.In(1, 3); i > 0; --i) w.ents.push_back(DataItem(MakeAlloc(r, 's', 1).id.ObjectByOffset(0)));
  for (int i = r.In(2, 4); i > 0; --i) {
    const Alloc a = MakeAlloc(r, 'e', r.Of<int64_t>({1, 1, 2, 3, 6, 17}));
    w.allocs.push_back(a);
    const DataItem e = r.Of(w.ents);
    const int how = r.Below(3);  // 0 entities, 1 entities that are objects as well, 2 objects
    for (const auto& o : a.objs()) {
      w.objs.push_back(o);
      if (how < 2) w.entity[o] = e;
      if (how == 0 || (how == 1 && r.P(1, 4))) continue;
      DataItem os = e;
      if (how == 2) {
        os = GET(CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(DataItem(o), sa::kImplicitSchemaSeed));
        w.impl.push_back(os);
      }
      SetData(s.b, o, "__schema__", os);
    }
  }
  for (const auto* ss : {&w.ents, &w.impl})
    for (const auto& e : *ss) for (const auto& n : w.names) if (r.P(1, 2)) SetSchema(s.b, e, n, w.RandSchema());
  const Chain c{{&s.b}};
  for (const auto& o : w.objs) {
    DataItem os;
    if (auto i = w.entity.find(o); i != w.entity.end()) os = i->second;
    else os = s.b.data[o]["__schema__"];
    for (const auto& n : c.Names(os)) if (r.P(3, 4)) SetData(s.b, o, n, w.ValuesOf(c.Schema(os, n), 1, s.b, 10)[0]);
  }
}
std::string KeyOf(const DataItem& k) {
  if (const auto i = IntOf(k)) return absl::StrCat(*i);
  return drv::Str(k);
}
DataItem ListSchema(const DataItem& item) {
  static std::map<std::pair<std::string, ObjectId>, DataItem> all;
  const DataItem s = GET(DataBagImpl::CreateEmptyDatabag()->CreateListSchema(item));
  const bool obj = item.holds_value<ObjectId>();
  const auto [it, is_new] = all.emplace(std::pair(obj ? std::string() : drv::Str(item), obj ? item.value<ObjectId>() : ObjectId()), s);
  REQUIRE(Same(it->second, s), "the list schema of ", drv::Str(item), " is another one now");
  return s;
}
DataItem DictSchema(const DataItem& k, const DataItem& v) { return GET(DataBagImpl::CreateEmptyDatabag()->CreateDictSchema(k, v)); }
// Lists and dicts beside what there is.
void FillCollections(Source& s) {
  World& w = s.w;
  Rng& r = w.r;
  for (int i = r.In(1, 4); i > 0; --i) {
    const bool dict = r.P(1, 3);
    const DataItem e = w.RandSchema(), k = r.P(1, 5) ? r.Of(w.ents) : Dt(r.Of({schema::kString, schema::kInt32, schema::kInt64}));
    const DataItem cs = dict ? DictSchema(k, e) : ListSchema(e);
    if (dict) { SetSchema(s.b, cs, "__keys__", k); SetSchema(s.b, cs, "__values__", e); }
    else SetSchema(s.b, cs, "__items__", e);
    const Alloc a = MakeAlloc(r, dict ? 'd' : 'l', r.Of<int64_t>({1, 2, 3, 6}));
    const bool objects = r.P(1, 2);
    for (const auto& o : a.objs()) {
      if (r.P(1, 5)) continue;
      for (int64_t n = r.In(0, 4); n > 0; --n) {
        const DataItem x = w.ValuesOf(e, 1, s.b, 10)[0];
        if (!dict) { REQUIRE_OK(Mut(s.b.db).AppendToList(DataItem(o), x)); s.b.lists[o].push_back(x); continue; }
        const DataItem y = w.ValuesOf(k, 1, s.b, 0)[0];
        if (!y.has_value() || !x.has_value()) continue;
        REQUIRE_OK(Mut(s.b.db).SetInDict(DataItem(o), y, x));
        const auto [it, is_new] = s.b.dicts[o].emplace(KeyOf(y), std::pair(y, x));
        if (!is_new) it->second.second = x;
      }
      w.objs.push_back(o);
      w.entity[o] = cs;
      if (objects) SetData(s.b, o, "__schema__", cs);
    }
    w.ents.push_back(cs);
  }
}
void CheckCollections(const World& l, const Bag& b, const char* when) {
  for (const auto& o : l.objs) {
    if (o.IsList()) {
      const Values got = drv::Items(GET(b.db->GetImpl().ExplodeList(DataItem(o)))), &want = ListOf(Chain{{&b}}, DataItem(o));
      REQUIRE(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin(), [](const auto& x, const auto& y) { return Same(x, y); }), when, ": list ", drv::Str(DataItem(o)), " is ", drv::Str(got), ", not ", drv::Str(want));
    }
    if (!o.IsDict()) continue;
    const Values k = drv::Items(GET(b.db->GetImpl().GetDictKeys(DataItem(o))).first), v = drv::Items(GET(b.db->GetImpl().GetDictValues(DataItem(o))).first);
    REQUIRE(k.size() == v.size());
    std::map<std::string, std::string> got, want;
    for (size_t i = 0; i < k.size(); ++i) if (v[i].has_value()) REQUIRE(got.emplace(KeyOf(k[i]), drv::Str(v[i])).second, "key ", drv::Str(k[i]), " comes twice");
    if (auto i = b.dicts.find(o); i != b.dicts.end()) for (const auto& [kk, kv] : i->second) if (kv.second.has_value()) want.emplace(kk, drv::Str(kv.second));
    if (got != want) {
      std::string g, m;
      for (const auto& [a, c] : got) absl::StrAppend(&g, a, ": ", c, ", ");
      for (const auto& [a, c] : want) absl::StrAppend(&m, a, ": ", c, ", ");
      drv::Fail(absl::StrCat(when, ": dict ", drv::Str(DataItem(o)), " is {", g, "}, not {", m, "}"));
    }
  }
}
// Takes over into `d` all that can be reached; false: that contradicts it.
struct Adoption {
  Bag& d;
  const Chain& c;
  std::set<ObjectId> seen;
  bool Put(std::map<std::string, DataItem>& m, const std::string& n, const DataItem& v) {
    const auto [it, is_new] = m.emplace(n, v);
    return is_new || Same(it->second, v);
  }
  bool Schema(const DataItem& s) {
    if (!s.holds_value<ObjectId>() || !seen.insert(s.value<ObjectId>()).second) return true;
    for (const auto& n : c.Names(s)) {
      const DataItem t = c.Schema(s, n);
      if (!Put(d.schema[s.value<ObjectId>()], n, t) || !Schema(t)) return false;
    }
    return true;
  }
  bool Value(const DataItem& x, const DataItem& s) {
    if (!x.has_value()) return true;
    if (IsDt(s, schema::kSchema)) return Schema(x);
    if (!x.holds_value<ObjectId>() || IsDt(s, schema::kItemId)) return true;
    DataItem os = s;
    const ObjectId o = x.value<ObjectId>();
    if (IsObjectSchema(s)) {
      REQUIRE(ObjSchemaOf(c, x, os), "an object of no schema");
      if (!Put(d.data[o], "__schema__", os)) return false;
    }
    if (!os.holds_value<ObjectId>()) return true;
    if (!Schema(os)) return false;
    if (!seen.insert(o).second) return true;
    if (const Values& l = ListOf(c, x); !l.empty()) {
      const auto [it, is_new] = d.lists.emplace(o, l);
      if (!is_new && (it->second.size() != l.size() || !std::equal(l.begin(), l.end(), it->second.begin(), [](const auto& a, const auto& b) { return Same(a, b); }))) return false;
      for (const auto& y : l) if (!Value(y, c.Schema(os, "__items__"))) return false;
    }
    std::set<std::string> had;
    for (const Bag* b : c.bags) {
      if (auto i = b->dicts.find(o); i != b->dicts.end()) {
        for (const auto& [k, kv] : i->second) {
          if (!had.insert(k).second || !kv.second.has_value()) continue;
          const auto [it, is_new] = d.dicts[o].emplace(k, kv);
          if (!is_new && !Same(it->second.second, kv.second)) return false;
          if (!Value(kv.first, c.Schema(os, "__keys__")) || !Value(kv.second, c.Schema(os, "__values__"))) return false;
        }
      }
    }
    for (const auto& n : c.Names(os)) {
      const DataItem v = c.Data(o, n);
      if (!v.has_value()) continue;
      if (!Put(d.data[o], n, v) || !Value(v, c.Schema(os, n))) return false;
    }
    return true;
  }
};
bool Adopt(Bag& d, const Chain& c, const Values& v, const DataItem& s) {
  Adoption a{d, c, {}};
  if (!a.Schema(s)) return false;
  for (const auto& x : v) if (!a.Value(x, s)) return false;
  return true;
}

// Values with the bag they come from.
struct Arg {
  Values v;
  Dims d;
  DataItem schema;
  const Source* from = nullptr;  // none: without a bag
  DataSlice In() const { return Make(v, d, schema, from ? from->b.db : nullptr); }
  std::string Str() const { return absl::StrCat(Str3(v, d, schema), from ? "" : " without a bag"); }
};
// What factories make things in.
struct Target : Source {
  using Source::Source;
  std::map<std::string, DataItem> uu_schemas;
};
bool IsCollection(const Bag& b, const DataItem& s) {
  const Chain c{{&b}};
  return c.Schema(s, "__items__").has_value() || c.Schema(s, "__keys__").has_value();
}
World Union(const std::vector<Source*>& s, const World& own) {
  World u(own.r);
  for (const World* w : [&] { std::vector<const World*> x{&own}; for (auto* y : s) x.push_back(&y->w); return x; }()) {
    u.objs.insert(u.objs.end(), w->objs.begin(), w->objs.end());
    u.ents.insert(u.ents.end(), w->ents.begin(), w->ents.end());
    u.impl.insert(u.impl.end(), w->impl.begin(), w->impl.end());
  }
  return u;
}
Arg RandArg(Rng& r, const std::vector<Source*>& sources, Target& t, const Dims& base, const DataItem& hint) {
  Arg a;
  a.d = base;
  if (r.P(1, 3)) a.d.resize(r.Below(base.size() + 1));
  if (r.P(1, 40)) a.d = RandDims(r, r.In(0, 2), 3);
  const int k = r.Below(sources.size() + 2);
  Source* s = k < static_cast<int>(sources.size()) ? sources[k] : &t;
  if (s->w.objs.empty() || s->w.ents.empty()) s = sources[0];
  a.schema = hint.has_value() ? hint : s->w.RandSchema();
  if (a.schema.holds_value<ObjectId>() && std::none_of(s->w.ents.begin(), s->w.ents.end(), [&](const auto& e) { return Same(e, a.schema); }))
    for (Source* x : sources) for (const auto& e : x->w.ents) if (Same(e, a.schema)) s = x;
  a.v = s->w.ValuesOf(a.schema, DimsSize(a.d), s->b, r.Of({0, 0, 20, 100}));
  a.from = r.P(1, 6) ? nullptr : s;
  return a;
}
std::set<ObjectId>& Everything() { static std::set<ObjectId> s; return s; }

// The ids a factory uses; unset: it has to refuse.
std::optional<Values> UseIds(const Arg& id, const Dims& d, const Values* mask) {
  if (!IsDt(id.schema, schema::kItemId) || id.d != d) return std::nullopt;
  size_t need = id.v.size(), have = 0, used = 0;
  if (mask) need = std::count_if(mask->begin(), mask->end(), [](const auto& x) { return x.has_value(); });
  Values out;
  std::set<ObjectId> seen;
  bool dup = false;
  for (size_t i = 0; i < id.v.size(); ++i) {
    have += id.v[i].has_value();
    out.push_back(!mask || (*mask)[i].has_value() ? id.v[i] : DataItem());
    used += out.back().has_value();
    if (out.back().has_value()) dup |= !seen.insert(out.back().value<ObjectId>()).second;
  }
  if (have < need || used != need || dup) return std::nullopt;
  return out;
}
// That ids are new, one for each place where there is one.
void CheckNew(const Values& v, const Values* mask, bool (ObjectId::*kind)() const) {
  for (size_t i = 0; i < v.size(); ++i) {
    REQUIRE(v[i].has_value() == (!mask || (*mask)[i].has_value()), "item ", i, " of ", drv::Str(v));
    if (!v[i].has_value()) continue;
    REQUIRE(v[i].holds_value<ObjectId>(), "not an object: ", drv::Str(v[i]));
    const ObjectId o = v[i].value<ObjectId>();
    REQUIRE(!o.IsUuid() && (o.*kind)(), "an id of another kind: ", drv::Str(v[i]));
    REQUIRE(Everything().insert(o).second, "the id ", drv::Str(v[i]), " is not new");
  }
}
}  // namespace

CASE(entities) {
  std::vector<Source> src;
  for (int i = r.In(1, 2); i > 0; --i) { src.emplace_back(r); Fill(src.back()); if (r.P(1, 2)) FillCollections(src.back()); }
  std::vector<Source*> sources;
  for (auto& s : src) {
    sources.push_back(&s);
    if (r.P(1, 2)) s.b.db = s.b.db->Freeze();
    for (const auto& o : s.w.objs) Everything().insert(o);
  }
  std::vector<Target> ts;
  ts.emplace_back(r);
  std::map<std::string, DataItem> uu_schemas;
  const int steps = r.In(3, 14);
  for (int step = 0; step < steps; ++step) {
    if (ts.size() < 3 && r.P(1, 10)) {
      Target n = r.Of(ts);
      n.b.db = GET(n.b.db->Fork());
      ts.push_back(n);
      Log(absl::StrCat("fork ", ts.size() - 1));
    }
    const size_t ti = r.Below(ts.size());
    Target& t = ts[ti];
    const Dims base = RandDims(r, r.Of({0, 0, 1, 1, 2}), 4);
    const int op = r.Below(12);
    // 0 from attributes, 1 of a shape, 2 like another slice, 3 by content
    const int how = op < 3 ? 0 : op < 6 ? 1 : op < 9 ? 2 : 3;
    const bool object = r.P(1, 2);
    std::optional<Arg> schema_arg;
    if (!object && r.P(1, 2)) {
      schema_arg.emplace();
      schema_arg->from = r.P(1, 2) && !t.w.ents.empty() ? static_cast<Source*>(&t) : sources[r.Below(sources.size())];
      schema_arg->schema = Dt(schema::kSchema);
      Values can;
      for (const auto& e : schema_arg->from->w.ents) if (!IsCollection(schema_arg->from->b, e)) can.push_back(e);
      if (can.empty()) { schema_arg.reset(); } else
      schema_arg->v = {r.P(1, 20) ? Dt(r.Of({schema::kInt32, schema::kObject})) : r.Of(can)};
    }
    const DataItem given = schema_arg ? schema_arg->v[0] : DataItem();
    std::vector<std::string> names;
    std::vector<Arg> args;
    for (const auto& n : t.w.names) {
      if (r.P(2, 5)) continue;
      names.push_back(n);
      DataItem hint;
      if (given.holds_value<ObjectId>() && r.P(2, 3)) hint = Chain{{&schema_arg->from->b}}.Schema(given, n);
      args.push_back(RandArg(r, sources, t, base, hint));
    }
    for (size_t i = names.size(); i > 1; --i) { const size_t k = r.Below(i); std::swap(names[k], names[i - 1]); std::swap(args[k], args[i - 1]); }
    const bool overwrite = !object && r.P(1, 4);
    std::optional<Arg> mask;
    if (how == 2) { mask = RandArg(r, sources, t, base, DataItem()); mask->d = base; mask->v = mask->from ? mask->from->w.ValuesOf(mask->schema, DimsSize(base), mask->from->b, 30) : t.w.ValuesOf(Dt(schema::kInt32), DimsSize(base), t.b, 30); if (!mask->from) mask->schema = Dt(schema::kInt32); }
    std::optional<Arg> ids;
    if (how != 3 && r.P(1, 4)) {
      ids.emplace();
      ids->d = r.P(1, 20) ? RandDims(r, r.In(0, 2), 3) : base;
      ids->schema = r.P(1, 20) ? Dt(schema::kObject) : Dt(schema::kItemId);
      std::vector<ObjectId> pool;
      for (int i = r.In(0, 3); i > 0; --i) for (const auto& o : MakeAlloc(r, 'e', r.Of<int64_t>({1, 4})).objs()) pool.push_back(o);
      for (const auto& o : t.w.objs) if (r.P(1, 2)) pool.push_back(o);
      for (size_t i = pool.size(); i > 1; --i) std::swap(pool[i - 1], pool[r.Below(i)]);
      for (size_t i = 0, n = DimsSize(ids->d); i < n; ++i) ids->v.push_back(i < pool.size() ? DataItem(pool[r.P(1, 50) ? r.Below(i + 1) : i]) : DataItem());
      if (mask) for (size_t i = 0; i < ids->v.size() && i < mask->v.size(); ++i) if (!mask->v[i].has_value() && r.P(1, 2)) ids->v[i] = DataItem();
    }
    const std::string seed = r.Of<std::string>({"", "s"});
    static const char* const kHow[] = {"from attributes", "of a shape", "like a slice", "by content"};
    std::string log = absl::StrCat("bag ", ti, ": ", object ? "objects " : "entities ", kHow[how], overwrite ? ", overwriting" : "", seed);
    for (size_t i = 0; i < names.size(); ++i) absl::StrAppend(&log, " ", names[i], "=", args[i].Str());
    if (schema_arg) absl::StrAppend(&log, " schema ", drv::Str(given));
    if (mask) absl::StrAppend(&log, " like ", mask->Str()); else if (how == 1) absl::StrAppend(&log, " shape ", Str3({}, base, DataItem()));
    if (ids) absl::StrAppend(&log, " ids ", ids->Str());
    Log(log);
    Distinct(Hash(log));

    // What is to come of it.
    Target m = t;
    bool ok = true;
    Dims d = base;
    if (how == 0 && ids) d = ids->d;
    else if (how == 0 || how == 3) { d.clear(); for (const auto& a : args) if (a.d.size() > d.size()) d = a.d; }
    for (const auto& a : args) ok &= IsPrefix(a.d, d);
    DataItem schema = given;
    if (schema_arg) {
      ok &= schema.holds_value<ObjectId>();
      if (ok && schema_arg->from != &t) ok = Adopt(m.b, Chain{{&schema_arg->from->b}}, schema_arg->v, Dt(schema::kSchema));
    }
    const size_t n = DimsSize(d);
    std::vector<Values> vals;
    std::optional<Values> use;
    if (ok) {
      for (const auto& a : args) vals.push_back(Spread(a.v, a.d, d));
      if (ids) { use = UseIds(*ids, d, mask ? &mask->v : nullptr); ok = use.has_value(); }
    }
    if (how == 0 && schema_arg && !ids && !n) continue;  // whether values that are nowhere are cast is not said
    // New ones stand in until it is known which they are.
    Values objs;
    if (ok && how == 3) {
      for (size_t i = 0; i < n; ++i) {
        std::vector<absl::string_view> ns(names.begin(), names.end());
        std::vector<std::reference_wrapper<const DataItem>> vs;
        for (const auto& v : vals) vs.push_back(std::cref(v[i]));
        objs.push_back(CreateUuidFromFields(seed, ns, vs));
      }
    } else if (ok && use) objs = *use;
    else if (ok) for (size_t i = 0; i < n; ++i) objs.push_back(mask && !mask->v[i].has_value() ? DataItem() : DataItem(AllocateSingleObject()));
    const DataItem stand_in(MakeAlloc(r, 's', 1).id.ObjectByOffset(0));
    Values impl(objs.size());
    if (ok && !object && !schema.has_value()) {
      schema = stand_in;
      for (size_t i = 0; i < names.size(); ++i) m.b.schema[schema.value<ObjectId>()][names[i]] = args[i].schema;
    }
    if (ok && object) {
      schema = Dt(schema::kObject);
      for (size_t i = 0; i < objs.size(); ++i) {
        if (!objs[i].has_value()) continue;
        impl[i] = GET(CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(objs[i], sa::kImplicitSchemaSeed));
        m.b.data[objs[i].value<ObjectId>()]["__schema__"] = impl[i];
      }
    }
    for (size_t i = 0; i < names.size() && ok; ++i) {
      const Chain vc{{args[i].from == &t ? &m.b : args[i].from ? &args[i].from->b : nullptr}};
      ok = ModelSet(m.b, objs, schema, names[i], vals[i], args[i].schema, args[i].from ? &vc : nullptr, overwrite);
    }
    for (size_t i = 0; i < names.size() && ok; ++i) if (args[i].from && args[i].from != &t) ok = Adopt(m.b, Chain{{&args[i].from->b}}, args[i].v, args[i].schema);

    // What comes of it; errors may leave traces.
    DataBagPtr db = ok ? t.b.db : GET(t.b.db->Fork());
    const DataBagPtr keep = t.b.db;
    t.b.db = db;
    std::vector<DataSlice> vs;
    for (const auto& a : args) vs.push_back(a.In());
    std::vector<absl::string_view> ns(names.begin(), names.end());
    std::optional<DataSlice> ss, is;
    if (schema_arg) ss = schema_arg->In();
    if (ids) is = ids->In();
    absl::StatusOr<DataSlice> got =
        how == 0 ? (object ? koladata::ObjectCreator::FromAttrs(db, ns, vs, is) : koladata::EntityCreator::FromAttrs(db, ns, vs, ss, overwrite, is))
      : how == 1 ? (object ? koladata::ObjectCreator::Shaped(db, ShapeOf(base), ns, vs, is) : koladata::EntityCreator::Shaped(db, ShapeOf(base), ns, vs, ss, overwrite, is))
      : how == 2 ? (object ? koladata::ObjectCreator::Like(db, mask->In(), ns, vs, is) : koladata::EntityCreator::Like(db, mask->In(), ns, vs, ss, overwrite, is))
      : object ? koladata::CreateUuObject(db, seed, ns, vs) : koladata::CreateUu(db, seed, ns, vs, ss, overwrite);
    t.b.db = keep;
    REQUIRE(got.ok() == ok, got.ok() ? "made what cannot be made" : std::string(got.status().message()));
    if (!ok) { Count("refused"); CheckAll(Union(sources, t.w), t.b, "after an error in a fork"); continue; }
    Count(how == 3 ? "by_content" : object ? "objects" : "entities");
    REQUIRE(got->GetBag() == db, "in another bag");
    REQUIRE(DimsOf(got->GetShape()) == d, "the shape");
    if (!got->is_item()) CheckSlice(got->slice(), "made", __LINE__);
    const Values real = Items2(*got);
    if (use || how == 3) for (size_t i = 0; i < n; ++i) REQUIRE(Same(real[i], objs[i]), "id ", i, " is ", drv::Str(real[i]), ", not ", drv::Str(objs[i]));
    else CheckNew(real, mask ? &mask->v : nullptr, &ObjectId::IsEntity);
    const DataItem rs = got->GetSchemaImpl();
    if (Same(schema, stand_in)) {
      REQUIRE(rs.holds_value<ObjectId>() && rs.value<ObjectId>().IsSchema(), "the schema is ", drv::Str(rs));
      if (how == 3) {
        std::map<std::string, std::string> fields;
        for (size_t i = 0; i < names.size(); ++i) fields[names[i]] = drv::Str(args[i].schema);
        std::string k = seed;
        for (const auto& [a, b] : fields) absl::StrAppend(&k, "|", a, "=", b);
        const auto [it, is_new] = uu_schemas.emplace(k, rs);
        REQUIRE(Same(it->second, rs), "the same fields give another schema");
        for (const auto& [k2, s2] : uu_schemas) REQUIRE(k2 == k || !Same(s2, rs), "other fields give the same schema");
      } else REQUIRE(rs.value<ObjectId>().IsExplicitSchema() && Everything().insert(rs.value<ObjectId>()).second, "the schema is not new");
    } else REQUIRE(Same(rs, schema), "the schema is ", drv::Str(rs));
    // The real ids for those that stood in.
    std::map<ObjectId, ObjectId> to;
    const auto fresh = [&](const DataItem& a, const DataItem& b) { if (a.has_value() && !Same(a, b)) to[a.value<ObjectId>()] = b.value<ObjectId>(); };
    for (size_t i = 0; i < n; ++i) fresh(objs[i], real[i]);
    if (Same(schema, stand_in)) fresh(schema, rs);
    for (size_t i = 0; i < n; ++i)
      if (impl[i].has_value()) fresh(impl[i], GET(CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(real[i], sa::kImplicitSchemaSeed)));
    for (const auto& [a, b] : to) {
      if (auto x = m.b.data.extract(a)) { for (auto& [_, v] : x.mapped()) if (v.holds_value<ObjectId>() && to.count(v.value<ObjectId>())) v = DataItem(to.at(v.value<ObjectId>())); m.b.data[b] = x.mapped(); }
      if (auto x = m.b.schema.extract(a)) { for (auto& [k, v] : x.mapped()) m.b.schema[b][k] = v; }
    }
    for (size_t i = 0; i < n; ++i) {
      if (!real[i].has_value()) continue;
      const ObjectId o = real[i].value<ObjectId>();
      if (std::find(m.w.objs.begin(), m.w.objs.end(), o) == m.w.objs.end()) m.w.objs.push_back(o);
      if (object) { m.w.entity.erase(o); m.w.impl.push_back(m.b.data[o]["__schema__"]); }
      else m.w.entity[o] = rs;
    }
    if (Same(schema, stand_in)) m.w.ents.push_back(rs);
    t = m;
    for (size_t i = 0; i < names.size(); ++i) ExpectAnswer("get", got->GetAttr(names[i]), ModelGet(Chain{{&t.b}}, real, rs, names[i], false), d);
    const World u = Union(sources, t.w);
    CheckAll(u, t.b, "after making");
    CheckCollections(u, t.b, "after making");
  }
  for (auto& s : src) CheckAll(s.w, s.b, "source at the end"), CheckCollections(s.w, s.b, "source at the end");
  for (auto& t : ts) CheckAll(Union(sources, t.w), t.b, "at the end");
}

CASE(collections) {
  std::vector<Source> src;
  for (int i = r.In(1, 2); i > 0; --i) { src.emplace_back(r); Fill(src.back()); FillCollections(src.back()); }
  std::vector<Source*> sources;
  for (auto& s : src) {
    sources.push_back(&s);
    if (r.P(1, 2)) s.b.db = s.b.db->Freeze();
    for (const auto& o : s.w.objs) Everything().insert(o);
  }
  std::vector<Target> ts;
  ts.emplace_back(r);
  const int steps = r.In(3, 12);
  for (int step = 0; step < steps; ++step) {
    if (ts.size() < 3 && r.P(1, 10)) {
      Target n = r.Of(ts);
      n.b.db = GET(n.b.db->Fork());
      ts.push_back(n);
      Log(absl::StrCat("fork ", ts.size() - 1));
    }
    const size_t ti = r.Below(ts.size());
    Target& t = ts[ti];
    // 0 shaped, 1 like, 2 from the last dimension, 3 nested, 4 implode, 5 concat, 6 dicts shaped, 7 dicts like, 8 empty
    const int op = r.Of({0, 0, 1, 1, 2, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8});
    const bool dict = op == 6 || op == 7, like = op == 1 || op == 7, deep = op == 3 || op == 4;
    Dims base = RandDims(r, r.Of({0, 0, 1, 1, 2}), 3);
    Target m = t;
    bool ok = true;
    const auto collection_schema = [&](bool dict) {  // one that exists already
      std::vector<std::pair<Source*, DataItem>> can;
      for (Source* s : [&] { auto x = sources; x.push_back(&t); return x; }())
        for (const auto& e : s->w.ents) if (Chain{{&s->b}}.Schema(e, dict ? "__keys__" : "__items__").has_value()) can.emplace_back(s, e);
      std::optional<Arg> a;
      if (can.empty()) return a;
      a.emplace();
      const auto& [s, e] = r.Of(can);
      a->from = s;
      a->schema = Dt(schema::kSchema);
      a->v = {e};
      return a;
    };
    const auto some_schema = [&](bool key) {
      Arg a;
      Source* s = r.P(1, 4) && !t.w.ents.empty() ? static_cast<Source*>(&t) : sources[r.Below(sources.size())];
      a.from = s;
      a.schema = Dt(schema::kSchema);
      a.v = {key ? (r.P(1, 5) ? r.Of(s->w.ents) : Dt(r.Of({schema::kString, schema::kInt32, schema::kInt64, schema::kObject}))) : s->w.RandSchema()};
      if (r.P(1, 40)) { a.v = {DataItem(1)}; a.schema = Dt(schema::kInt32); }
      return a;
    };
    const auto chain = [&](const Arg& a) { return Chain{{a.from == &t ? &m.b : &a.from->b}}; };
    const auto own = [&](const Arg& a) { return !a.from || a.from == &t; };
    const auto get_schema = [&](const Arg& a, const char* n) { return Chain{{&a.from->b}}.Schema(a.v[0], n); };
    const auto rand_ids = [&](const Dims& d, const Values* mask, bool good) {
      Arg ids;
      ids.d = r.P(1, 20) ? RandDims(r, r.In(0, 2), 3) : d;
      ids.schema = r.P(1, 20) ? Dt(schema::kObject) : Dt(schema::kItemId);
      const char kind = r.P(1, 20) ? 'e' : dict ? 'd' : 'l';
      std::vector<ObjectId> pool;
      for (int i = r.In(1, 4); i > 0; --i) for (const auto& o : MakeAlloc(r, kind, r.Of<int64_t>({1, 4})).objs()) pool.push_back(o);
      if (good) for (const auto& o : t.w.objs) if (dict ? o.IsDict() : o.IsList()) if (r.P(1, 2)) pool.push_back(o);
      for (size_t i = pool.size(); i > 1; --i) std::swap(pool[i - 1], pool[r.Below(i)]);
      for (size_t i = 0, n = DimsSize(ids.d); i < n; ++i) ids.v.push_back(i < pool.size() ? DataItem(pool[r.P(1, 50) ? r.Below(i + 1) : i]) : DataItem());
      if (mask) for (size_t i = 0; i < ids.v.size() && i < mask->size(); ++i) if (!(*mask)[i].has_value() && r.P(1, 2)) ids.v[i] = DataItem();
      return ids;
    };

    if (op == 5) {  // concatenation
      std::vector<Arg> in;
      for (int i = r.In(0, 3); i > 0; --i) {
        Arg a;
        std::vector<std::pair<Source*, DataItem>> can;
        for (Source* s : [&] { auto x = sources; x.push_back(&t); return x; }())
          for (const auto& e : s->w.ents) if (r.P(1, 30) || Chain{{&s->b}}.Schema(e, "__items__").has_value()) can.emplace_back(s, e);
        if (can.empty()) continue;
        const auto& [s, e] = r.Of(can);
        a.from = s;
        a.schema = e;
        a.d = base;
        if (r.P(1, 3)) a.d.resize(r.Below(base.size() + 1));
        if (r.P(1, 30)) a.d = RandDims(r, r.In(0, 2), 3);
        a.v = s->w.ValuesOf(e, DimsSize(a.d), s->b, r.Of({0, 20}));
        in.push_back(a);
      }
      std::string log = absl::StrCat("bag ", ti, ": concatenate");
      for (const auto& a : in) absl::StrAppend(&log, " ", a.Str());
      Log(log);
      Distinct(Hash(log));
      Dims d;
      for (const auto& a : in) if (a.d.size() > d.size()) d = a.d;
      Values js;
      for (const auto& a : in) {
        ok &= IsPrefix(a.d, d);
        const DataItem e = Chain{{&a.from->b}}.Schema(a.schema, "__items__");
        if (!e.has_value()) ok = false;
        js.push_back(e);
      }
      std::optional<DataItem> j;
      if (ok) { j = Join(js); ok = j.has_value(); }
      if (ok && in.empty()) j = Dt(schema::kObject);
      std::vector<Values> out;
      if (ok) {
        out.resize(DimsSize(d));
        for (size_t k = 0; k < in.size() && ok; ++k) {
          const Chain c = chain(in[k]);
          const Values sp = Spread(in[k].v, in[k].d, d);
          Values items;
          for (const auto& x : sp) for (const auto& y : ListOf(c, x)) items.push_back(Convert(y, *j));
          if (!own(in[k])) ok = Adopt(m.b, c, items, *j);
          for (size_t i = 0; i < out.size(); ++i) for (const auto& y : ListOf(c, sp[i])) out[i].push_back(Convert(y, *j));
        }
      }
      const DataBagPtr keep = t.b.db, db = ok ? keep : GET(keep->Fork());
      t.b.db = db;
      std::vector<DataSlice> args;
      for (const auto& a : in) args.push_back(a.In());
      const auto got = koladata::ConcatLists(db, args);
      t.b.db = keep;
      REQUIRE(got.ok() == ok, got.ok() ? "made what cannot be made" : std::string(got.status().message()));
      if (!ok) { Count("refused"); continue; }
      Count("concatenated");
      const DataItem ls = ListSchema(*j);
      REQUIRE(got->GetBag() == db && DimsOf(got->GetShape()) == d, "shape or bag");
      REQUIRE(Same(got->GetSchemaImpl(), ls), "the schema of lists of ", drv::Str(*j), " is ", drv::Str(got->GetSchemaImpl()));
      const Values real = Items2(*got);
      CheckNew(real, nullptr, &ObjectId::IsList);
      m.b.schema[ls.value<ObjectId>()]["__items__"] = *j;
      m.w.ents.push_back(ls);
      for (size_t i = 0; i < real.size(); ++i) { const ObjectId o = real[i].value<ObjectId>(); m.b.lists[o] = out[i]; m.w.objs.push_back(o); m.w.entity[o] = ls; }
      t = m;
      const World u = Union(sources, t.w);
      CheckAll(u, t.b, "after concatenating");
      CheckCollections(u, t.b, "after concatenating");
      continue;
    }

    // Schemas that are given.
    std::optional<Arg> whole, part, part2;
    if (r.P(1, 4)) whole = collection_schema(dict != r.P(1, 20));
    if (op == 4) whole.reset();
    if (op != 4 && r.P(1, whole ? 20 : 4)) part = some_schema(dict);
    if (dict && r.P(1, whole ? 20 : 4)) part2 = some_schema(false);
    if (deep && whole) whole.reset();
    const char* const items = dict ? "__values__" : "__items__";
    DataItem hint;
    if (whole && r.P(3, 4)) hint = get_schema(*whole, items);
    else if (part && !dict && r.P(3, 4) && IsDt(part->schema, schema::kSchema)) hint = part->v[0];
    else if (part2 && r.P(3, 4) && IsDt(part2->schema, schema::kSchema)) hint = part2->v[0];
    std::optional<Arg> mask, keys, vals, ids;
    if (like) {
      mask.emplace();
      mask->d = base;
      mask->schema = Dt(schema::kInt32);
      mask->v = t.w.ValuesOf(mask->schema, DimsSize(base), t.b, r.Of({0, 30, 100}));
    }
    const Values* mv = mask ? &mask->v : nullptr;
    if (dict) {
      if (!r.P(1, 5)) {
        DataItem kh = whole ? get_schema(*whole, "__keys__") : part ? part->v[0] : DataItem();
        if (!kh.has_value() || r.P(1, 4) || kh.holds_value<int>()) kh = Dt(r.Of({schema::kString, schema::kInt32, schema::kInt64, schema::kObject, schema::kString}));
        keys = RandArg(r, sources, t, Beside(r, base, 1), kh);
        for (auto& x : keys->v) if (IntOf(x)) x = x.holds_value<int32_t>() ? DataItem(static_cast<int32_t>(r.In(0, 3))) : DataItem(r.In(0, 3));
      }
      if (r.P(1, 25) || keys) vals = RandArg(r, sources, t, keys ? (keys->d.size() > base.size() ? keys->d : base) : base, hint);
      if (keys && r.P(1, 30)) vals.reset();
    } else if (op == 8) {
    } else if (op == 2 || deep) {
      vals = RandArg(r, sources, t, RandDims(r, r.Of({1, 1, 2, 3, 0}), 3), hint);
    } else if (!r.P(1, 5)) vals = RandArg(r, sources, t, Beside(r, base, 1), hint);
    int ndim = 1;
    if (op == 3) ndim = vals->d.size();
    if (op == 4) ndim = r.In(-1, 3);
    const int given_ndim = ndim;
    if (ndim < 0) ndim = vals->d.size();
    Dims d = base;
    if (op == 8) d.clear();
    if (op == 2 || deep) { d = vals->d; if (static_cast<int>(d.size()) < ndim || (op != 4 && d.empty())) ok = false; else d.resize(d.size() - ndim); }
    if (r.P(1, 4)) ids = rand_ids(op == 8 && r.P(1, 2) ? base : d, mv, ok);
    if (op == 8 && ids) d = ids->d;
    static const char* const kOps[] = {"lists of a shape", "lists like", "lists of the last dimension", "nested lists", "implode", "", "dicts of a shape", "dicts like", "empty list"};
    std::string log = absl::StrCat("bag ", ti, ": ", kOps[op], deep ? absl::StrCat(" ", given_ndim) : "", op < 2 || dict ? Str3(mask ? mask->v : Values{}, base, DataItem()) : "");
    if (keys) absl::StrAppend(&log, " keys ", keys->Str());
    if (vals) absl::StrAppend(&log, " values ", vals->Str());
    if (whole) absl::StrAppend(&log, " schema ", drv::Str(whole->v[0]));
    if (part) absl::StrAppend(&log, " item schema ", drv::Str(part->v[0]));
    if (part2) absl::StrAppend(&log, " value schema ", drv::Str(part2->v[0]));
    if (ids) absl::StrAppend(&log, " ids ", ids->Str());
    Log(log);
    Distinct(Hash(log));

    // What is to come of it.
    DataItem cs, es, ks;  // of the collection, its values and keys
    const auto schema_item = [&](const Arg& a) { return IsDt(a.schema, schema::kSchema) && (a.v[0].holds_value<ObjectId>() || a.v[0].holds_value<schema::DType>()); };
    if (whole) {
      if (part || part2 || !get_schema(*whole, dict ? "__keys__" : "__items__").has_value()) ok = false;
      else { cs = whole->v[0]; es = get_schema(*whole, items); ks = get_schema(*whole, "__keys__"); }
    } else {
      const std::optional<Arg>& e = dict ? part2 : part;
      if (e && !schema_item(*e)) ok = false;
      else es = e ? e->v[0] : vals ? vals->schema : Dt(schema::kObject);
      if (dict) {
        if (part && !schema_item(*part)) ok = false;
        else ks = part ? part->v[0] : keys ? keys->schema : Dt(schema::kObject);
        if (Num(ks) > 1) ok = false;
      } else if (op == 3 && part && ok) {  // an item schema of lists counts from outside
        for (int i = 1; i < ndim; ++i) { const DataItem in = Chain{{&part->from->b}}.Schema(es, "__items__"); if (!in.has_value()) break; es = in; }
      }
      if (ok && !(deep && ndim == 0)) cs = dict ? DictSchema(ks, es) : ListSchema(es);
    }
    if (deep && ndim == 0) cs = vals ? vals->schema : DataItem();
    if (keys.has_value() != vals.has_value() && dict) ok = false;
    if (deep && ndim == 0 && ids) ok = false;
    if (ok && !whole && !(deep && ndim == 0)) {
      if (dict) { m.b.schema[cs.value<ObjectId>()]["__keys__"] = ks; m.b.schema[cs.value<ObjectId>()]["__values__"] = es; }
      else m.b.schema[cs.value<ObjectId>()]["__items__"] = es;
    }
    for (const auto* a : {&whole, &part, &part2}) {
      if (!ok || !*a || own(**a)) continue;
      if (op == 3) ok = Adopt(m.b, chain(**a), {es}, Dt(schema::kSchema));
      else ok = Adopt(m.b, chain(**a), (*a)->v, Dt(schema::kSchema));
    }
    std::optional<Values> use;
    if (ok && ids) {
      use = UseIds(*ids, d, mv);
      ok = use.has_value();
      if (ok) for (const auto& x : *use) if (x.has_value() && !(dict ? x.value<ObjectId>().IsDict() : x.value<ObjectId>().IsList())) ok = false;
    }
    // The collections at the bottom, where the values go.
    Pick p;
    p.schema = cs;
    p.d = d;
    if (deep && ndim > 0 && ok) { p.d = vals->d; p.d.pop_back(); }
    const bool learn = !use || (deep && ndim > 1);
    if (ok && !(deep && ndim == 0)) {
      for (size_t i = 0, n = DimsSize(p.d); i < n; ++i) p.v.push_back(!learn ? (*use)[i] : mask && !mask->v[i].has_value() ? DataItem() : DataItem(dict ? AllocateSingleDict() : AllocateSingleList()));
      for (const auto& x : p.v) if (x.has_value()) { const ObjectId o = x.value<ObjectId>(); if (dict) m.b.dicts[o].clear(); else m.b.lists[o].clear(); }
    }
    const auto adopt = [&](const std::optional<Arg>& a) { if (ok && a && !own(*a)) ok = Adopt(m.b, chain(*a), a->v, a->schema); };
    if (ok && vals && !dict && !(deep && ndim == 0)) {
      if (op == 4) adopt(vals);
      const auto td = Together(p.d, vals->d);
      ok &= td.has_value();
      if (ok) {
        const Chain vc{{vals->from == &t || (op == 4) ? &m.b : vals->from ? &vals->from->b : nullptr}};
        const auto v = AsElements(m.b, p, "__items__", Spread(vals->v, vals->d, *td), vals->schema, vals->from || op == 4 ? &vc : nullptr);
        ok = v.has_value();
        if (ok) {
          const auto par = Parents(*td, p.d.size());
          for (size_t i = 0; i < v->size(); ++i) if (p.v[par[i]].has_value()) m.b.lists[p.v[par[i]].value<ObjectId>()].push_back((*v)[i]);
        }
      }
      adopt(vals);
    } else if (ok && dict && keys) {
      const auto td = Together(p.d, keys->d);
      ok = td && IsPrefix(vals->d, *td);
      if (ok) {
        const Chain kc{{keys->from == &t ? &m.b : keys->from ? &keys->from->b : nullptr}}, vc{{vals->from == &t ? &m.b : vals->from ? &vals->from->b : nullptr}};
        const auto k = AsElements(m.b, p, "__keys__", Spread(keys->v, keys->d, *td), keys->schema, keys->from ? &kc : nullptr);
        std::optional<Values> v;
        if (k) v = AsElements(m.b, p, "__values__", Spread(vals->v, vals->d, *td), vals->schema, vals->from ? &vc : nullptr);
        ok = k && v;
        const Values ds = Spread(p.v, p.d, *td);
        bool any = false;
        for (const auto& x : ds) any |= x.has_value();
        if (ok && any) for (const auto& x : *k) ok &= !x.holds_value<float>() && !x.holds_value<double>() && (x.has_value() || !td->empty());
        if (ok)
          for (size_t i = 0; i < ds.size(); ++i) {
            if (!ds[i].has_value() || !(*k)[i].has_value()) continue;
            auto& mm = m.b.dicts[ds[i].value<ObjectId>()];
            const auto [it, is_new] = mm.emplace(KeyOf((*k)[i]), std::pair((*k)[i], (*v)[i]));
            if (!is_new) it->second.second = (*v)[i];
          }
      }
      adopt(keys);
      adopt(vals);
    } else if (deep && ndim == 0) adopt(vals);

    // What comes of it.
    const DataBagPtr keep = t.b.db, db = ok ? keep : GET(keep->Fork());
    t.b.db = db;
    const auto in = [](const std::optional<Arg>& a) { return a ? std::optional<DataSlice>(a->In()) : std::nullopt; };
    const auto K = in(keys), V = in(vals), S = in(whole), P = in(part), P2 = in(part2), I = in(ids), M = in(mask);
    const absl::StatusOr<DataSlice> got =
        op == 0 ? koladata::CreateListShaped(db, ShapeOf(base), V, S, P, I)
      : op == 1 ? koladata::CreateListLike(db, *M, V, S, P, I)
      : op == 2 ? koladata::CreateListsFromLastDimension(db, *V, S, P, I)
      : op == 3 ? koladata::CreateNestedList(db, *V, S, P, I)
      : op == 4 ? koladata::Implode(db, *V, given_ndim, I)
      : op == 6 ? koladata::CreateDictShaped(db, ShapeOf(base), K, V, S, P, P2, I)
      : op == 7 ? koladata::CreateDictLike(db, *M, K, V, S, P, P2, I)
      : koladata::CreateEmptyList(db, S, P, I);
    t.b.db = keep;
    REQUIRE(got.ok() == ok, got.ok() ? "made what cannot be made" : std::string(got.status().message()));
    if (!ok) { Count("refused"); const World u = Union(sources, t.w); CheckAll(u, t.b, "after an error in a fork"); CheckCollections(u, t.b, "after an error in a fork"); continue; }
    Count(kOps[op][0] == 'd' ? "dicts" : deep ? "nested" : "lists");
    REQUIRE(got->GetBag() == db && DimsOf(got->GetShape()) == d, "shape or bag");
    if (!got->is_item()) CheckSlice(got->slice(), "made", __LINE__);
    if (deep && ndim == 0) { ExpectSlice("imploded by nothing", *got, vals->v, vals->schema, d); }
    else {
      // Down through the levels to those at the bottom.
      DataSlice level = *got;
      std::vector<DataItem> schemas{cs};
      if (deep) for (int i = 1; i < ndim; ++i) schemas.push_back(ListSchema(schemas.back()));
      for (int i = deep ? ndim - 1 : 0; i >= 0; --i) {
        const Values real = Items2(level);
        const bool bottom = i == 0, top = i == (deep ? ndim - 1 : 0);
        REQUIRE(Same(level.GetSchemaImpl(), schemas[i]), "the schema is ", drv::Str(level.GetSchemaImpl()), ", not ", drv::Str(schemas[i]));
        if (top && use) { for (size_t k = 0; k < real.size(); ++k) REQUIRE(Same(real[k], (*use)[k]), "id ", k, " is ", drv::Str(real[k]), ", not ", drv::Str((*use)[k])); }
        else if (ids) { for (const auto& x : real) REQUIRE(x.has_value() && x.value<ObjectId>().IsList() && x.value<ObjectId>().IsUuid(), "the id of an inner list"); std::set<ObjectId> u; for (const auto& x : real) REQUIRE(u.insert(x.value<ObjectId>()).second, "inner lists are the same"); }
        else CheckNew(real, mv, dict ? &ObjectId::IsDict : &ObjectId::IsList);
        for (const auto& x : real) {
          if (!x.has_value()) continue;
          const ObjectId o = x.value<ObjectId>();
          if (std::find(m.w.objs.begin(), m.w.objs.end(), o) == m.w.objs.end()) m.w.objs.push_back(o);
          m.w.entity[o] = schemas[i];
          m.b.data[o];
        }
        m.w.ents.push_back(schemas[i]);
        if (bottom) {
          REQUIRE(real.size() == p.v.size(), "the number of lists");
          for (size_t k = 0; k < real.size(); ++k) {
            if (!real[k].has_value() || Same(real[k], p.v[k])) continue;
            if (dict) { auto x = m.b.dicts.extract(p.v[k].value<ObjectId>()); if (x) m.b.dicts[real[k].value<ObjectId>()] = x.mapped(); }
            else { auto x = m.b.lists.extract(p.v[k].value<ObjectId>()); if (x) m.b.lists[real[k].value<ObjectId>()] = x.mapped(); }
          }
        } else {
          m.b.schema[schemas[i].value<ObjectId>()]["__items__"] = schemas[i - 1];
          level = GET(level.ExplodeList(0, std::nullopt));
          Dims ld = vals->d;
          ld.resize(ld.size() - i);
          REQUIRE(DimsOf(level.GetShape()) == ld, "the shape of a level");
          const Values in = Items2(level);
          const auto par = Parents(ld, ld.size() - 1);
          for (const auto& x : real) m.b.lists[x.value<ObjectId>()].clear();
          for (size_t k = 0; k < in.size(); ++k) m.b.lists[real[par[k]].value<ObjectId>()].push_back(in[k]);
        }
      }
    }
    t = m;
    const World u = Union(sources, t.w);
    CheckAll(u, t.b, "after making");
    CheckCollections(u, t.b, "after making");
  }
  for (auto& s : src) CheckAll(s.w, s.b, "source at the end"), CheckCollections(s.w, s.b, "source at the end");
  for (auto& t : ts) { const World u = Union(sources, t.w); CheckAll(u, t.b, "at the end"); CheckCollections(u, t.b, "at the end"); }
}
namespace {
// A bag of a family with what it holds: its own contents and those it falls
// back to.
struct Member {
  DataBagPtr db;
  bool frozen = false;
  bool of_fallbacks = false;
  std::vector<std::shared_ptr<Bag>> layers;  // the first is its own, if it may change
  Chain chain() const { Chain c; for (const auto& l : layers) c.bags.push_back(l.get()); return c; }
};
// Everything there is to read in a bag and those it falls back to.
void CheckMember(const World& w, const Member& m, const char* when) {
  const Chain c = m.chain();
  const koladata::FlattenFallbackFinder f(*m.db);
  const auto fb = f.GetFlattenFallbacks();
  const DataBagImpl& impl = m.db->GetImpl();
  REQUIRE(m.db->IsMutable() == !m.frozen, when, ": it may ", m.frozen ? "" : "not ", "be changed");
  for (const auto& o : w.objs) {
    const DataItem x(o);
    std::vector<std::string> names = w.names;
    names.push_back("__schema__");
    if (!o.IsList() && !o.IsDict()) {
      for (const auto& n : names) {
        const DataItem got = GET(impl.GetAttr(x, n, fb)), want = c.Data(o, n);
        REQUIRE(Same(got, want), when, ": attribute ", n, " of ", drv::Str(x), " is ", drv::Str(got), ", not ", drv::Str(want));
      }
    } else if (o.IsList()) {
      const Values got = drv::Items(GET(impl.ExplodeList(x, DataBagImpl::ListRange(), fb))), &want = ListOf(c, x);
      REQUIRE(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin(), [](const auto& a, const auto& b) { return Same(a, b); }), when, ": list ", drv::Str(x), " is ", drv::Str(got), ", not ", drv::Str(want));
    } else {
      std::map<std::string, std::string> got, want;
      for (const auto& k : drv::Items(GET(impl.GetDictKeys(x, fb)).first)) {
        const DataItem v = GET(impl.GetFromDict(x, k, fb));
        if (v.has_value()) REQUIRE(got.emplace(KeyOf(k), drv::Str(v)).second, "key ", drv::Str(k), " comes twice");
      }
      std::set<std::string> had;
      for (const Bag* b : c.bags) if (auto i = b->dicts.find(o); i != b->dicts.end()) for (const auto& [k, kv] : i->second) if (had.insert(k).second && kv.second.has_value()) want.emplace(k, drv::Str(kv.second));
      REQUIRE(got == want, when, ": dict ", drv::Str(x), " has ", got.size(), " keys, not ", want.size(), ", or others");
    }
  }
  for (const auto* ss : {&w.ents, &w.impl}) {
    for (const auto& s : *ss) {
      std::set<std::string> names;
      for (const auto& n : GET(impl.GetSchemaAttrsAsVector(s, fb))) {
        const std::string t(n.value<arolla::Text>().view());
        const DataItem got = GET(impl.GetSchemaAttrAllowMissing(s, t, fb)), want = c.Schema(s, t);
        if (got.has_value()) names.insert(t);
        REQUIRE(Same(got, want), when, ": attribute ", t, " of schema ", drv::Str(s), " is ", drv::Str(got), ", not ", drv::Str(want));
      }
      REQUIRE(names == c.Names(s), when, ": attributes of schema ", drv::Str(s));
    }
  }
  Count("bags_read");
}
// Changes something in a bag and in its model.
void Change(World& w, Member& m) {
  Rng& r = w.r;
  Bag& b = *m.layers[0];
  REQUIRE(!m.frozen && m.layers.size() == 1);
  DataBagImpl& impl = Mut(m.db);
  const DataItem o(r.Of(w.objs));
  const ObjectId id = o.value<ObjectId>();
  const DataItem x = w.ValueOf(Dt(r.Of({schema::kInt32, schema::kString, schema::kFloat64})), b);
  if (id.IsList()) {
    Values& l = b.lists[id];
    if (r.P(1, 4)) { REQUIRE_OK(impl.ReplaceInList(o, DataBagImpl::ListRange(), DataSliceImpl::CreateEmptyAndUnknownType(0))); l.clear(); }
    else { REQUIRE_OK(impl.AppendToList(o, x)); l.push_back(x); }
  } else if (id.IsDict()) {
    const DataItem k = DataItem(int{static_cast<int>(r.Below(3))});
    REQUIRE_OK(impl.SetInDict(o, k, x));
    b.dicts[id][KeyOf(k)] = {k, x};
  } else if (r.P(1, 5)) {
    const DataItem e = r.Of(w.ents);
    const std::string n = r.Of(w.names);
    const DataItem t = w.RandSchema();
    REQUIRE_OK(impl.SetSchemaAttr(e, n, t));
    b.schema[e.value<ObjectId>()][n] = t;
  } else {
    const std::string n = r.Of(w.names);
    const DataItem v = r.P(1, 5) ? DataItem() : x;
    REQUIRE_OK(impl.SetAttr(o, n, v));
    b.data[id][n] = v;
  }
}
// A value with bags inside, and whether all of them are frozen.
struct Nested {
  std::vector<std::unique_ptr<arolla::VshimTuple>> tuples;
  const std::vector<Member>& f;
  World& w;
  bool frozen = true;
  int bags = 0;
  arolla::TypedValue Leaf() {
    Rng& r = w.r;
    const Member& m = r.Of(f);
    switch (r.Below(4)) {
      case 0: ++bags; frozen &= m.frozen; return arolla::TypedValue::FromValue(m.db);
      case 1: ++bags; frozen &= m.frozen; return arolla::TypedValue::FromValue(Make({DataItem(r.Of(w.objs))}, {}, Dt(schema::kItemId), m.db));
      case 2: return arolla::TypedValue::FromValue(Make({DataItem(int{1})}, {}, Dt(schema::kInt32)));
      default: return arolla::TypedValue::FromValue(DataBagPtr());
    }
  }
  arolla::VshimTuple* Tuple(int depth) {
    Rng& r = w.r;
    std::vector<arolla::TypedValue> own;
    std::vector<arolla::TypedRef> in;
    for (int i = r.Below(3); i > 0; --i) own.push_back(Leaf());
    if (depth > 0) for (int i = r.Below(3); i > 0; --i) in.push_back(Tuple(depth - 1)->AsRef());
    if (own.empty() && in.empty()) own.push_back(Leaf());
    tuples.push_back(std::make_unique<arolla::VshimTuple>(own));
    tuples.back()->extra = in;
    return tuples.back().get();
  }
};
}  // namespace

CASE(frozen) {
  Source s(r);
  Fill(s);
  FillCollections(s);
  World& w = s.w;
  if (w.objs.empty()) return;
  std::vector<Member> f;
  f.push_back({s.b.db, false, false, {std::make_shared<Bag>(s.b)}});
  const auto check = [&](const char* when) { for (const auto& m : f) CheckMember(w, m, when); };
  check("at first");
  const int steps = r.In(5, 25);
  for (int step = 0; step < steps; ++step) {
    if (f.size() > 9) {
      const size_t gone = 1 + r.Below(f.size() - 1);
      Log(absl::StrCat("let go of ", gone));
      f.erase(f.begin() + gone);
    }
    size_t i = r.Below(f.size());
    const int op = r.Below(17);
    if (op > 11 && op < 15) for (int k = 0; k < 4 && f[i].frozen; ++k) i = r.Below(f.size());
    if (op == 6 && r.P(2, 3)) for (size_t k = 0; k < f.size(); ++k) if (f[k].layers.size() > 1) i = k;
    Member m = f[i];
    switch (op) {
      case 0: case 1: {
        const bool frozen = r.P(1, 2);
        Log(absl::StrCat(f.size(), " = fork of ", i, frozen ? ", frozen" : ""));
        const auto got = m.db->Fork(frozen);
        REQUIRE(got.ok() == !m.of_fallbacks, got.ok() ? "forked what has fallbacks" : std::string(got.status().message()));
        if (!got.ok()) { Count("refused"); break; }
        REQUIRE(*got != m.db && (*got)->fingerprint() != m.db->fingerprint());
        f.push_back({*got, frozen, false, {std::make_shared<Bag>(*m.layers[0])}});
        Count("forks");
        break;
      }
      case 2: {
        Log(absl::StrCat(f.size(), " = frozen ", i));
        const DataBagPtr got = m.db->Freeze();
        REQUIRE((got == m.db) == m.frozen, "freezing");
        if (m.frozen) break;
        f.push_back({got, true, false, {std::make_shared<Bag>(*m.layers[0])}});
        Count("frozen");
        break;
      }
      case 3: {
        if (m.frozen || r.P(1, 2)) break;
        Log(absl::StrCat(f.size(), " = fork of ", i, ", made immutable"));
        const DataBagPtr got = GET(m.db->Fork());
        Member k{got, false, false, {std::make_shared<Bag>(*m.layers[0])}};
        if (r.P(1, 2)) Change(w, k);
        got->UnsafeMakeImmutable();
        k.frozen = true;
        f.push_back(k);
        Count("frozen");
        break;
      }
      case 4: case 5: {
        std::vector<size_t> of;
        std::vector<DataBagPtr> bags;
        bool ok = true;
        for (int k = r.In(0, 3); k > 0; --k) {
          of.push_back(r.Below(f.size()));
          // Those that others fall back to as well, and some of these.
          if (r.P(1, 3)) for (size_t q = 0; q < f.size(); ++q) if (f[q].of_fallbacks && r.P(1, 2)) of.back() = q;
          if (f[of.back()].frozen || r.P(1, 3)) { bags.push_back(f[of.back()].db); ok &= f[of.back()].frozen; }
          else { of.pop_back(); if (r.P(1, 3)) bags.push_back(nullptr); }
        }
        Log(absl::StrCat(f.size(), " falls back to ", absl::StrJoin(of, ", ")));
        const auto got = DataBag::ImmutableEmptyWithFallbacks(bags);
        REQUIRE(got.ok() == ok, got.ok() ? "falls back to what can change" : std::string(got.status().message()));
        if (!ok) { Count("refused"); break; }
        Member n{*got, true, !of.empty(), {}};
        for (const size_t k : of) for (const auto& l : f[k].layers) n.layers.push_back(l);
        if (of.empty()) n.layers.push_back(std::make_shared<Bag>());
        f.push_back(n);
        Count("falling_back");
        break;
      }
      case 15: case 16: {
        // Some that disagree, and a graph of those that fall back to them.
        if (m.of_fallbacks || r.P(1, 3)) break;
        std::vector<Member> g;
        for (int k = r.In(2, 3); k > 0; --k) {
          Member n{GET(m.db->Fork()), false, false, {std::make_shared<Bag>(*m.layers[0])}};
          Log(absl::StrCat("a leaf: fork of ", i));
          for (int c = r.In(1, 5); c > 0; --c) Change(w, n);
          n.db->UnsafeMakeImmutable();
          n.frozen = true;
          g.push_back(n);
        }
        for (int k = r.In(2, 4); k > 0; --k) {
          std::vector<size_t> of;
          for (size_t q = 0; q < g.size(); ++q) if (r.P(2, 3)) of.push_back(q);
          for (size_t q = of.size(); q > 1; --q) std::swap(of[q - 1], of[r.Below(q)]);
          if (of.size() > 3) of.resize(3);
          if (of.empty()) continue;
          Log(absl::StrCat("of these, ", g.size(), " falls back to ", absl::StrJoin(of, ", ")));
          std::vector<DataBagPtr> bags;
          Member n{nullptr, true, true, {}};
          for (const size_t q : of) {
            bags.push_back(g[q].db);
            for (const auto& l : g[q].layers) n.layers.push_back(l);
          }
          n.db = GET(DataBag::ImmutableEmptyWithFallbacks(bags));
          g.push_back(n);
        }
        for (const auto& n : g) CheckMember(w, n, "of a graph");
        if (f.size() < 9) { f.push_back(g.back()); f.push_back(g[g.size() - 2]); }
        Count("graphs");
        break;
      }
      case 6: {
        Log(absl::StrCat(f.size(), " = ", i, " with fallbacks merged"));
        Member n = m;
        n.db = GET(m.db->MergeFallbacks());
        n.frozen = false;
        REQUIRE(n.db != m.db && n.db->GetFallbacks().empty());
        if (m.layers.size() > 1) { CheckMember(w, n, "merged"); Count("merged"); break; }
        n.of_fallbacks = false;
        n.layers = {std::make_shared<Bag>(*m.layers[0])};
        f.push_back(n);
        break;
      }
      case 7: {
        if (m.frozen) break;
        Log(absl::StrCat(i, " merged with itself"));
        const bool over = r.P(1, 2), allow = r.P(1, 2);
        REQUIRE_OK(m.db->MergeInplace(m.db, over, allow, allow));
        Count("self_merges");
        break;
      }
      case 8: {
        // what objects stand for, kept beside what cannot change
        const auto got = m.db->SetCachedMetadata<int>(r.Of(w.objs), 7 + step);
        REQUIRE(*got == 7 + step || m.frozen);
        const ObjectId o = r.Of(w.objs);
        const auto before = m.db->GetCachedMetadataOrNull<int>(o);
        const auto set = m.db->SetCachedMetadata<int>(o, 100 + step);
        const auto after = m.db->GetCachedMetadataOrNull<int>(o);
        REQUIRE(m.db->GetCachedMetadataOrNull<float>(o) == nullptr, "of another type");
        if (!m.frozen) REQUIRE(before == nullptr && after == nullptr && *set == 100 + step, "kept for what can change");
        else REQUIRE(after != nullptr && after == set && (before == nullptr ? *set == 100 + step : before == set), "the first one stays");
        Count("cached");
        break;
      }
      case 9: {
        Nested n{{}, f, w};
        arolla::VshimTuple* t = n.Tuple(r.Below(4));
        const absl::Status st = koladata::CheckFrozen(t->AsRef());
        Log(absl::StrCat("a value with ", n.bags, " bags in ", n.tuples.size(), " tuples", n.frozen ? "" : ", not frozen"));
        REQUIRE(st.ok() == n.frozen, "a value with ", n.bags, " bags in ", n.tuples.size(), " tuples is taken for ", st.ok() ? "frozen" : "not frozen");
        Count(n.frozen ? "frozen_values" : "values_not_frozen");
        Distinct(Hash(absl::StrCat(n.bags, " ", n.tuples.size(), " ", n.frozen, " ", step, " ", f.size())));
        break;
      }
      default:
        if (m.frozen) break;
        Log(absl::StrCat("change of ", i));
        Change(w, f[i]);
        Count("changes");
        break;
    }
    // What would change a frozen one.
    if (f[i].frozen && r.P(1, 2)) {
      const DataBagPtr& db = f[i].db;
      const DataItem o(r.Of(w.objs)), e = r.Of(w.ents);
      const DataSlice x = Make({DataItem(int{5})}, {}, Dt(schema::kInt32)), i32 = Make({Dt(schema::kInt32)}, {}, Dt(schema::kSchema));
      const DataSlice es = Make({e}, {}, Dt(schema::kSchema), db), os = Make({o}, {}, e, db);
      const int k = r.Below(22);
      Log(absl::StrCat("try ", k, " on ", i));
      absl::Status st;
      switch (k) {
        case 0: st = db->MergeInplace(f[0].db, true, true, true); break;
        case 1: st = db->GetMutableImpl().status(); break;
        case 2: st = es.SetAttr("a", i32); break;
        case 3: st = koladata::EntityCreator::FromAttrs(db, {"a"}, {x}).status(); break;
        case 4: st = koladata::ObjectCreator::FromAttrs(db, {"a"}, {x}).status(); break;
        case 5: st = koladata::CreateUu(db, "", {"a"}, {x}).status(); break;
        case 6: st = koladata::CreateUuObject(db, "", {"a"}, {x}).status(); break;
        case 7: st = koladata::CreateEntitySchema(db, {"a"}, {i32}).status(); break;
        case 8: st = koladata::CreateUuSchema(db, "", {"a"}, {i32}).status(); break;
        case 9: st = koladata::CreateNamedSchema(db, "n", {"a"}, {i32}).status(); break;
        case 10: st = koladata::CreateListSchema(db, i32).status(); break;
        case 11: st = koladata::CreateDictSchema(db, i32, i32).status(); break;
        case 12: st = koladata::CreateEmptyList(db, std::nullopt, i32).status(); break;
        case 13: st = koladata::CreateListShaped(db, Shape::Empty(), std::nullopt, std::nullopt, i32).status(); break;
        case 14: st = koladata::CreateDictShaped(db, Shape::Empty(), x, x).status(); break;
        case 15: st = koladata::Implode(db, Make({DataItem(int{5})}, Dims{std::vector<int64_t>{1}}, Dt(schema::kInt32)), 1).status(); break;
        case 16: st = koladata::CreateMetadata(db, es, {"a"}, {x}).status(); break;
        case 17: st = os.EmbedSchema(true).status(); break;
        case 18: st = koladata::EntityCreator::Shaped(db, Shape::Empty(), {"a"}, {x}).status(); break;
        case 19: st = koladata::ObjectCreator::Like(db, x, {"a"}, {x}).status(); break;
        case 20: st = os.SetSchema(Make({e}, {}, Dt(schema::kSchema), f[0].db)).status(); break;
        default: st = koladata::SetMetadata(es, {"a"}, {x}); break;
      }
      REQUIRE(!st.ok(), "what may not change lets itself be changed, by ", k);
      Count("tries");
    }
    if (r.P(1, 3)) check("after a step");
    else CheckMember(w, f[i], "after a step");
    Distinct(Hash(absl::StrCat(step, " ", op, " ", i, " ", f.size(), " ", w.objs.size())));
  }
  // A long line of fallbacks, let go of at once.
  if (r.P(1, 150)) {
    const Member m = f[0];
    DataBagPtr db = m.db->Freeze();
    for (int k = 0; k < 20000; ++k) db = GET(DataBag::ImmutableEmptyWithFallbacks({db}));
    CheckMember(w, {db, true, true, m.layers}, "at the end of a long line");
    db.reset();
    Count("long_lines");
  }
  check("at the end");
}
// Bags of several values, put together.
CASE(adoption) {
  std::vector<Source> src;
  for (int i = r.In(1, 2); i > 0; --i) { src.emplace_back(r); Fill(src.back()); if (r.P(1, 2)) FillCollections(src.back()); }
  const World all = [&] { World u(r); for (auto& s : src) { World& w = s.w; u.objs.insert(u.objs.end(), w.objs.begin(), w.objs.end()); u.ents.insert(u.ents.end(), w.ents.begin(), w.ents.end()); u.impl.insert(u.impl.end(), w.impl.begin(), w.impl.end()); u.entity.insert(w.entity.begin(), w.entity.end()); } return u; }();
  // An attribute that no entity has.
  const auto spare = [&](Source& s, const DataItem& e) {
    const auto& had = s.b.schema[e.value<ObjectId>()];
    if (had.count("__items__") || had.count("__keys__") || had.count("__values__")) return;
    const DataItem v = Dt(r.Of({schema::kInt32, schema::kInt64, schema::kString, schema::kBool}));
    REQUIRE_OK(Mut(s.b.db).SetSchemaAttr(e, "spare", v));
    s.b.schema[e.value<ObjectId>()]["spare"] = v;
  };
  for (auto& s : src) for (const auto& e : s.w.ents) if (e.holds_value<ObjectId>() && r.P(2, 3)) spare(s, e);
  // Copies, which differ in a value or two.
  const auto alter = [&](Source& s) {
    if (r.P(1, 3)) {
      for (const auto& e : s.w.ents) {
        if (!e.holds_value<ObjectId>() || !r.P(1, 2)) continue;
        spare(s, e);
        Count("altered_schemas");
        return;
      }
    }
    for (const auto& o : s.w.objs) {
      for (auto& [n, v] : s.b.data[o]) {
        if (n == "__schema__" || !v.holds_value<int>() || !r.P(1, 4)) continue;
        SetData(s.b, o, n, DataItem(int{77}));
        return;
      }
    }
  };
  for (int i = r.In(0, 2); i > 0; --i) {
    src.push_back(r.Of(src));
    src.back().b.db = GET(src.back().b.db->Fork());
    if (r.P(1, 2)) alter(src.back());
  }
  for (auto& s : src) if (r.P(1, 2)) s.b.db = s.b.db->Freeze();
  const auto value = [&](Source& s) {
    Arg a;
    a.from = &s;
    a.d = RandDims(r, r.Of({0, 1, 1, 2}), 3);
    a.schema = r.P(1, 2) ? r.Of(s.w.ents) : r.P(1, 2) ? Dt(schema::kObject) : s.w.RandSchema();
    a.v = s.w.ValuesOf(a.schema, DimsSize(a.d), s.b, 20);
    return a;
  };
  // A bag as a whole; false: that contradicts what there is.
  const auto whole = [&](Bag& d, const Bag& b) {
    for (const auto& [o, m] : b.data) for (const auto& [n, v] : m) { const auto [it, is_new] = d.data[o].emplace(n, v); if (!is_new && !Same(it->second, v)) return false; }
    for (const auto& [o, m] : b.schema) for (const auto& [n, v] : m) { const auto [it, is_new] = d.schema[o].emplace(n, v); if (!is_new && !Same(it->second, v)) return false; }
    for (const auto& [o, l] : b.lists) d.lists.emplace(o, l);
    for (const auto& [o, m] : b.dicts) d.dicts[o].insert(m.begin(), m.end());
    return true;
  };
  for (int round = r.In(1, 4); round > 0; --round) {
    koladata::AdoptionQueue q;
    std::vector<Arg> slices;
    std::vector<size_t> bags, from;
    std::string log;
    for (int i = r.In(0, 4); i > 0; --i) {
      const size_t k = r.Below(src.size());
      if (r.P(1, 8)) { q.Add(DataBagPtr()); continue; }
      if (r.P(1, 8)) { q.Add(Make({DataItem(int{1})}, {}, Dt(schema::kInt32))); continue; }
      if (r.P(1, 4)) { bags.push_back(k); q.Add(src[k].b.db); absl::StrAppend(&log, " bag ", k); continue; }
      slices.push_back(value(src[k]));
      from.push_back(k);
      q.Add(slices.back().In());
      absl::StrAppend(&log, " ", slices.back().Str(), " of ", k);
    }
    std::set<DataBag*> used;
    for (const size_t k : bags) used.insert(src[k].b.db.get());
    for (const size_t k : from) used.insert(src[k].b.db.get());
    REQUIRE(q.empty() == used.empty(), "empty or not");
    const auto model = [&](Bag& m, const DataBag* into) {
      std::set<const DataBag*> had{into};
      for (const size_t k : bags) if (had.insert(src[k].b.db.get()).second && !whole(m, src[k].b)) return false;
      for (size_t i = 0; i < slices.size(); ++i) if (!had.count(src[from[i]].b.db.get()) && !Adopt(m, Chain{{&src[from[i]].b}}, slices[i].v, slices[i].schema)) return false;
      return true;
    };
    Distinct(Hash(log));
    const int op = r.Below(5);
    if (op == 0) {
      Log("common bag of" + log);
      Bag m;
      const bool ok = used.size() < 2 || model(m, nullptr);
      const auto got = q.GetCommonOrMergedDb();
      REQUIRE(got.ok() == ok, got.ok() ? "put together what contradicts itself" : std::string(got.status().message()));
      if (!ok) { Count("refused"); continue; }
      if (used.empty()) REQUIRE(*got == nullptr, "a bag of nothing");
      else if (used.size() == 1) REQUIRE(got->get() == *used.begin(), "another bag than the only one");
      else CheckMember(all, {*got, true, false, {std::make_shared<Bag>(m)}}, "the common bag");
      Count("common");
    } else if (op == 1) {
      Log("fallbacks of" + log);
      const DataBagPtr got = q.GetBagWithFallbacks();
      const koladata::FlattenFallbackFinder ff(*got);
      REQUIRE(!got->IsMutable());
      std::set<const DataBagImpl*> count(ff.GetFlattenFallbacks().begin(), ff.GetFlattenFallbacks().end());
      REQUIRE(ff.GetFlattenFallbacks().size() == used.size(), used.size(), " bags became ", ff.GetFlattenFallbacks().size(), " fallbacks");
      for (const auto& o : all.objs) {
        if (o.IsList() || o.IsDict()) continue;
        for (const auto& n : all.names) {
          const DataItem v = GET(got->GetImpl().GetAttr(DataItem(o), n, ff.GetFlattenFallbacks()));
          bool any = false, is = false;
          for (const auto& s : src) {
            if (!used.count(s.b.db.get())) continue;
            const DataItem x = Chain{{&s.b}}.Data(o, n);
            any |= x.has_value();
            is |= Same(x, v);
          }
          REQUIRE(any == v.has_value() && (is || !any), "attribute ", n, " of ", drv::Str(DataItem(o)), " is ", drv::Str(v));
        }
      }
      Count("fallbacks");
    } else if (op == 2) {
      Target t(r);
      size_t base = src.size();
      if (r.P(1, 2)) { base = r.Below(src.size()); t.b = src[base].b; t.b.db = r.P(1, 2) && src[base].b.db->IsMutable() ? src[base].b.db : GET(src[base].b.db->Fork()); }
      Log(absl::StrCat("into ", base < src.size() ? absl::StrCat(t.b.db == src[base].b.db ? "" : "a copy of ", base) : "an empty bag", log));
      Bag m = t.b;
      const bool ok = model(m, t.b.db.get());
      const DataBagPtr db = ok ? t.b.db : GET(t.b.db->Fork());
      if (db != t.b.db && t.b.db.get() != db.get() && used.count(t.b.db.get())) continue;
      const auto st = q.AdoptInto(*db);
      REQUIRE(st.ok() == ok, st.ok() ? "took what contradicts what is there" : std::string(st.message()));
      if (!ok) { Count("refused"); continue; }
      CheckMember(all, {db, false, false, {std::make_shared<Bag>(m)}}, "after adoption");
      for (auto& s : src) if (s.b.db == db) { const DataBagPtr keep = s.b.db; const bool f = s.b.frozen; s.b = m; s.b.db = keep; s.b.frozen = f; }
      Count("adopted");
    } else if (op == 3) {
      const size_t k = r.Below(src.size()), b = r.Below(src.size());
      Arg a = value(src[k]);
      if (r.P(1, 6)) a.from = nullptr;
      DataBagPtr db = r.P(1, 6) ? nullptr : src[b].b.db;
      Log(absl::StrCat("bag ", db ? absl::StrCat(b) : "none", " with ", a.Str(), " of ", k));
      const auto got = koladata::WithAdoptedValues(db, a.In());
      const bool ok = !db || !db->IsMutable();
      REQUIRE(got.ok() == ok, got.ok() ? "took a bag that can change" : std::string(got.status().message()));
      if (!ok) { Count("refused"); continue; }
      if (!db || (a.from && db == src[k].b.db)) REQUIRE(*got == (a.from ? src[k].b.db : nullptr));
      else if (!a.from) REQUIRE(*got == db);
      else {
        auto x = std::make_shared<Bag>();
        if (!Adopt(*x, Chain{{&src[k].b}}, a.v, a.schema)) continue;
        CheckMember(all, {*got, true, true, {x, std::make_shared<Bag>(src[b].b)}}, "with the values");
      }
      Count("with_values");
    } else {
      const size_t k = r.Below(src.size());
      const Arg a = value(src[k]);
      if (!a.schema.holds_value<ObjectId>() && !IsObjectSchema(a.schema)) continue;
      Log(absl::StrCat("stub of ", a.Str(), " of ", k));
      const DataBagPtr db = DataBag::EmptyMutable();
      if (r.P(1, 12)) {
        Arg bare = a;
        bare.from = nullptr;
        REQUIRE_OK(koladata::AdoptStub(db, bare.In()));
        CheckMember(all, {db, false, false, {std::make_shared<Bag>()}}, "stub of what has no bag");
        continue;
      }
      const absl::Status st = koladata::AdoptStub(db, a.In());
      if (!st.ok()) {
        // Items of lists that are read at once may have nothing in common.
        REQUIRE(std::any_of(a.v.begin(), a.v.end(), [](const auto& x) { return x.template holds_value<ObjectId>() && x.template value<ObjectId>().IsList(); }), std::string(st.message()));
        Count("refused");
        continue;
      }
      const Chain c{{&src[k].b}};
      // Objects have their schemas; lists their items, all the way down.
      std::vector<std::pair<Values, DataItem>> levels{{a.v, a.schema}};
      for (int depth = 0; depth < 6 && !levels.empty(); ++depth) {
        const auto [v, s] = levels.back();
        levels.pop_back();
        bool prims = false, lists = !v.empty(), any = false;
        Values next;
        Values item_schemas;
        for (const auto& x : v) {
          if (!x.has_value()) continue;
          if (!x.holds_value<ObjectId>()) { prims = true; continue; }
          any = true;
          lists &= x.value<ObjectId>().IsList();
          if (IsObjectSchema(s)) {
            const DataItem got = GET(db->GetImpl().GetAttr(x, sa::kSchemaAttr)), want = c.Data(x.value<ObjectId>(), "__schema__");
            REQUIRE(Same(got, want), "the schema of ", drv::Str(x), " is ", drv::Str(got), ", not ", drv::Str(want));
          }
          if (x.value<ObjectId>().IsList()) { const Values& l = ListOf(c, x); next.insert(next.end(), l.begin(), l.end()); item_schemas.push_back(IsObjectSchema(s) ? c.Data(x.value<ObjectId>(), "__schema__") : s); }
        }
        if (any && !prims && std::all_of(v.begin(), v.end(), [](const auto& x) { return !x.has_value() || x.template value<ObjectId>().IsDict(); })) {
          for (const auto& x : v) {
            if (!x.has_value()) continue;
            const DataItem xs = IsObjectSchema(s) ? c.Data(x.value<ObjectId>(), "__schema__") : s;
            for (const char* n : {"__keys__", "__values__"}) {
              const DataItem want = c.Schema(xs, n), got = GET(db->GetImpl().GetSchemaAttrAllowMissing(xs, n));
              REQUIRE(Same(got, want), n, " of schema ", drv::Str(xs), " are ", drv::Str(got), ", not ", drv::Str(want));
            }
          }
          Count("stub_dicts");
        }
        if (!any || prims || !lists) break;
        for (const auto& x : v) {
          if (!x.has_value()) continue;
          const Values got = drv::Items(GET(db->GetImpl().ExplodeList(x))), &want = ListOf(c, x);
          REQUIRE(got.size() == want.size(), "list ", drv::Str(x), " is ", drv::Str(got), ", not ", drv::Str(want));
        }
        for (const auto& e : item_schemas) {
          const DataItem want = c.Schema(e, "__items__"), got = GET(db->GetImpl().GetSchemaAttrAllowMissing(e, "__items__"));
          REQUIRE(Same(got, want), "items of schema ", drv::Str(e), " are ", drv::Str(got), ", not ", drv::Str(want));
        }
        Count("stub_levels");
        const DataItem e = c.Schema(item_schemas[0], "__items__");
        if (std::all_of(item_schemas.begin(), item_schemas.end(), [&](const auto& x) { return Same(c.Schema(x, "__items__"), e); }) && (e.holds_value<ObjectId>() || IsObjectSchema(e))) levels.emplace_back(next, e);
      }
      Count("stubs");
    }
  }
  for (auto& s : src) CheckMember(all, {s.b.db, !s.b.db->IsMutable(), false, {std::make_shared<Bag>(s.b)}}, "source at the end");
}
// Several threads at bags that nobody changes, and at forks of their own.
CASE(threads) {
  Source s(r);
  Fill(s);
  FillCollections(s);
  if (s.w.objs.empty()) return;
  const Member base{s.b.db, false, false, {std::make_shared<Bag>(s.b)}};
  Member frozen = base, behind = base;
  frozen.db = s.b.db->Freeze();
  frozen.frozen = behind.frozen = true;
  behind.db = GET(DataBag::ImmutableEmptyWithFallbacks({GET(DataBag::ImmutableEmptyWithFallbacks({frozen.db})), frozen.db}));
  const bool fresh = r.P(1, 2);  // nobody has asked the first bag for a fork yet
  Member first = base;
  if (fresh) first.db = GET(s.b.db->Fork());
  const int threads = r.In(2, 5), rounds = r.In(2, 12);
  std::vector<uint64_t> seeds;
  for (int t = 0; t < threads; ++t) seeds.push_back(r.Next());
  Log(absl::StrCat(threads, " threads, ", rounds, " rounds"));
  struct Seen {
    std::vector<ObjectId> ids;
    std::vector<std::pair<ObjectId, std::shared_ptr<const int>>> cached;
    std::vector<arolla::Fingerprint> prints;
    int64_t forks = 0, reads = 0, changes = 0;
  };
  std::vector<Seen> seen(threads);
  std::atomic<int> at{0};
  const auto meet = [&](int n) { ++at; while (at.load() < n * threads) std::this_thread::yield(); };
  const bool owner = r.P(1, 2);  // the first thread goes on to change the first bag
  std::vector<std::thread> ts;
  Member mine_all = first;
  mine_all.layers = {std::make_shared<Bag>(*first.layers[0])};
  for (int t = 0; t < threads; ++t) {
    ts.emplace_back([&, t] {
      Rng mr(seeds[t]);
      World w(mr);
      w = s.w;
      Seen& me = seen[t];
      std::vector<Member> own;
      const auto read = [&](const Member& m) {
        const Chain c = m.chain();
        const koladata::FlattenFallbackFinder ff(*m.db);
        const DataItem o(mr.Of(w.objs));
        if (o.value<ObjectId>().IsList()) {
          const Values got = drv::Items(GET(m.db->GetImpl().ExplodeList(o, DataBagImpl::ListRange(), ff.GetFlattenFallbacks()))), &want = ListOf(c, o);
          REQUIRE(got.size() == want.size() && std::equal(got.begin(), got.end(), want.begin(), [](const auto& a, const auto& b) { return Same(a, b); }), "list ", drv::Str(o), " is ", drv::Str(got), ", not ", drv::Str(want));
        } else if (!o.value<ObjectId>().IsDict()) {
          const std::string n = mr.Of(w.names);
          const DataItem got = GET(m.db->GetImpl().GetAttr(o, n, ff.GetFlattenFallbacks())), want = c.Data(o.value<ObjectId>(), n);
          REQUIRE(Same(got, want), "attribute ", n, " of ", drv::Str(o), " is ", drv::Str(got), ", not ", drv::Str(want));
        }
        ++me.reads;
      };
      meet(1);
      for (int k = 0; k < rounds; ++k) {
        const Member& m = *mr.Of(std::vector<const Member*>{&first, &frozen, &behind});
        switch (mr.Below(6)) {
          case 0: case 1: {
            if (m.db == behind.db) { own.push_back(m); own.back().db = GET(m.db->MergeFallbacks()); own.back().layers.resize(1); }
            else { own.push_back(m); own.back().db = GET(m.db->Fork()); }
            own.back().frozen = false;
            own.back().layers = {std::make_shared<Bag>(*own.back().layers[0])};
            me.prints.push_back(own.back().db->fingerprint());
            ++me.forks;
            break;
          }
          case 2: {
            Member f = m;
            f.db = m.db->Freeze();
            read(f);
            ++me.forks;
            break;
          }
          case 3: {
            const ObjectId o = s.w.objs[mr.Below(std::min<size_t>(3, s.w.objs.size()))];
            me.cached.emplace_back(o, frozen.db->SetCachedMetadata<int>(o, 1000 * t + k));
            const auto now = frozen.db->GetCachedMetadataOrNull<int>(o);
            REQUIRE(now == me.cached.back().second, "the first one stays");
            break;
          }
          case 4: {
            if (mr.P(1, 2)) me.ids.push_back(AllocateSingleObject());
            else { const AllocationId a = Allocate(mr.In(3, 40)); for (int64_t x = mr.Below(3); x >= 0; --x) me.ids.push_back(a.ObjectByOffset(x)); }
            break;
          }
          default: read(m);
        }
      }
      meet(2);
      for (int k = 0; k < rounds; ++k) {
        if (t == 0 && owner) { Change(w, mine_all); ++me.changes; read(mine_all); continue; }
        if (own.empty()) { read(mr.P(1, 2) ? frozen : behind); continue; }
        Member& m = own[mr.Below(own.size())];
        if (mr.P(1, 2)) { Change(w, m); ++me.changes; }
        read(m);
      }
      for (const auto& m : own) for (int k = 0; k < 5; ++k) read(m);
    });
  }
  for (auto& t : ts) t.join();
  std::set<ObjectId> ids;
  std::map<ObjectId, std::shared_ptr<const int>> cached;
  std::set<arolla::Fingerprint> prints;
  for (const auto& m : seen) {
    for (const auto& o : m.ids) REQUIRE(ids.insert(o).second, "the id ", drv::Str(DataItem(o)), " was given twice");
    for (const auto& [o, c] : m.cached) REQUIRE(cached.emplace(o, c).first->second == c, "two threads have other metadata of ", drv::Str(DataItem(o)));
    for (const auto& p : m.prints) REQUIRE(prints.insert(p).second, "two forks have one fingerprint");
    Count("forks", m.forks);
    Count("reads", m.reads);
    Count("changes", m.changes);
    Count("ids", m.ids.size());
  }
  Distinct(Hash(absl::StrCat(threads, rounds, seeds[0])));
  CheckMember(s.w, frozen, "at the end");
  CheckMember(s.w, behind, "at the end");
  CheckMember(s.w, mine_all, "at the end");
}
}  // namespace drv
