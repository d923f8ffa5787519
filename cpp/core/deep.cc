// What is reachable from a slice: extracting, cloning, comparing, naming and
// finding it. Graphs of entities, objects, lists and dicts are written to
// bags, and what an operator made of them is read back one attribute at a
// time, as a text in which every object appears once.
#include <algorithm>
#include <cmath>

#include "common.h"
#include "koladata/internal/op_utils/deep_clone.h"
#include "koladata/internal/op_utils/deep_equivalent.h"
#include "koladata/internal/op_utils/deep_schema_compatible.h"
#include "koladata/internal/op_utils/deep_uuid.h"
#include "koladata/internal/op_utils/extract.h"
#include "koladata/internal/op_utils/new_ids_like.h"
#include "koladata/internal/op_utils/object_finder.h"
#include "koladata/internal/op_utils/traverse_helper.h"
#include "koladata/internal/schema_attrs.h"
#include "koladata/internal/slice_builder.h"
#include "koladata/internal/uuid_object.h"
#include "koladata/internal/uuid_schemas.h"

namespace drv {
namespace {
namespace sa = koladata::schema;
using TH = TraverseHelper;
using TT = TH::TransitionType;

struct View {  // a bag with what it falls back to, and where root schemas are
  const DataBagImpl* bag;
  std::vector<const DataBagImpl*> fb;
  const DataBagImpl* sbag = nullptr;
  DataItem Attr(const DataItem& o, std::string_view a) const { return GET(bag->GetAttr(o, a, fb)); }
  DataItem ObjSchema(const DataItem& o) const { return Attr(o, sa::kSchemaAttr); }
  // The attributes of a schema in order.
  std::map<std::string, DataItem> Schema(const DataItem& s) const { return SchemaIn(*bag, fb, s); }
  static std::map<std::string, DataItem> SchemaIn(const DataBagImpl& bag, const std::vector<const DataBagImpl*>& fb, const DataItem& s) {
    std::map<std::string, DataItem> m;
    if (!s.holds_value<ObjectId>() || s.value<ObjectId>().IsNoFollowSchema()) return m;
    for (const auto& n : GET(bag.GetSchemaAttrsAsVector(s, fb))) {
      const std::string name(n.value<arolla::Text>().view());
      m[name] = GET(bag.GetSchemaAttrAllowMissing(s, name, fb));
    }
    return m;
  }
  std::vector<DataItem> List(const DataItem& l) const { return drv::Items(GET(bag->ExplodeList(l, DataBagImpl::ListRange(), fb))); }
  std::vector<DataItem> Keys(const DataItem& d) const { return drv::Items(GET(bag->GetDictKeys(d, fb)).first); }
  DataItem Value(const DataItem& d, const DataItem& k) const { return GET(bag->GetFromDict(d, k, fb)); }
};
bool IsStruct(const DataItem& schema) { return schema.holds_value<ObjectId>(); }
bool IsList(const std::map<std::string, DataItem>& s) { return s.count(std::string(sa::kListItemsSchemaAttr)); }
bool IsDict(const std::map<std::string, DataItem>& s) { return s.count(std::string(sa::kDictKeysSchemaAttr)); }
bool Meta(const std::string& name) { return name == sa::kSchemaNameAttr || name == sa::kSchemaMetadataAttr; }

// Everything reachable, as a text. With numbers, objects (and schemas that
// belong to one object) are named in the order they are come by.
struct Canon {
  const View& v;
  bool numbers;
  bool names = true;  // names and metadata of schemas count
  std::string out;
  std::map<std::string, int> seen;
  std::map<ObjectId, int> ids;
  std::set<std::pair<ObjectId, std::string>> attrs, schema_attrs;
  std::set<ObjectId> lists, dicts, objects;
  int depth = 0;

  std::string Name(const DataItem& x) {
    if (!x.holds_value<ObjectId>()) return drv::Str(x);
    const ObjectId o = x.value<ObjectId>();
    if (!numbers || (o.IsSchema() && !o.IsImplicitSchema())) return absl::StrCat(x);
    auto it = ids.emplace(o, ids.size()).first;
    return absl::StrCat(o.IsList() ? "L" : o.IsDict() ? "D" : o.IsSchema() ? "S" : "E", it->second);
  }
  void Schema(const DataItem& s) {
    out += '<';
    out += Name(s);
    if (s.holds_value<ObjectId>() && seen.emplace("schema " + Name(s), 0).second) {
      objects.insert(s.value<ObjectId>());
      auto m = v.Schema(s);
      for (auto& [n, t] : m) {
        if (Meta(n) && !names) continue;
        schema_attrs.insert({s.value<ObjectId>(), n});
        out += absl::StrCat(" ", n, "=");
        if (n == sa::kSchemaNameAttr) out += drv::Str(t);
        else if (n == sa::kSchemaMetadataAttr) Visit(t, DataItem(schema::kObject));
        else Schema(t);
      }
    }
    out += '>';
  }
  void Visit(const DataItem& x, const DataItem& schema) {
    if (out.size() > 4000000) return;
    if (schema == schema::kSchema) { if (x.has_value()) Schema(x); else out += "-"; return; }
    if (!x.has_value()) { out += "-"; return; }
    if (!x.holds_value<ObjectId>() || schema == schema::kItemId) { out += x.holds_value<ObjectId>() ? absl::StrCat(x) : drv::Str(x); return; }
    DataItem s = schema;
    const ObjectId o = x.value<ObjectId>();
    out += Name(x);
    if (schema == schema::kObject) {
      attrs.insert({o, std::string(sa::kSchemaAttr)});
      s = v.ObjSchema(x);
      out += "!";
    }
    objects.insert(o);
    Schema(s);
    if (!s.holds_value<ObjectId>() || !seen.emplace(Name(x) + " as " + Name(s), 0).second) return;
    const auto m = v.Schema(s);
    if (IsList(m)) {
      lists.insert(o);
      out += '[';
      for (const auto& y : v.List(x)) { Visit(y, m.at(std::string(sa::kListItemsSchemaAttr))); out += ' '; }
      out += ']';
    } else if (IsDict(m)) {
      dicts.insert(o);
      auto keys = v.Keys(x);
      std::sort(keys.begin(), keys.end(), [&](const DataItem& a, const DataItem& b) { return KeyText(a) < KeyText(b); });
      out += '{';
      for (const auto& k : keys) {
        Visit(k, m.at(std::string(sa::kDictKeysSchemaAttr)));
        out += ':';
        Visit(v.Value(x, k), m.at(std::string(sa::kDictValuesSchemaAttr)));
        out += ' ';
      }
      out += '}';
    } else {
      out += '(';
      for (auto& [n, t] : m) {
        if (Meta(n)) continue;
        attrs.insert({o, n});
        out += absl::StrCat(n, "=");
        Visit(v.Attr(x, n), t);
        out += ' ';
      }
      out += ')';
    }
  }
  // Objects last, and in one place only.
  std::string KeyText(const DataItem& k) const { return k.holds_value<ObjectId>() ? (numbers ? std::string("~") : absl::StrCat("~", k)) : drv::Str(k); }
  Canon(const View& v, const std::vector<DataItem>& roots, const DataItem& schema, bool numbers, bool names = true) : v(v), numbers(numbers), names(names) {
    Schema(schema);
    for (const auto& x : roots) { Visit(x, schema); out += '\n'; }
  }
};

struct Ty {
  char kind;  // p(rimitive) o(bject) i(temid) S(chema) e(ntity) l(ist) d(ict) n(ofollow)
  int prim = 0;
  DataItem schema;
  std::vector<std::pair<std::string, int>> attrs;
  int a = -1, b = -1;
};
struct NodeOf { ObjectId id; int type = -1; bool has_schema = false; std::vector<std::pair<std::string, int>> own; bool own_set = false; };

struct Graph {
  Rng& r;
  std::vector<DataBagImplPtr> bags;
  DataBagImplPtr sbag;
  std::vector<Ty> types;
  std::vector<NodeOf> nodes;
  std::vector<std::vector<int>> allocs;  // nodes of each allocation in order
  bool dag = false, nofollow = true, meta = true, object_keys = true, itemids = true, schemas_as_values = true;
  int max_alloc = 30;
  explicit Graph(Rng& r) : r(r) {}

  View view() const {
    View v{bags[0].get(), {}};
    for (size_t i = 1; i < bags.size(); ++i) v.fb.push_back(bags[i].get());
    return v;
  }
  DataBagImpl& Some() { return *bags[r.P(1, 2) ? 0 : r.Below(bags.size())]; }
  void SetSchema(const DataItem& s, const std::string& n, const DataItem& t) {
    REQUIRE_OK(Some().SetSchemaAttr(s, n, t));
  }
  int Type(std::function<bool(const Ty&)> ok) {
    std::vector<int> c;
    for (size_t i = 0; i < types.size(); ++i) if (ok(types[i])) c.push_back(i);
    return c.empty() ? 0 : r.Of(c);
  }
  int AnyType() { return r.P(1, 3) ? r.Below(types.size()) : Type([&](const Ty& t) { return t.kind != 'p'; }); }
  void MakeTypes() {
    for (int p : {kI32, kText, kF64, kBool, kBytes, kI64}) {
      static const std::map<int, DataItem> s = {{kI32, DataItem(schema::kInt32)}, {kText, DataItem(schema::kString)}, {kF64, DataItem(schema::kFloat64)}, {kBool, DataItem(schema::kBool)}, {kBytes, DataItem(schema::kBytes)}, {kI64, DataItem(schema::kInt64)}};
      if (p == kI32 || r.P(1, 2)) types.push_back({'p', p, s.at(p)});
    }
    types.push_back({'o', 0, DataItem(schema::kObject)});
    if (itemids && r.P(1, 2)) types.push_back({'i', 0, DataItem(schema::kItemId)});
    if (schemas_as_values && r.P(1, 3)) types.push_back({'S', 0, DataItem(schema::kSchema)});
    const int ents = r.In(1, 4);
    std::vector<int> e;
    for (int i = 0; i < ents; ++i) {
      e.push_back(types.size());
      types.push_back({'e', 0, DataItem(r.P(1, 2) ? AllocateExplicitSchema() : AllocateExplicitSchemas(r.In(1, 4)).ObjectByOffset(0))});
    }
    for (int i = r.In(0, 4); i > 0; --i) {
      if (r.P(1, 2)) {
        const int a = AnyType();
        Ty t{'l', 0, r.P(2, 3) ? CreateListSchemaId(types[a].schema) : DataItem(AllocateExplicitSchema())};
        t.a = a;
        SetSchema(t.schema, std::string(sa::kListItemsSchemaAttr), types[a].schema);
        types.push_back(t);
      } else {
        const int a = Type([&](const Ty& t) { return (t.kind == 'p' && t.prim != kF64) || (object_keys && t.kind == 'e'); }), b = AnyType();
        Ty t{'d', 0, r.P(2, 3) ? CreateDictSchemaId(types[a].schema, types[b].schema) : DataItem(AllocateExplicitSchema())};
        t.a = a;
        t.b = b;
        SetSchema(t.schema, std::string(sa::kDictKeysSchemaAttr), types[a].schema);
        SetSchema(t.schema, std::string(sa::kDictValuesSchemaAttr), types[b].schema);
        types.push_back(t);
      }
    }
    if (nofollow && r.P(1, 4)) {
      const int a = r.Of(e);
      Ty t{'n', 0, DataItem(CreateNoFollowWithMainObject(types[a].schema.value<ObjectId>()))};
      t.a = a;
      types.push_back(t);
    }
    for (int i : e) {
      for (int k = r.In(0, 4); k > 0; --k) {
        const std::string n = absl::StrCat(std::string(1, 'a' + r.Below(6)));
        if (std::any_of(types[i].attrs.begin(), types[i].attrs.end(), [&](auto& x) { return x.first == n; })) continue;
        const int t = r.Below(types.size());
        types[i].attrs.push_back({n, t});
        SetSchema(types[i].schema, n, types[t].schema);
      }
      if (meta && r.P(1, 4)) SetSchema(types[i].schema, std::string(sa::kSchemaNameAttr), DataItem(arolla::Text("name")));
      if (meta && r.P(1, 5)) {
        const DataItem m = GET(CreateUuidWithMainObject(types[i].schema, sa::kMetadataSeed));
        const DataItem ms = GET(CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(m, sa::kImplicitSchemaSeed));
        SetSchema(types[i].schema, std::string(sa::kSchemaMetadataAttr), m);
        REQUIRE_OK(Some().SetAttr(m, sa::kSchemaAttr, ms));
        SetSchema(ms, "note", DataItem(schema::kString));
        REQUIRE_OK(Some().SetAttr(m, "note", DataItem(arolla::Text("about it"))));
        Count("metadata");
      }
    }
    // An attribute whose schema only an earlier bag knows otherwise.
    if (bags.size() > 1 && r.P(1, 3)) {
      const int i = r.Of(e);
      if (!types[i].attrs.empty()) {
        REQUIRE_OK(bags[0]->SetSchemaAttr(types[i].schema, types[i].attrs[0].first, types[types[i].attrs[0].second].schema));
        REQUIRE_OK(bags[1]->SetSchemaAttr(types[i].schema, types[i].attrs[0].first, DataItem(schema::kItemId)));
      }
    }
  }
  void MakeNodes() {
    for (int k = r.In(1, 6); k > 0; --k) {
      const int main = Type([&](const Ty& t) { return t.kind == 'e' || t.kind == 'l' || t.kind == 'd'; });
      const char kind = types[main].kind;
      Alloc a = MakeAlloc(r, kind, r.P(1, 3) ? 1 : r.In(1, max_alloc));
      if (r.P(1, 6)) {  // named by content
        const DataItem o(a.id.ObjectByOffset(0));
        DataItem named = GET(CreateUuidWithMainObject<ObjectId::kUuidFlag>(o, "named"));
        if (kind != 'e') {
          named = DataItem(CreateUuidObject(StableFingerprintHasher("named").Combine(o.StableFingerprint()).Finish(), kind == 'l' ? UuidType::kList : UuidType::kDict));
          a.size = 1;
        }
        const AllocationId id(named.value<ObjectId>());
        Names()[id] = Names()[a.id] + "u";
        a.id = id;
        Count("named_by_content");
      }
      const bool mixed = r.P(1, 3), with_schema = r.P(3, 5);
      const bool own = kind == 'e' && r.P(1, 3);
      allocs.emplace_back();
      std::vector<std::pair<std::string, int>> shape;  // of all, if they have schemas of their own
      std::map<std::string, int> same;
      for (const auto& o : a.objs()) {
        NodeOf n{o, mixed ? Type([&](const Ty& t) { return t.kind == kind; }) : main, with_schema};
        if (own) {
          n.type = -1;
          n.own_set = n.has_schema = true;
          if (shape.empty() || r.P(1, 4)) {
            shape.clear();
            for (char c = 'a'; c < 'f'; ++c) {
              if (r.P(1, 2)) continue;
              const std::string name(1, c);
              int t = r.Below(types.size());
              if (same.count(name) && r.P(2, 3)) t = same[name];
              same[name] = t;
              shape.push_back({name, t});
            }
          }
          n.own = shape;
        }
        allocs.back().push_back(nodes.size());
        nodes.push_back(n);
      }
      // Their schemas.
      if (own) {
        std::vector<DataItem> os;
        for (int i : allocs.back()) os.push_back(DataItem(nodes[i].id));
        const DataSliceImpl ids = Slice(os);
        const DataSliceImpl schemas = GET(CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(ids, sa::kImplicitSchemaSeed));
        REQUIRE_OK(Some().SetAttr(ids, sa::kSchemaAttr, schemas));
        for (size_t i = 0; i < os.size(); ++i)
          for (auto& [n, t] : nodes[allocs.back()[i]].own) REQUIRE_OK(Some().SetSchemaAttr(schemas[i], n, types[t].schema));
      } else if (with_schema) {
        std::vector<DataItem> os, ss;
        for (int i : allocs.back()) { os.push_back(DataItem(nodes[i].id)); ss.push_back(types[nodes[i].type].schema); }
        REQUIRE_OK(Some().SetAttr(Slice(os), sa::kSchemaAttr, Slice(ss)));
      }
    }
  }
  // A value of a type for a node; -1 for a root.
  DataItem Value(int type, int of) {
    const Ty& t = types[type];
    if (r.P(1, 8)) return DataItem();
    const size_t from = dag ? of + 1 : 0;
    auto pick = [&](auto ok) {
      for (int tries = 0; tries < 12 && from < nodes.size(); ++tries) {
        const NodeOf& n = nodes[from + r.Below(nodes.size() - from)];
        if (ok(n)) return DataItem(n.id);
      }
      return DataItem();
    };
    switch (t.kind) {
      case 'p': return RandOf(r, t.prim, {});
      case 'i': return DataItem(nodes[r.Below(nodes.size())].id);
      case 'S': return r.P(1, 3) ? DataItem(schema::kInt32) : types[Type([](const Ty& t) { return t.kind == 'e' || t.kind == 'l' || t.kind == 'd'; })].schema;
      case 'o': return r.P(1, 3) ? RandOf(r, r.Of<int>({kI32, kText, kBool}), {}) : pick([](const NodeOf& n) { return n.has_schema; });
      case 'n': return pick([&](const NodeOf& n) { return n.type == t.a; });
      default: return pick([&](const NodeOf& n) { return n.type == type; });
    }
  }
  const std::vector<std::pair<std::string, int>>& AttrsOf(const NodeOf& n) const { return n.own_set ? n.own : types[n.type].attrs; }
  void Fill() {
    for (auto& al : allocs) {
      // Attributes: of all at once, or one by one, in whichever bags.
      std::set<std::string> names;
      for (int i : al) if (nodes[i].own_set || types[nodes[i].type].kind == 'e') for (auto& [n, t] : AttrsOf(nodes[i])) names.insert(n);
      for (const auto& n : names) {
        const int rounds = r.In(1, 2);
        for (int k = 0; k < rounds; ++k) {
          const bool all = r.P(1, 2);
          std::vector<DataItem> os, vs;
          for (int i : al) {
            if (!nodes[i].own_set && types[nodes[i].type].kind != 'e') continue;
            int t = -1;
            for (auto& [m, ty] : AttrsOf(nodes[i])) if (m == n) t = ty;
            if (t < 0 && !(all && r.P(1, 2))) continue;
            if (!all && r.P(1, 2)) continue;
            os.push_back(DataItem(nodes[i].id));
            vs.push_back(t < 0 ? DataItem() : Value(t, i));
          }
          if (os.empty()) continue;
          DataBagImpl& b = Some();
          if (os.size() > 3 || r.P(1, 2)) REQUIRE_OK(b.SetAttr(Slice(os), n, Slice(vs)));
          else for (size_t j = 0; j < os.size(); ++j) REQUIRE_OK(b.SetAttr(os[j], n, vs[j]));
        }
      }
      for (int i : al) {
        const NodeOf& n = nodes[i];
        const DataItem o(n.id);
        if (r.P(1, 6)) REQUIRE_OK(Some().SetAttr(o, "junk", DataItem(n.id)));
        if (n.own_set) continue;
        const Ty& t = types[n.type];
        if (t.kind == 'l' && r.P(5, 6)) {
          std::vector<DataItem> v;
          for (int k = r.In(0, 4); k > 0; --k) v.push_back(Value(t.a, i));
          REQUIRE_OK(Some().ExtendList(o, Slice(v)));
        }
        if (t.kind == 'd' && r.P(5, 6)) {
          bool had = false;
          for (int k = r.In(0, 4); k > 0; --k) {
            const DataItem key = Value(t.a, i);
            if (!key.has_value()) continue;
            if (key.holds_value<ObjectId>() && had) continue;
            had |= key.holds_value<ObjectId>();
            REQUIRE_OK(Some().SetInDict(o, key, Value(t.b, i)));
          }
        }
      }
    }
  }
  void Make() {
    bags.push_back(DataBagImpl::CreateEmptyDatabag());
    for (int k = r.P(1, 2) ? 0 : r.In(1, 2); k > 0; --k) bags.push_back(DataBagImpl::CreateEmptyDatabag());
    MakeTypes();
    MakeNodes();
    Fill();
    if (r.P(1, 3)) bags[0] = DataBagImplPtr(bags[0]->PartiallyPersistentFork());
    if (bags.size() > 1 && r.P(1, 4)) bags[1] = DataBagImplPtr(bags[1]->PartiallyPersistentFork());
  }
  // A slice with its schema.
  std::pair<std::vector<DataItem>, DataItem> Root() {
    std::vector<DataItem> v;
    switch (r.Below(6)) {
      case 0: case 1: {  // a whole allocation, in order
        const auto& al = r.Of(allocs);
        const NodeOf& n = nodes[al[0]];
        bool same = !n.own_set;
        for (int i : al) same &= nodes[i].type == n.type;
        if (n.has_schema && (!same || r.P(1, 2))) {
          for (int i : al) v.push_back(DataItem(nodes[i].id));
          return {v, DataItem(schema::kObject)};
        }
        if (same) {
          for (int i : al) v.push_back(DataItem(nodes[i].id));
          return {v, types[n.type].schema};
        }
        break;
      }
      case 2: {
        if (!schemas_as_values || r.P(2, 3)) break;
        for (int k = r.In(1, 4); k > 0; --k) v.push_back(types[Type([](const Ty& t) { return t.kind != 'n'; })].schema);
        return {v, DataItem(schema::kSchema)};
      }
      default: break;
    }
    const int t = Type([&](const Ty& t) { return t.kind == 'e' || t.kind == 'l' || t.kind == 'd' || t.kind == 'o'; });
    const int saved = r.In(1, 8);
    const bool d = dag;
    dag = false;
    for (int k = saved; k > 0; --k) v.push_back(Value(t, -1));
    dag = d;
    return {v, types[t].schema};
  }
};
std::string Diff(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  const size_t from = i > 150 ? i - 150 : 0;
  return absl::StrCat("differ at ", i, ": ", a.substr(from, 400), "  |||  ", b.substr(from, 400), (a.size() < 3000 ? "  FULL " + a + "  |||  " + b.substr(0, 4000) : std::string()));
}
// What is in a bag must be within what was reached.
void OnlyReached(const DataBagImpl& bag, const Canon& c, const char* what) {
  auto in = GET(bag.ExtractContent());
  for (auto& [name, ac] : in.attrs) {
    auto one = [&](ObjectId o, const DataItem& v) {
      if (o.IsSchema() ? !c.schema_attrs.count({o, name}) : !c.attrs.count({o, name})) Fail(absl::StrCat(what, ": attribute ", name, " of ", DataItem(o), " (", drv::Str(v), ") is not reachable"));
    };
    for (auto& x : ac.items) if (x.value.has_value()) one(x.object_id, x.value);
    for (auto& x : ac.allocs) for (size_t i = 0; i < x.values.size(); ++i) if (x.values[i].has_value()) one(x.alloc_id.ObjectByOffset(i), x.values[i]);
  }
  for (auto& l : in.lists) {
    for (int64_t i = 0; i < l.lists_to_values_edge.parent_size(); ++i)
      if (!(i < static_cast<int64_t>(l.unset_lists.size()) && l.unset_lists[i]) && !c.lists.count(l.alloc_id.ObjectByOffset(i))) Fail(absl::StrCat(what, ": list ", DataItem(l.alloc_id.ObjectByOffset(i)), " is not reachable"));
  }
  for (auto& d : in.dicts) {
    if (d.dict_id.IsSchema()) {
      for (size_t i = 0; i < d.keys.size(); ++i) {
        if (!d.values[i].has_value() || d.values[i].holds_value<arolla::Unit>()) continue;  // a unit: the names of an allocation
        const std::string n(d.keys[i].value<arolla::Text>().view());
        if (!c.schema_attrs.count({d.dict_id, n})) Fail(absl::StrCat(what, ": attribute ", n, " of schema ", DataItem(d.dict_id), " (", drv::Str(d.values[i]), c.objects.count(d.dict_id) ? " of a reachable schema" : "", ") is not reachable"));
      }
    } else if (!c.dicts.count(d.dict_id)) {
      Fail(absl::StrCat(what, ": dict ", DataItem(d.dict_id), " is not reachable"));
    }
  }
}
DataItem Walk(const View& v, const std::vector<DataItem>& roots, const DataItem& root_schema, const std::vector<TH::TransitionKey>& path, DataItem* schema, bool* there = nullptr);
}  // namespace

// The bag of the same: written to after an operator made a copy.
static void Disturb(Graph& g) {
  for (auto& b : g.bags) {
    for (const auto& n : g.nodes) {
      const DataItem o(n.id);
      if (g.r.P(1, 2)) REQUIRE_OK(b->SetAttr(o, std::string(1, 'a' + g.r.Below(6)), DataItem(arolla::Text("disturbed"))));
      if (n.id.IsList() && g.r.P(1, 2)) REQUIRE_OK(b->AppendToList(o, DataItem(arolla::Text("disturbed"))));
      if (n.id.IsDict() && g.r.P(1, 2)) REQUIRE_OK(b->SetInDict(o, DataItem(arolla::Text("disturbed")), DataItem(1)));
    }
  }
}

CASE(extract) {
  Graph g(r);
  g.Make();
  const View v = g.view();
  for (int k = r.In(1, 3); k > 0; --k) {
    auto [roots, schema] = g.Root();
    const Canon want(v, roots, schema, false);
    Distinct(Hash(want.out));
    Log(absl::StrCat("extract ", drv::Str(roots), " of schema ", drv::Str(schema), " with ", v.fb.size(), " fallbacks"));
    auto to = DataBagImpl::CreateEmptyDatabag();
    const bool frozen = r.P(1, 3);
    if (frozen) for (auto& b : g.bags) b->Freeze();
    if (roots.size() == 1 && r.P(1, 2)) REQUIRE_OK(ExtractOp(to.get())(roots[0], schema, *v.bag, v.fb, nullptr, {}));
    else REQUIRE_OK(ExtractOp(to.get())(Slice(roots), schema, *v.bag, v.fb, nullptr, {}));
    const View ev{to.get(), {}};
    {
      const Canon got(ev, roots, schema, false);
      if (got.out != want.out) Fail(Diff(want.out, got.out));
      Count("objects", got.objects.size());
    }
    OnlyReached(*to, want, "the extracted bag");
    // The whole again, from what was extracted.
    auto again = DataBagImpl::CreateEmptyDatabag();
    REQUIRE_OK(ExtractOp(again.get())(Slice(roots), schema, *to, {}, nullptr, {}));
    { const Canon got(View{again.get(), {}}, roots, schema, false); if (got.out != want.out) Fail("extracted twice: " + Diff(want.out, got.out)); }
    if (!frozen && k == 1 && r.P(1, 2)) {
      Disturb(g);
      const Canon got(ev, roots, schema, false);
      if (got.out != want.out) Fail("a write to the bag shows in what was extracted: " + Diff(want.out, got.out));
      Count("disturbed");
    }
    if (frozen) break;
  }
}

CASE(clone) {
  Graph g(r);
  g.nofollow = false;
  g.Make();
  const View v = g.view();
  auto [roots, schema] = g.Root();
  if (schema == schema::kSchema) return;
  const Canon want(v, roots, schema, true), orig(v, roots, schema, false);
  Distinct(Hash(want.out));
  Log(absl::StrCat("clone ", drv::Str(roots), " of schema ", drv::Str(schema), " with ", v.fb.size(), " fallbacks"));
  auto to = DataBagImpl::CreateEmptyDatabag();
  std::vector<DataItem> res;
  if (roots.size() == 1 && r.P(1, 2)) res = {GET(DeepCloneOp(to.get())(roots[0], schema, *v.bag, v.fb))};
  else res = Items(GET(DeepCloneOp(to.get())(Slice(roots), schema, *v.bag, v.fb)));
  const View cv{to.get(), {}};
  const Canon got(cv, res, schema, true), by_id(cv, res, schema, false);
  if (got.out != want.out) Fail(Diff(want.out, got.out));
  // Metadata of schemas that are not cloned stay theirs, with the schema.
  std::set<ObjectId> shared;
  for (const auto& o : by_id.objects) {
    if (!o.IsSchema() || o.IsImplicitSchema()) continue;
    const DataItem m = GET(to->GetSchemaAttrAllowMissing(DataItem(o), sa::kSchemaMetadataAttr));
    if (!m.holds_value<ObjectId>() || !m.value<ObjectId>().IsUuid()) continue;
    shared.insert(m.value<ObjectId>());
    const DataItem s = GET(to->GetAttr(m, sa::kSchemaAttr));
    if (s.holds_value<ObjectId>()) shared.insert(s.value<ObjectId>());
  }
  for (const auto& o : by_id.objects) {
    if ((o.IsSchema() && !o.IsImplicitSchema()) || shared.count(o)) continue;
    if (orig.objects.count(o)) Fail(absl::StrCat("object ", DataItem(o), " is in the clone as well"));
  }
  // Schemas of a single object are still those of the object.
  for (const auto& o : by_id.objects) {
    if (o.IsSchema() || o.IsList() || o.IsDict()) continue;
    const DataItem s = GET(to->GetAttr(DataItem(o), sa::kSchemaAttr));
    if (!s.has_value() || !s.is_implicit_schema()) continue;
    const DataItem should = GET(CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(DataItem(o), sa::kImplicitSchemaSeed));
    REQUIRE(Same(s, should), "the schema of ", DataItem(o), " is ", drv::Str(s), ", not the one that belongs to it");
    Count("implicit_schemas");
  }
  OnlyReached(*to, by_id, "the clone");
  Count("objects", by_id.objects.size());
  if (r.P(1, 3)) {
    Disturb(g);
    const Canon after(cv, res, schema, true);
    if (after.out != want.out) Fail("a write to the bag shows in the clone: " + Diff(want.out, after.out));
  }
}

CASE(shallow) {
  Graph g(r);
  g.nofollow = false;
  g.Make();
  const View v = g.view();
  auto [roots, schema] = g.Root();
  if (schema == schema::kSchema) return;
  if (schema == schema::kObject) {  // primitives have no clones of their own
    for (auto& x : roots) if (!x.holds_value<ObjectId>()) x = DataItem();
  }
  if (std::none_of(roots.begin(), roots.end(), [](const DataItem& x) { return x.has_value(); })) return;
  Log(absl::StrCat("shallow clone of ", drv::Str(roots), " of schema ", drv::Str(schema), " with ", v.fb.size(), " fallbacks"));
  const DataSliceImpl ids = NewIdsLike(Slice(roots));
  auto to = DataBagImpl::CreateEmptyDatabag();
  auto [rs, rschema] = GET(ShallowCloneOp(to.get())(Slice(roots), ids, schema, *v.bag, v.fb, nullptr, {}));
  const auto res = Items(rs);
  REQUIRE(res.size() == roots.size());
  const View cv{to.get(), {}};
  std::set<ObjectId> fresh;
  for (size_t i = 0; i < roots.size(); ++i) {
    REQUIRE(res[i].has_value() == roots[i].has_value(), "item ", i);
    if (!roots[i].has_value()) continue;
    REQUIRE(Same(res[i], ids[i]), "item ", i, " is ", drv::Str(res[i]), ", not ", drv::Str(ids[i]));
    DataItem s0 = schema, s1 = rschema;
    if (schema == schema::kObject) {
      REQUIRE(rschema == schema::kObject);
      s0 = v.ObjSchema(roots[i]);
      s1 = cv.ObjSchema(res[i]);
      REQUIRE(s1.has_value(), "the clone of ", drv::Str(roots[i]), " has no schema");
    }
    if (s0.is_implicit_schema()) {
      const DataItem should = GET(CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(res[i], sa::kImplicitSchemaSeed));
      REQUIRE(Same(s1, should), "the schema of the clone is ", drv::Str(s1), ", not the one that belongs to it");
    } else {
      REQUIRE(Same(s0, s1), "the schema of the clone is ", drv::Str(s1), ", not ", drv::Str(s0));
    }
    auto m0 = v.Schema(s0), m1 = cv.Schema(s1);
    for (auto* m : {&m0, &m1}) for (auto n : {sa::kSchemaNameAttr, sa::kSchemaMetadataAttr}) m->erase(std::string(n));
    REQUIRE(m0.size() == m1.size(), "the schema of the clone of ", drv::Str(roots[i]), " has ", m1.size(), " attributes, not ", m0.size());
    for (auto& [n, t] : m0) {
      REQUIRE(m1.count(n) && Same(m1[n], t), "attribute ", n, " of the schema of the clone");
      if (n == sa::kListItemsSchemaAttr) {
        REQUIRE(drv::Str(v.List(roots[i])) == drv::Str(cv.List(res[i])), drv::Str(v.List(roots[i])), " ", drv::Str(cv.List(res[i])));
      } else if (n == sa::kDictValuesSchemaAttr) {
        std::set<std::string> a, b;
        for (auto& k : v.Keys(roots[i])) a.insert(absl::StrCat(drv::Str(k), "=", drv::Str(v.Value(roots[i], k))));
        for (auto& k : cv.Keys(res[i])) b.insert(absl::StrCat(drv::Str(k), "=", drv::Str(cv.Value(res[i], k))));
        REQUIRE(a == b, "the items of the clone of dict ", drv::Str(roots[i]));
      } else if (n != sa::kDictKeysSchemaAttr) {
        const DataItem x = v.Attr(roots[i], n), y = cv.Attr(res[i], n);
        REQUIRE(Same(x, y), "attribute ", n, " of the clone of ", drv::Str(roots[i]), " is ", drv::Str(y), ", not ", drv::Str(x));
      }
      Count("attributes");
    }
    fresh.insert(res[i].value<ObjectId>());
  }
  Distinct(Hash(Canon(v, roots, schema, true).out));
}

namespace {
// The value alone: equal texts exactly if the same by value.
struct ByValue {
  const View& v;
  std::map<std::string, std::string> memo;
  std::set<std::string> busy;
  bool cycle = false;
  std::string Text(const DataItem& x, const DataItem& schema) {
    if (!x.has_value()) return "-";
    if (!x.holds_value<ObjectId>() || schema == schema::kItemId) return x.holds_value<ObjectId>() ? absl::StrCat(x) : drv::Str(x);
    const std::string key = absl::StrCat(x, " as ", schema);
    if (auto it = memo.find(key); it != memo.end()) return it->second;
    if (!busy.insert(key).second) { cycle = true; return "cycle"; }
    DataItem s = schema == schema::kObject ? v.ObjSchema(x) : schema;
    const auto m = v.Schema(s);
    std::string out;
    if (IsList(m)) {
      out = "[";
      for (const auto& y : v.List(x)) out += Text(y, m.at(std::string(sa::kListItemsSchemaAttr))) + " ";
      out += "]";
    } else if (IsDict(m)) {
      std::set<std::string> t;
      for (const auto& k : v.Keys(x)) t.insert(Text(k, m.at(std::string(sa::kDictKeysSchemaAttr))) + ":" + Text(v.Value(x, k), m.at(std::string(sa::kDictValuesSchemaAttr))));
      out = "{";
      for (const auto& e : t) out += e + " ";
      out += "}";
    } else {
      out = "(";
      for (auto& [n, t] : m) if (!Meta(n)) {
        const DataItem y = v.Attr(x, n);  // of itself it may be an attribute
        out += n + "=" + (y.holds_value<ObjectId>() && Same(y, x) && t != schema::kItemId ? "itself" : Text(y, t)) + " ";
      }
      out += ")";
    }
    busy.erase(key);
    if (out.size() > 100) out = absl::StrCat("#", Hash(out), "/", out.size(), "/", Hash(out + "x"));
    return memo[key] = out;
  }
};

DataItem Walk(const View& v, const std::vector<DataItem>& roots, const DataItem& root_schema, const std::vector<TH::TransitionKey>& path, DataItem* schema, bool* there) {
  DataItem x, s = root_schema;
  if (there) *there = true;
  auto absent = [&] { if (there) *there = false; else Fail("a path that leads nowhere"); return DataItem(); };
  for (size_t i = 0; i < path.size(); ++i) {
    const auto& k = path[i];
    if (k.type == TT::kSliceItem) {
      REQUIRE(i == 0, "an item of the slice in the middle of a path");
      if (k.index < 0) { REQUIRE(roots.size() == 1, "no index"); x = roots[0]; continue; }
      if (k.index >= static_cast<int64_t>(roots.size())) return absent();
      x = roots[k.index];
      continue;
    }
    if (k.type == TT::kSchema) { x = s; s = DataItem(schema::kSchema); continue; }
    if (k.type == TT::kObjectSchema) { x = v.ObjSchema(x); s = DataItem(schema::kSchema); continue; }
    if (k.type == TT::kSchemaAttributeName) {
      const std::string n(k.value.value<arolla::Text>().view());
      auto m = v.Schema(x);
      if (!m.count(n)) return absent();
      x = m[n];
      s = n == sa::kSchemaNameAttr ? DataItem(schema::kString) : n == sa::kSchemaMetadataAttr ? DataItem(schema::kObject) : DataItem(schema::kSchema);
      continue;
    }
    if (!x.holds_value<ObjectId>()) return absent();
    if (s == schema::kObject) s = v.ObjSchema(x);
    auto m = v.Schema(s);
    switch (k.type) {
      case TT::kListItem: {
        if (!IsList(m)) return absent();
        const auto l = v.List(x);
        if (k.index >= static_cast<int64_t>(l.size())) return absent();
        x = l[k.index];
        s = m[std::string(sa::kListItemsSchemaAttr)];
        break;
      }
      case TT::kDictKey: case TT::kDictValue: {
        if (!IsDict(m)) return absent();
        DataItem key = k.value;
        const auto keys = v.Keys(x);
        if (std::none_of(keys.begin(), keys.end(), [&](const DataItem& y) { return Same(y, key); })) return absent();
        if (k.type == TT::kDictKey) { x = key; s = m[std::string(sa::kDictKeysSchemaAttr)]; }
        else { x = v.Value(x, key); s = m[std::string(sa::kDictValuesSchemaAttr)]; }
        break;
      }
      case TT::kAttributeName: {
        const std::string n(k.value.value<arolla::Text>().view());
        if (!m.count(n)) return absent();
        x = v.Attr(x, n);
        s = m[n];
        break;
      }
      case TT::kListNoItems: if (!IsList(m)) return absent(); x = DataItem(); s = m[std::string(sa::kListItemsSchemaAttr)]; break;
      case TT::kDictNoKeys: if (!IsDict(m)) return absent(); x = DataItem(); s = m[std::string(sa::kDictKeysSchemaAttr)]; break;
      case TT::kDictNoValues: if (!IsDict(m)) return absent(); x = DataItem(); s = m[std::string(sa::kDictValuesSchemaAttr)]; break;
      default: Fail("a step of a path that is of no known kind");
    }
  }
  if (schema) *schema = s;
  return x;
}
std::string PathStr(const std::vector<TH::TransitionKey>& p) { return TH::TransitionKeySequenceToAccessPath(p); }
}  // namespace

CASE(deepuuid) {
  Graph g(r);
  g.nofollow = g.meta = g.schemas_as_values = g.object_keys = false;
  g.itemids = r.P(1, 2);
  g.dag = r.P(4, 5);
  g.max_alloc = 8;
  g.Make();
  const View v = g.view();
  const std::string seed = r.P(1, 2) ? "" : "a seed";
  const DataItem seed_item = seed.empty() && r.P(1, 2) ? DataItem() : DataItem(arolla::Text(seed));
  std::map<std::string, std::string> by_text, by_uuid;  // both ways
  for (int k = r.In(2, 5); k > 0; --k) {
    auto [roots, schema] = g.Root();
    ByValue bv{v};
    std::vector<std::string> want;
    for (const auto& x : roots) want.push_back(bv.Text(x, schema));
    Log(absl::StrCat("deep uuid of ", drv::Str(roots), " of schema ", drv::Str(schema), " seed ", seed, (bv.cycle ? " with a cycle" : "")));
    auto res = DeepUuidOp()(seed_item, Slice(roots), schema, *v.bag, v.fb);
    if (bv.cycle) { REQUIRE(!res.ok(), "a value with a cycle has a uuid"); Count("cycles"); continue; }
    REQUIRE(res.ok(), std::string(res.status().message()));
    for (size_t i = 0; i < roots.size(); ++i) {
      const DataItem u = (*res)[i];
      REQUIRE(u.holds_value<ObjectId>(), "item ", i, " has no uuid");
      REQUIRE(u.value<ObjectId>().IsUuid(), "what is given for item ", i, " is not an id made from content");
      if (roots[i].holds_value<ObjectId>()) {
        REQUIRE(u.value<ObjectId>().IsList() == roots[i].value<ObjectId>().IsList() && u.value<ObjectId>().IsDict() == roots[i].value<ObjectId>().IsDict(), "of another kind");
      }
      const std::string us = absl::StrCat(u);
      if (auto [it, fresh] = by_text.emplace(want[i], us); !fresh && it->second != us) Fail(absl::StrCat("two uuids for one value: ", want[i]));
      if (auto [it, fresh] = by_uuid.emplace(us, want[i]); !fresh && it->second != want[i]) Fail(absl::StrCat("one uuid for two values: ", want[i], " and ", it->second));
      Distinct(Hash(want[i] + seed));
      Count("uuids");
    }
    // Of a clone they are the same.
    if (r.P(1, 3)) {
      auto to = DataBagImpl::CreateEmptyDatabag();
      const DataSliceImpl c = GET(DeepCloneOp(to.get())(Slice(roots), schema, *v.bag, v.fb));
      const DataSliceImpl cu = GET(DeepUuidOp()(seed_item, c, schema, *to));
      for (size_t i = 0; i < roots.size(); ++i) REQUIRE(Same(cu[i], (*res)[i]), "the uuid of a clone is another one");
      Count("clones");
    }
    // With another seed they are others.
    const DataSliceImpl other = GET(DeepUuidOp()(DataItem(arolla::Text("other")), Slice(roots), schema, *v.bag, v.fb));
    for (size_t i = 0; i < roots.size(); ++i) REQUIRE(!Same(other[i], (*res)[i]), "the seed makes no difference");
  }
}

CASE(finder) {
  Graph g(r);
  g.Make();
  const View v = g.view();
  auto [roots, schema] = g.Root();
  const Canon want(v, roots, schema, false);
  Distinct(Hash(want.out));
  Log(absl::StrCat("find from ", drv::Str(roots), " of schema ", drv::Str(schema)));
  std::set<ObjectId> found;
  ObjectFinder f(*v.bag, v.fb);
  const auto st = f.TraverseSlice(Slice(roots), schema, [&](const DataItem& item, const DataItem& s, absl::FunctionRef<std::vector<TH::TransitionKey>()> path) {
    if (item.holds_value<ObjectId>() && s != schema::kItemId) found.insert(item.value<ObjectId>());
    if (g.r.P(1, 4)) {
      const auto p = path();
      DataItem ws;
      const DataItem got = Walk(v, roots, schema, p, &ws);
      REQUIRE(Same(got, item), "the path ", PathStr(p), " leads to ", drv::Str(got), ", not ", drv::Str(item));
      Count("paths");
    }
    return absl::OkStatus();
  });
  REQUIRE(st.ok(), std::string(st.message()));
  for (const auto& o : want.objects) {
    if (o.IsSchema() && o.IsNoFollowSchema()) continue;
    REQUIRE(found.count(o), DataItem(o), " is reachable and was not found");
  }
  for (const auto& o : found) REQUIRE(want.objects.count(o), DataItem(o), " was found and is not reachable");
  Count("found", found.size());
}

namespace {
// Whether two are the same by value, cycles and all. Where they are not, sets why.
struct Bisim {
  const View &a, &b;
  std::set<std::string> assumed;
  std::vector<std::string> why;
  bool unclear = false;  // missing items at the end of a list, or under a key: not said
  void Differ(const std::string& path, const std::string& what) { why.push_back(path + ": " + what); }
  void Go(const DataItem& x, const DataItem& sx, const DataItem& y, const DataItem& sy, const std::string& path, int depth) {
    const bool ox = x.holds_value<ObjectId>(), oy = y.holds_value<ObjectId>();
    if (!ox || !oy) {
      const bool nan = x.is_nan() && y.is_nan();
      if (!nan && !Same(x, y)) Differ(path, drv::Str(x) + " and " + drv::Str(y));
      return;
    }
    if (sx == schema::kItemId || sy == schema::kItemId) { if (!Same(x, y) || !Same(sx, sy)) Differ(path, "other ids"); return; }
    const ObjectId i = x.value<ObjectId>(), j = y.value<ObjectId>();
    if (i.IsList() != j.IsList() || i.IsDict() != j.IsDict() || i.IsSchema() != j.IsSchema()) { Differ(path, "other kinds"); return; }
    if (!assumed.insert(absl::StrCat(x, sx, y, sy)).second) return;
    if (i.IsSchema()) { if (!Same(x, y)) unclear = true; return; }
    const DataItem tx = sx == schema::kObject ? a.ObjSchema(x) : sx, ty = sy == schema::kObject ? b.ObjSchema(y) : sy;
    const auto mx = a.Schema(tx), my = b.Schema(ty);
    const std::string li(sa::kListItemsSchemaAttr), dk(sa::kDictKeysSchemaAttr), dv(sa::kDictValuesSchemaAttr);
    if (IsList(mx) != IsList(my) || IsDict(mx) != IsDict(my)) { unclear = true; return; }
    if (IsList(mx)) {
      const auto lx = a.List(x), ly = b.List(y);
      for (size_t k = 0; k < std::max(lx.size(), ly.size()); ++k) {
        const std::string p = absl::StrCat(path, "[", k, "]");
        if (k < lx.size() && k < ly.size()) Go(lx[k], mx.at(li), ly[k], my.at(li), p, depth + 1);
        else if ((k < lx.size() ? lx[k] : ly[k]).has_value()) Differ(p, "longer");
        else unclear = true;
      }
    } else if (IsDict(mx)) {
      const auto kx = a.Keys(x), ky = b.Keys(y);
      auto has = [](const std::vector<DataItem>& v, const DataItem& k) { return std::any_of(v.begin(), v.end(), [&](const DataItem& z) { return Same(z, k); }); };
      for (const auto& k : kx) {
        const std::string p = absl::StrCat(path, "{", drv::Str(k), "}");
        if (has(ky, k)) { Go(k, mx.at(dk), k, my.at(dk), p + "key", depth + 1); Go(a.Value(x, k), mx.at(dv), b.Value(y, k), my.at(dv), p, depth + 1); }
        else if (a.Value(x, k).has_value()) Differ(p, "left only");
        else unclear = true;
      }
      for (const auto& k : ky) {
        if (has(kx, k)) continue;
        if (b.Value(y, k).has_value()) Differ(absl::StrCat(path, "{", drv::Str(k), "}"), "right only");
        else unclear = true;
      }
    } else {
      std::set<std::string> ns;
      for (auto& [n, t] : mx) if (!Meta(n)) ns.insert(n);
      for (auto& [n, t] : my) if (!Meta(n)) ns.insert(n);
      for (const auto& n : ns) {
        const std::string p = absl::StrCat(path, ".", n);
        if (mx.count(n) && my.count(n)) Go(a.Attr(x, n), mx.at(n), b.Attr(y, n), my.at(n), p, depth + 1);
        else if ((mx.count(n) ? a.Attr(x, n) : b.Attr(y, n)).has_value()) Differ(p, "one side only");
      }
    }
  }
};
}  // namespace

CASE(equivalent) {
  Graph g(r);
  g.nofollow = g.meta = g.schemas_as_values = g.object_keys = false;
  g.max_alloc = 8;
  g.Make();
  const View v = g.view();
  auto [roots, schema] = g.Root();
  if (schema == schema::kSchema) return;
  auto to = DataBagImpl::CreateEmptyDatabag();
  const auto other = Items(GET(DeepCloneOp(to.get())(Slice(roots), schema, *v.bag, v.fb)));
  const View cv{to.get(), {}};
  std::string changed;
  const Canon c(cv, other, schema, false);
  std::vector<DataItem> rhs = other;
  DataItem rschema = schema;
  // Or with whatever else there is.
  const bool apart = r.P(1, 4);
  if (apart) {
    auto [rr, rs] = g.Root();
    if (rs == schema::kSchema) return;
    rhs = rr;
    rschema = rs;
    while (rhs.size() > roots.size()) rhs.pop_back();
    while (rhs.size() < roots.size()) roots.pop_back();
    changed = " all";
  }
  const View& rv = apart ? v : cv;
  for (int k = apart ? 0 : r.Below(4); k > 0; --k) {
    std::vector<std::pair<ObjectId, std::string>> at;
    for (auto& x : c.attrs) if (x.second != sa::kSchemaAttr) at.push_back(x);
    std::vector<ObjectId> ls(c.lists.begin(), c.lists.end()), ds(c.dicts.begin(), c.dicts.end());
    switch (r.Below(4)) {
      case 0: if (!at.empty()) {
        const auto& [o, n] = r.Of(at);
        const DataItem was = GET(to->GetAttr(DataItem(o), n));
        // Of the same type, so that it still is what its schema says.
        DataItem now;
        if (was.has_value() && !was.holds_value<ObjectId>() && r.P(3, 4)) now = was.holds_value<int32_t>() ? DataItem(was.value<int32_t>() ^ 64) : was.holds_value<arolla::Text>() ? DataItem(arolla::Text("changed")) : was.holds_value<bool>() ? DataItem(!was.value<bool>()) : DataItem();
        REQUIRE_OK(to->SetAttr(DataItem(o), n, now));
        absl::StrAppend(&changed, " ", DataItem(o), ".", n, "=", drv::Str(now));
        break;
      }
      [[fallthrough]];
      case 1: if (!ls.empty()) {
        const DataItem l(r.Of(ls));
        const auto items = cv.List(l);
        if (items.empty()) break;
        if (r.P(1, 2)) REQUIRE_OK(to->RemoveInList(l, DataBagImpl::ListRange(r.Below(items.size()), items.size())));
        else REQUIRE_OK(to->AppendToList(l, items[r.Below(items.size())]));
        absl::StrAppend(&changed, " ", l);
        break;
      }
      [[fallthrough]];
      case 2: if (!ds.empty()) {
        const DataItem d(r.Of(ds));
        const auto keys = cv.Keys(d);
        if (keys.empty()) break;
        REQUIRE_OK(to->SetInDict(d, r.Of(keys), DataItem()));
        absl::StrAppend(&changed, " ", d);
        break;
      }
      [[fallthrough]];
      default: if (rhs.size() > 1) {
        std::swap(rhs[r.Below(rhs.size())], rhs[r.Below(rhs.size())]);
        changed += " items swapped";
      }
    }
  }
  Bisim bi{v, rv};
  for (size_t i = 0; i < roots.size(); ++i) bi.Go(roots[i], schema, rhs[i], rschema, absl::StrCat("S", i), 0);
  Log(absl::StrCat("compare ", drv::Str(roots), " of schema ", drv::Str(schema), apart ? " with " : " with a clone ", drv::Str(rhs), " changed at", changed, ": ", bi.why.size(), " differences ", bi.why.empty() ? "" : bi.why[0], bi.unclear ? " (unclear)" : ""));
  auto db = DataBagImpl::CreateEmptyDatabag();
  DeepEquivalentOp op(db.get(), {});
  const DataSliceImpl res = GET(op(Slice(roots), schema, *v.bag, v.fb, Slice(rhs), rschema, *rv.bag, rv.fb));
  const auto diffs = GET(op.GetDiffPaths(res, DataItem(schema::kObject), 1000));
  Distinct(Hash(absl::StrCat(Canon(v, roots, schema, true).out, changed)));
  if (diffs.empty()) REQUIRE(bi.why.empty(), "no difference was found, and there is one");
  else REQUIRE(!bi.why.empty() || bi.unclear, "a difference was found, and there is none: ", PathStr(diffs[0].path));
  Count(diffs.empty() ? "equal" : "different");
  for (const auto& d : diffs) {
    bool tl = false, tr = false;
    DataItem sl, sr;
    const DataItem l = Walk(v, roots, schema, d.path, &sl, &tl), rr = Walk(rv, rhs, rschema, d.path, &sr, &tr);
    REQUIRE(tl || tr, "the path ", PathStr(d.path), " leads nowhere");
    if (tl && tr) {
      if (l.holds_value<ObjectId>() && rr.holds_value<ObjectId>()) {
        const ObjectId i = l.value<ObjectId>(), j = rr.value<ObjectId>();
        REQUIRE(i.IsList() != j.IsList() || i.IsDict() != j.IsDict() || sl == schema::kItemId, "the path ", PathStr(d.path), " leads to objects that are alike");
      } else {
        REQUIRE(!Same(l, rr), "the path ", PathStr(d.path), " leads to the same value ", drv::Str(l));
      }
    }
    Count("paths");
  }
}
}  // namespace drv
