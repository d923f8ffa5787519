// Slices with their bags: attributes, lists, dicts. Every answer of a slice is
// worked out from the model item by item.
#include "slicemodel.h"

namespace drv {
CASE(attrs) {
  World w(r);
  std::vector<Bag> bags(1);
  bags[0].db = DataBag::EmptyMutable();
  MakeWorld(w, bags[0]);
  const int steps = r.In(5, 25);
  for (int step = 0; step < steps; ++step) {
    const size_t bi = r.Below(bags.size());
    Bag& b = bags[bi];
    const std::string name = r.Of(w.names);
    const int op = r.Below(20);
    if (op < 8) {  // set
      const bool one = r.P(1, 4);
      Pick p = PickObjs(w, b, one && r.P(1, 2));
      std::optional<DataItem> narrow;
      if (!b.frozen && r.P(1, 6)) {
        // An object with a schema of its own beside one whose schema is shared
        // and has a wider type.
        const Chain own{{&b}};
        DataItem i, e, is, es;
        for (const auto& o : w.objs) {
          DataItem os;
          if (!ObjSchemaOf(own, DataItem(o), os)) continue;
          if (os.is_implicit_schema() ? !i.has_value() || r.P(1, 3) : !e.has_value() || r.P(1, 3)) (os.is_implicit_schema() ? i : e) = DataItem(o), (os.is_implicit_schema() ? is : es) = os;
        }
        if (i.has_value() && e.has_value()) {
          const Values numbers{Dt(schema::kInt32), Dt(schema::kInt64), Dt(schema::kFloat32), Dt(schema::kFloat64), Dt(schema::kObject)};
          const size_t lo = r.Below(numbers.size() - 1), hi = r.In(lo, numbers.size() - 1);
          Log(absl::StrCat("bag ", bi, ": schemas of ", name, " are ", drv::Str(numbers[lo]), " and ", drv::Str(numbers[hi])));
          REQUIRE_OK(Make({is}, {}, Dt(schema::kSchema), b.db).SetAttr(name, Make({numbers[lo]}, {}, Dt(schema::kSchema))));
          REQUIRE_OK(Make({es}, {}, Dt(schema::kSchema), b.db).SetAttr(name, Make({numbers[hi]}, {}, Dt(schema::kSchema))));
          b.schema[is.value<ObjectId>()][name] = numbers[lo];
          b.schema[es.value<ObjectId>()][name] = numbers[hi];
          p = Pick();
          p.schema = Dt(schema::kObject);
          p.v = {i, e};
          if (r.P(1, 2)) std::swap(p.v[0], p.v[1]);
          p.d = {{2}};
          narrow = r.P(3, 4) ? numbers[lo] : r.Of(numbers);
        }
      }
      DataItem stored = Chain{{&b}}.Schema(p.schema, name);
      if (IsObjectSchema(p.schema) && !p.v.empty()) {
        const DataItem x = r.Of(p.v);
        DataItem os;
        if (x.holds_value<ObjectId>() && ObjSchemaOf(Chain{{&b}}, x, os)) stored = Chain{{&b}}.Schema(os, name);
      }
      DataItem vs = stored.has_value() && r.P(1, 2) ? stored : w.RandSchema();
      if (narrow) vs = *narrow;
      Dims vd = p.d;
      if (one) vd.clear();
      else if (r.P(1, 4)) vd.resize(r.Below(vd.size() + 1));
      bool shape_ok = true;
      if (r.P(1, 25)) { vd = RandDims(r, r.In(0, 3), 3); shape_ok = IsPrefix(vd, p.d); }
      const Values v0 = w.ValuesOf(vs, DimsSize(vd), b, r.Of({0, 0, 30, 100}));
      const bool with_bag = r.P(1, 2), overwrite = r.P(1, 6);
      std::string log = absl::StrCat("bag ", bi, ": ", PickStr(p), ".", name, " = ", drv::Str(v0), " of ", drv::Str(vs), with_bag ? " with the bag" : "", overwrite ? ", overwriting" : "");
      Log(log);
      const absl::Status st = p.In(b.db).SetAttr(name, Make(v0, vd, vs, with_bag ? b.db : nullptr), overwrite);
      bool ok = shape_ok && !b.frozen;
      if (ok) {
        const auto par = Parents(p.d, vd.size());
        Values v;
        for (size_t i = 0; i < p.v.size(); ++i) v.push_back(v0[par[i]]);
        if (!IsDt(p.schema, schema::kNone)) {
          const Chain c{{&b}};
          ok = ModelSet(b, p.v, p.schema, name, v, vs, with_bag ? &c : nullptr, overwrite);
        }
      }
      REQUIRE(st.ok() == ok, st.ok() ? "an attribute was set that cannot be" : std::string(st.message()));
      Count(ok ? "set" : "not_set");
      Distinct(Hash(log));
      if (!ok || r.P(1, 4)) CheckAll(w, b, ok ? "after setting" : "after an error");
    } else if (op < 10) {  // set by names
      Pick p = PickObjs(w, b, false);
      p.full = false;
      if (p.d.empty() || b.frozen) continue;
      const DataItem vs = w.RandSchema();
      const bool nitem = r.P(1, 4);
      Values ns;
      for (size_t i = 0; i < p.v.size(); ++i) ns.push_back(r.P(1, 8) ? DataItem() : DataItem(arolla::Text(r.Of(w.names))));
      Dims nd = p.d;
      if (nitem) { ns = {DataItem(arolla::Text(name))}; nd.clear(); }
      const Values v0 = w.ValuesOf(vs, p.v.size(), b, r.Of({0, 30}));
      const bool overwrite = r.P(1, 3);
      std::string log = absl::StrCat("bag ", bi, ": ", PickStr(p), ".", drv::Str(ns), " = ", drv::Str(v0), " of ", drv::Str(vs), overwrite ? ", overwriting" : "");
      Log(log);
      const absl::Status st = p.In(b.db).SetAttr(Make(ns, nd, Dt(schema::kString)), Make(v0, p.d, vs), overwrite);
      bool ok = true;
      if (IsDt(p.schema, schema::kNone)) {}
      else if (nitem) ok = ModelSet(b, p.v, p.schema, name, v0, vs, nullptr, overwrite);
      else for (size_t i = 0; i < p.v.size() && ok; ++i) if (p.v[i].has_value() && ns[i].has_value()) ok = ModelSet(b, {p.v[i]}, p.schema, std::string(ns[i].value<arolla::Text>().view()), {v0[i]}, vs, nullptr, overwrite);
      REQUIRE(st.ok() == ok, st.ok() ? "attributes were set that cannot be" : std::string(st.message()));
      Count(ok ? "set_by_names" : "not_set");
      Distinct(Hash(log));
      CheckAll(w, b, "after setting by names");
    } else if (op < 11) {  // delete
      Pick p = PickObjs(w, b, true);
      Log(absl::StrCat("bag ", bi, ": del ", PickStr(p), ".", name));
      const absl::Status st = p.In(b.db).DelAttr(name);
      const Chain c{{&b}};
      bool ok = !b.frozen || IsDt(p.schema, schema::kNone), some = false, known = true;
      if (!IsDt(p.schema, schema::kNone)) {
        Values impl;
        if (IsObjectSchema(p.schema)) {
          for (const auto& o : p.v) {
            if (!o.has_value()) continue;
            DataItem s;
            some = true;
            if (!ObjSchemaOf(c, o, s)) { ok = false; continue; }
            if (s.is_implicit_schema()) { impl.push_back(s); ok &= c.Schema(s, name).has_value(); }
            else if (!c.Schema(s, name).has_value()) { if (p.d.empty()) ok = false; else known = false; }
          }
        } else ok &= c.Schema(p.schema, name).has_value();
        if (!known) { if (st.ok() != ok) { Log("not known"); ok = st.ok(); } }
        if (ok && !b.frozen) {
          for (const auto& s : impl) b.schema[s.value<ObjectId>()][name] = DataItem();
          for (const auto& o : p.v) if (o.has_value()) b.data[o.value<ObjectId>()][name] = DataItem();
        }
      }
      (void)some;
      REQUIRE(st.ok() == ok, st.ok() ? "an attribute was deleted that cannot be" : std::string(st.message()));
      Count(ok ? "deleted" : "not_deleted");
      CheckAll(w, b, "after deleting");
    } else if (op < 12) {  // fork, freeze
      if (bags.size() > 3) continue;
      Bag nb = b;
      const bool frozen = r.P(1, 4);
      Log(absl::StrCat("bag ", bags.size(), " = fork of bag ", bi, frozen ? ", frozen" : ""));
      nb.db = GET(b.db->Fork(frozen));
      nb.frozen = frozen;
      REQUIRE(nb.db->IsMutable() == !frozen && nb.db != b.db);
      bags.push_back(nb);
      Count("forks");
    } else {  // read
      Chain c{{&b}};
      DataBagPtr db = b.db;
      std::string how = absl::StrCat("bag ", bi);
      if (r.P(1, 4)) {
        const size_t k = r.Below(bags.size());
        db = GET(DataBag::ImmutableEmptyWithFallbacks({b.db->Freeze(), bags[k].db->Freeze()}));
        c.bags.push_back(&bags[k]);
        how += absl::StrCat(" then ", k);
      }
      const Pick p = PickObjs(w, b, true);
      const DataSlice s = p.In(db);
      Log(absl::StrCat(how, ": read ", name, " of ", PickStr(p)));
      Distinct(Hash(absl::StrCat(PickStr(p), ModelGet(c, p.v, p.schema, name, true).v.size(), drv::Str(ModelGet(c, p.v, p.schema, name, true).v))));
      Count("reads");
      ExpectAnswer("get", s.GetAttr(name), ModelGet(c, p.v, p.schema, name, false), p.d);
      const Answer maybe = ModelGet(c, p.v, p.schema, name, true);
      ExpectAnswer("get or missing", s.GetAttrOrMissing(name), maybe, p.d);
      {  // with a default
        const DataItem ds = w.RandSchema();
        Dims dd = p.d;
        if (r.P(1, 2)) dd.resize(r.Below(dd.size() + 1));
        const Values dv = w.ValuesOf(ds, DimsSize(dd), b, r.Of({0, 30}));
        const auto par = Parents(p.d, dd.size());
        Answer a = maybe;
        if (a.ok && a.known) {
          const auto j = Join(a.schema, ds);
          if (!j) a.ok = false;
          else {
            a.schema = *j;
            for (size_t i = 0; i < a.v.size(); ++i) if (p.v[i].has_value()) a.v[i] = Convert(a.v[i].has_value() ? a.v[i] : dv[par[i]], *j);
          }
        }
        Log(absl::StrCat("... or ", drv::Str(dv), " of ", drv::Str(ds)));
        ExpectAnswer("get with default", s.GetAttrWithDefault(name, Make(dv, dd, ds, r.P(1, 2) ? nullptr : db)), a, p.d);
      }
      {  // which have it
        Answer a;
        a.schema = Dt(schema::kMask);
        for (const auto& o : p.v) {
          if (!o.has_value() || IsDt(p.schema, schema::kNone)) { a.v.push_back(DataItem()); continue; }
          DataItem os = p.schema;
          if (IsObjectSchema(p.schema) && !ObjSchemaOf(c, o, os)) a.ok = false;
          a.v.push_back(c.Schema(os, name).has_value() && c.Data(o.value<ObjectId>(), name).has_value() ? DataItem(arolla::kUnit) : DataItem());
        }
        ExpectAnswer("has", s.HasAttr(name), a, p.d);
      }
      // the names
      std::set<std::string> uni, inter;
      std::vector<std::set<std::string>> each;
      bool ok = true, first = true;
      for (const auto& o : p.v) {
        if (!o.has_value()) { each.push_back({}); continue; }
        DataItem os = p.schema;
        if (IsObjectSchema(p.schema) && !ObjSchemaOf(c, o, os)) ok = false;
        const auto n = c.Names(os);
        each.push_back(n);
        uni.insert(n.begin(), n.end());
        std::set<std::string> k;
        for (const auto& x : n) if (first || inter.count(x)) k.insert(x);
        inter = k;
        first = false;
      }
      if (p.schema.holds_value<ObjectId>()) uni = inter = c.Names(p.schema);
      const auto as_set = [](const DataSlice::AttrNamesSet& x) { return std::set<std::string>(x.begin(), x.end()); };
      const auto check = [&](const char* what, const absl::StatusOr<DataSlice::AttrNamesSet>& got, bool ok, const std::set<std::string>& want) {
        REQUIRE(got.ok() == ok, what, ok ? " fails" : " should fail");
        if (ok) REQUIRE(as_set(*got) == want, what, ": other names");
      };
      check("names all have", s.GetAttrNames(DataSlice::OnAttrNamesMismatch::kIntersection), ok, inter);
      check("names some have", s.GetAttrNames(DataSlice::OnAttrNamesMismatch::kUnion), ok, uni);
      check("names, all the same", s.GetAttrNames(DataSlice::OnAttrNamesMismatch::kError), ok && uni == inter, uni);
      auto per = s.GetAttrNamesPerItem();
      REQUIRE(per.ok() == ok, "names of each");
      if (ok) {
        Values v;
        Dims d = p.d;
        d.push_back({});
        for (const auto& n : each) { d.back().push_back(n.size()); for (const auto& x : n) v.push_back(DataItem(arolla::Text(x))); }
        // in whatever order within an object
        REQUIRE(DimsOf(per->GetShape()) == d, "names of each: shape");
        Values g = Items2(*per);
        size_t at = 0;
        for (const auto& n : each) {
          std::set<std::string> k;
          for (size_t i = 0; i < n.size(); ++i, ++at) k.insert(std::string(g[at].value<arolla::Text>().view()));
          REQUIRE(k == n, "names of each");
        }
      }
      if (IsObjectSchema(p.schema)) {
        Answer a;
        a.schema = Dt(schema::kSchema);
        for (const auto& o : p.v) { DataItem os; if (o.has_value() && !ObjSchemaOf(c, o, os)) a.ok = false; a.v.push_back(os); }
        ExpectAnswer("schemas", s.GetObjSchema(), a, p.d);
      }
    }
  }
  for (auto& b : bags) CheckAll(w, b, "at the end");
}

CASE(lists) {
  World w(r);
  std::vector<Bag> bags(1);
  bags[0].db = DataBag::EmptyMutable();
  MakeWorld(w, bags[0]);
  World l = Collections(w, bags[0], false);
  const int steps = r.In(5, 25);
  for (int step = 0; step < steps; ++step) {
    const size_t bi = r.Below(bags.size());
    Bag& b = bags[bi];
    const int op = r.Below(20);
    if (op == 0) { RandFork(r, bags, bi); continue; }
    Pick p = PickObjs(l, b, op >= 14);
    DataItem vs = p.schema.holds_value<ObjectId>() ? Chain{{&b}}.Schema(p.schema, "__items__") : w.RandSchema();
    if (IsObjectSchema(p.schema)) for (const auto& o : p.v) if (o.has_value()) if (const auto e = Chain{{&b}}.Schema(Chain{{&b}}.Data(o.value<ObjectId>(), "__schema__"), "__items__"); e.has_value()) vs = e;
    if (!vs.has_value() || r.P(1, 3)) vs = w.RandSchema();
    if (r.P(1, 5)) { if (Num(vs) > 0) vs = Dt(schema::kInt32); else vs = Dt(schema::kObject); }
    const bool with_bag = r.P(1, 2);
    const Chain own{{&b}};
    const Chain* vc = with_bag ? &own : nullptr;
    const DataBagPtr vdb = with_bag ? b.db : nullptr;
    const auto id = [&](const DataItem& o) { return o.value<ObjectId>(); };
    const auto done = [&](const char* what, const absl::Status& st, bool ok) {
      REQUIRE(st.ok() == ok, what, ": ", st.ok() ? "done where it cannot be" : std::string(st.message()));
      Count(ok ? what : "refused_writes");
      if (!ok || r.P(1, 4)) CheckLists(l, b, what), CheckAll(w, b, what);
    };
    if (op < 6) {
      const Dims vd = Beside(r, p.d, 2);
      const Values v0 = w.ValuesOf(vs, DimsSize(vd), b, r.Of({0, 20, 100}));
      std::string log = absl::StrCat("bag ", bi, ": append ", Str3(v0, vd, vs), with_bag ? " with the bag" : "", " to ", PickStr(p));
      Log(log);
      const absl::Status st = p.In(b.db).AppendToList(Make(v0, vd, vs, vdb));
      const auto d = Together(p.d, vd);
      bool ok = d && !b.frozen;
      if (ok) {
        const auto v = AsElements(b, p, "__items__", Spread(v0, vd, *d), vs, vc);
        ok = v.has_value();
        if (ok) {
          const auto par = Parents(*d, p.d.size());
          for (size_t i = 0; i < v->size(); ++i) if (p.v[par[i]].has_value()) b.lists[id(p.v[par[i]])].push_back((*v)[i]);
          for (const auto& o : p.v) if (o.has_value()) b.lists[id(o)];
        }
      }
      Distinct(Hash(log));
      done("append", st, ok);
    } else if (op < 8) {
      const Index x = RandIndex(r, Beside(r, p.d, 1));
      const auto d = Together(p.d, x.d);
      Dims vd = d ? *d : p.d;
      if (r.P(1, 3)) vd.resize(r.Below(vd.size() + 1));
      const Values v0 = w.ValuesOf(vs, DimsSize(vd), b, r.Of({0, 20}));
      std::string log = absl::StrCat("bag ", bi, ": set at ", Str3(x.v, x.d, x.schema), " ", Str3(v0, vd, vs), " in ", PickStr(p));
      Log(log);
      const absl::Status st = p.In(b.db).SetInList(Make(x.v, x.d, x.schema), Make(v0, vd, vs, vdb));
      bool ok = d && x.ok;
      bool any = false;
      for (const auto& i : x.v) any |= i.has_value();
      if (!d && !any) continue;  // shapes that do not go together, and nothing to set
      any = false;
      if (ok) for (const auto& i : Spread(x.v, x.d, *d)) any |= i.has_value();
      if (ok && any) {
        ok = !b.frozen;
        std::optional<Values> v;
        if (ok) v = AsElements(b, p, "__items__", Spread(v0, vd, *d), vs, vc);
        ok = v.has_value();
        if (ok) {
          const Values ls = Spread(p.v, p.d, *d), xs = Spread(x.v, x.d, *d);
          for (size_t i = 0; i < ls.size(); ++i) {
            if (!ls[i].has_value() || !xs[i].has_value()) continue;
            auto& q = b.lists[id(ls[i])];
            if (const int64_t k = Place(*IntOf(xs[i]), q.size()); k >= 0) q[k] = (*v)[i];
          }
        }
      }
      Distinct(Hash(log));
      done("set", st, ok);
    } else if (op < 10) {
      const int64_t from = r.In(-5, 5);
      const std::optional<int64_t> to = r.P(1, 3) ? std::nullopt : std::optional<int64_t>(r.In(-5, 6));
      Dims vd = p.d;
      const bool scalar = r.P(1, 3);
      if (scalar) vd.clear();
      else { std::vector<int64_t> last; for (int64_t i = DimsSize(vd); i > 0; --i) last.push_back(r.In(0, 4)); vd.push_back(last); if (r.P(1, 20)) vd = RandDims(r, r.In(1, 3), 3); }
      const Values v0 = w.ValuesOf(vs, DimsSize(vd), b, r.Of({0, 20}));
      std::string log = absl::StrCat("bag ", bi, ": replace [", from, ":", to ? absl::StrCat(*to) : "", "] of ", PickStr(p), " by ", Str3(v0, vd, vs));
      Log(log);
      const absl::Status st = p.In(b.db).ReplaceInList(from, to, Make(v0, vd, vs, vdb));
      bool ok = !b.frozen;
      Values v = v0;
      Dims d = vd;
      if (vd.empty()) {
        ok &= ElementSchema(own, p, "__items__").has_value();
        d = p.d;
        d.push_back({});
        v.clear();
        for (const auto& o : p.v) { const auto [f, t] = Cut2(from, to, ListOf(own, o).size()); d.back().push_back(t - f); for (size_t k = f; k < t; ++k) v.push_back(v0[0]); }
      }
      ok &= d.size() == p.d.size() + 1 && IsPrefix(p.d, d);
      if (ok) {
        const auto e = AsElements(b, p, "__items__", v, vs, vc);
        ok = e.has_value();
        if (ok) {
          size_t at = 0;
          for (size_t i = 0; i < p.v.size(); at += d.back()[i++]) {
            if (!p.v[i].has_value()) continue;
            auto& q = b.lists[id(p.v[i])];
            const auto [f, t] = Cut2(from, to, q.size());
            q.erase(q.begin() + f, q.begin() + t);
            q.insert(q.begin() + f, e->begin() + at, e->begin() + at + d.back()[i]);
          }
        }
      }
      Distinct(Hash(log));
      done("replace", st, ok);
    } else if (op < 12) {  // remove, clear
      const bool clear = r.P(1, 4), by_index = r.P(1, 2);
      if (clear) {
        Log(absl::StrCat("bag ", bi, ": clear ", PickStr(p)));
        const absl::Status st = p.In(b.db).ClearDictOrList();
        bool any = false;
        for (const auto& o : p.v) any |= o.has_value();
        const bool ok = !any || !b.frozen;
        if (ok) for (const auto& o : p.v) if (o.has_value()) b.lists[id(o)].clear();
        done("clear", st, ok);
      } else if (by_index) {
        Dims xd = p.d;
        if (r.P(1, 3)) xd.resize(r.Below(xd.size() + 1));
        const Index x = RandIndex(r, xd);
        Log(absl::StrCat("bag ", bi, ": remove at ", Str3(x.v, x.d, x.schema), " of ", PickStr(p)));
        const absl::Status st = p.In(b.db).RemoveInList(Make(x.v, x.d, x.schema));
        bool ok = x.ok, any = false;
        for (const auto& i : Spread(x.v, x.d, p.d)) any |= i.has_value();
        if (ok && any) {
          ok = !b.frozen && ElementSchema(own, p, "__items__");
          const Values xs = Spread(x.v, x.d, p.d);
          if (ok)
            for (size_t i = 0; i < p.v.size(); ++i) {
              if (!p.v[i].has_value() || !xs[i].has_value()) continue;
              auto& q = b.lists[id(p.v[i])];
              if (const int64_t k = Place(*IntOf(xs[i]), q.size()); k >= 0) q.erase(q.begin() + k);
            }
        }
        done("remove", st, ok);
      } else {
        const int64_t from = r.In(-5, 5);
        const std::optional<int64_t> to = r.P(1, 3) ? std::nullopt : std::optional<int64_t>(r.In(-5, 6));
        Log(absl::StrCat("bag ", bi, ": remove [", from, ":", to ? absl::StrCat(*to) : "", "] of ", PickStr(p)));
        const absl::Status st = p.In(b.db).RemoveInList(from, to);
        const bool ok = !b.frozen && ElementSchema(own, p, "__items__");
        if (ok)
          for (const auto& o : p.v) {
            if (!o.has_value()) continue;
            auto& q = b.lists[id(o)];
            const auto [f, t] = Cut2(from, to, q.size());
            q.erase(q.begin() + f, q.begin() + t);
          }
        done("remove", st, ok);
      }
    } else if (op < 14) {  // pop
      Dims xd = p.d;
      if (r.P(1, 3)) xd.resize(r.Below(xd.size() + 1));
      Index x = RandIndex(r, xd);
      const bool last = r.P(1, 3);
      if (last) { x.v = {DataItem(int64_t{-1})}; x.d.clear(); x.schema = Dt(schema::kInt64); x.ok = true; }
      Log(absl::StrCat("bag ", bi, ": pop at ", Str3(x.v, x.d, x.schema), " of ", PickStr(p)));
      const DataSlice s = p.In(b.db);
      const auto got = last ? s.PopFromList() : s.PopFromList(Make(x.v, x.d, x.schema));
      const auto es = ElementSchema(own, p, "__items__");
      Answer a;
      a.ok = x.ok && es && !b.frozen;
      if (a.ok) {
        a.schema = *es;
        const Values xs = Spread(x.v, x.d, p.d);
        for (size_t i = 0; i < p.v.size(); ++i) {
          a.v.push_back(DataItem());
          if (!p.v[i].has_value() || !xs[i].has_value()) continue;
          auto& q = b.lists[id(p.v[i])];
          const int64_t k = Place(*IntOf(xs[i]), q.size());
          if (k < 0) continue;
          a.v.back() = Convert(q[k], *es);
          q.erase(q.begin() + k);
        }
      }
      ExpectAnswer("pop", got, a, p.d);
      Count(a.ok ? "pop" : "refused_writes");
      CheckLists(l, b, "after popping");
    } else {  // read
      DataBagPtr db;
      std::string how;
      const Chain c = RandChain(r, bags, bi, db, how);
      const DataSlice s = p.In(db);
      const int64_t from = r.In(-4, 4);
      const std::optional<int64_t> to = r.P(1, 2) ? std::nullopt : std::optional<int64_t>(r.In(-4, 6));
      const Index x = RandIndex(r, Beside(r, p.d, 2));
      Log(absl::StrCat(how, ": read [", from, ":", to ? absl::StrCat(*to) : "", "] and at ", Str3(x.v, x.d, x.schema), " of ", PickStr(p)));
      const auto es = ElementSchema(c, p, "__items__");
      Answer a;
      a.ok = es.has_value();
      Dims d = p.d;
      d.push_back({});
      for (const auto& o : p.v) {
        const auto& q = ListOf(c, o);
        const auto [f, t] = Cut2(from, to, q.size());
        d.back().push_back(t - f);
        if (es) for (size_t k = f; k < t; ++k) a.v.push_back(Convert(q[k], *es));
      }
      if (es) a.schema = *es;
      Distinct(Hash(absl::StrCat(PickStr(p), drv::Str(a.v))));
      ExpectAnswer("explode", s.ExplodeList(from, to), a, d);
      Count("reads");
      {
        const auto d2 = Together(p.d, x.d);
        Answer g;
        g.ok = es && x.ok && d2;
        if (g.ok) {
          g.schema = *es;
          const Values ls = Spread(p.v, p.d, *d2), xs = Spread(x.v, x.d, *d2);
          for (size_t i = 0; i < ls.size(); ++i) {
            g.v.push_back(DataItem());
            if (!xs[i].has_value()) continue;
            const auto& q = ListOf(c, ls[i]);
            if (const int64_t k = Place(*IntOf(xs[i]), q.size()); k >= 0) g.v.back() = Convert(q[k], *es);
          }
        }
        ExpectAnswer("get at", s.GetFromList(Make(x.v, x.d, x.schema)), g, d2 ? *d2 : p.d);
        bool some = false;
        for (const auto& o : p.v) some |= o.has_value();
        if (some) ExpectAnswer("get item", s.GetItem(Make(x.v, x.d, x.schema)), g, d2 ? *d2 : p.d);
      }
      Answer z;
      z.schema = Dt(schema::kInt64);
      for (const auto& o : p.v) z.v.push_back(o.has_value() ? DataItem(static_cast<int64_t>(ListOf(c, o).size())) : DataItem());
      ExpectAnswer("size", koladata::ListSize(s), z, p.d);
      const auto is = [&](const char* a) { return c.Schema(p.schema, a).has_value(); };
      if (p.schema.holds_value<ObjectId>()) REQUIRE(s.IsList() == is("__items__") && !s.IsDict() && s.IsEntity() != is("__items__"), "kind of slice");
      else REQUIRE(s.IsList() && !(s.IsDict() && s.present_count()), "kind of slice");
    }
  }
  for (auto& b : bags) CheckLists(l, b, "at the end"), CheckAll(w, b, "at the end");
}

CASE(dicts) {
  World w(r);
  std::vector<Bag> bags(1);
  bags[0].db = DataBag::EmptyMutable();
  MakeWorld(w, bags[0]);
  World l = Collections(w, bags[0], true);
  using Dict = std::map<std::string, std::pair<DataItem, DataItem>>;
  const auto key = [](const DataItem& k) {
    if (const auto i = IntOf(k)) return absl::StrCat(*i);
    return drv::Str(k);
  };
  const auto full = [&](const Chain& c, const DataItem& o) {
    Dict m;
    if (!o.has_value()) return m;
    for (const Bag* b : c.bags) if (auto i = b->dicts.find(o.value<ObjectId>()); i != b->dicts.end()) for (const auto& [k, kv] : i->second) m.emplace(k, kv);
    return m;
  };
  // The keys and values of each dict, pairwise and whatever their order.
  const auto pairs = [&](const Values& k, const Values& v, const Dims& d, const std::vector<Dict>& want, const DataItem& ks, const DataItem& vs) {
    size_t at = 0;
    for (size_t i = 0; i < want.size(); ++i) {
      std::set<std::string> seen;
      for (int64_t j = 0; j < d.back()[i]; ++j, ++at) {
        const auto it = want[i].find(key(k[at]));
        REQUIRE(it != want[i].end(), "key ", drv::Str(k[at]), " was never set");
        REQUIRE(seen.insert(it->first).second, "key ", drv::Str(k[at]), " comes twice");
        if (Num(ks) >= 0) REQUIRE(Same(k[at], Convert(k[at], ks)), "key ", drv::Str(k[at]), " in keys of ", drv::Str(ks));
        REQUIRE(Same(v[at], Convert(it->second.second, vs)), "value of ", drv::Str(k[at]), " is ", drv::Str(v[at]), ", not ", drv::Str(it->second.second));
      }
      for (const auto& [kk, kv] : want[i]) if (kv.second.has_value()) REQUIRE(seen.count(kk), "key ", kk, " is lost");
    }
  };
  const auto check = [&](const Bag& b) {
    const Chain c{{&b}};
    for (const auto& o : l.objs) {
      const Values k = drv::Items(GET(b.db->GetImpl().GetDictKeys(DataItem(o))).first), v = drv::Items(GET(b.db->GetImpl().GetDictValues(DataItem(o))).first);
      REQUIRE(k.size() == v.size());
      pairs(k, v, {{static_cast<int64_t>(k.size())}}, {full(c, DataItem(o))}, Dt(schema::kObject), Dt(schema::kObject));
    }
  };
  const int steps = r.In(5, 25);
  for (int step = 0; step < steps; ++step) {
    const size_t bi = r.Below(bags.size());
    Bag& b = bags[bi];
    const Chain own{{&b}};
    const int op = r.Below(20);
    if (op == 0) { RandFork(r, bags, bi); continue; }
    const Pick p = PickObjs(l, b, r.P(1, 3));
    const auto schema_of = [&](const char* a, const Chain& c) {
      DataItem s = p.schema.holds_value<ObjectId>() ? c.Schema(p.schema, a) : DataItem();
      if (IsObjectSchema(p.schema)) for (const auto& o : p.v) if (o.has_value()) if (const auto e = c.Schema(c.Data(o.value<ObjectId>(), "__schema__"), a); e.has_value()) s = e;
      if (!s.has_value() || r.P(1, 5)) s = w.RandSchema();
      if (r.P(1, 6)) s = Num(s) > 0 ? Dt(schema::kInt32) : Dt(schema::kObject);
      return s;
    };
    // Keys are few, so that they come again.
    const auto keys_of = [&](const DataItem& s, size_t n) {
      Values v = w.ValuesOf(s, n, b, r.Of({0, 10}));
      for (auto& x : v) if (IntOf(x) && !r.P(1, 5)) x = x.holds_value<int32_t>() ? DataItem(static_cast<int32_t>(r.In(0, 3))) : DataItem(r.In(0, 3)); else if (x.holds_value<float>() || x.holds_value<double>()) { if (IsObjectSchema(s)) x = DataItem(r.P(1, 2)); }
      return v;
    };
    const bool with_bag = r.P(1, 2);
    const Chain* vc = with_bag ? &own : nullptr;
    const DataBagPtr vdb = with_bag ? b.db : nullptr;
    const DataItem ks = schema_of("__keys__", own), vs = schema_of("__values__", own);
    Dims kd = Beside(r, p.d, 2);
    const auto d = Together(p.d, kd);
    const Values k0 = keys_of(ks, DimsSize(kd));
    if (op < 11) {
      Dims vd = d ? *d : p.d;
      if (r.P(1, 3)) vd.resize(r.Below(vd.size() + 1));
      const Values v0 = w.ValuesOf(vs, DimsSize(vd), b, r.Of({0, 20, 100}));
      std::string log = absl::StrCat("bag ", bi, ": set ", Str3(k0, kd, ks), " to ", Str3(v0, vd, vs), " in ", PickStr(p));
      Log(log);
      const absl::Status st = p.In(b.db).SetInDict(Make(k0, kd, ks, vdb), Make(v0, vd, vs, vdb));
      bool ok = d && !b.frozen;
      if (ok) {
        const auto k = AsElements(b, p, "__keys__", Spread(k0, kd, *d), ks, vc);
        std::optional<Values> v;
        if (k) v = AsElements(b, p, "__values__", Spread(v0, vd, *d), vs, vc);
        ok = k && v;
        bool any = false;
        for (const auto& o : Spread(p.v, p.d, *d)) any |= o.has_value();
        if (ok && any)
          for (const auto& x : *k) ok &= !x.holds_value<float>() && !x.holds_value<double>() && (x.has_value() || !d->empty());
        if (ok) {
          const Values ds = Spread(p.v, p.d, *d);
          for (size_t i = 0; i < ds.size(); ++i) {
            if (!ds[i].has_value() || !(*k)[i].has_value()) continue;
            auto& m = b.dicts[ds[i].value<ObjectId>()];
            const auto [it, is_new] = m.emplace(key((*k)[i]), std::pair((*k)[i], (*v)[i]));
            if (!is_new) it->second.second = (*v)[i];
          }
        }
      }
      REQUIRE(st.ok() == ok, st.ok() ? "set where it cannot be" : std::string(st.message()));
      Count(ok ? "set" : "refused_writes");
      Distinct(Hash(log));
      if (!ok || r.P(1, 4)) check(b), CheckAll(w, b, "after setting");
    } else if (op < 12) {
      Log(absl::StrCat("bag ", bi, ": clear ", PickStr(p)));
      const absl::Status st = p.In(b.db).ClearDictOrList();
      bool any = false;
      for (const auto& o : p.v) any |= o.has_value();
      const bool ok = !any || !b.frozen;
      if (ok) for (const auto& o : p.v) if (o.has_value()) for (auto& [k, kv] : b.dicts[o.value<ObjectId>()]) kv.second = DataItem();
      REQUIRE(st.ok() == ok, "clearing");
      Count("clear");
      check(b);
    } else {
      DataBagPtr db;
      std::string how;
      const Chain c = RandChain(r, bags, bi, db, how);
      const DataSlice s = p.In(db);
      Log(absl::StrCat(how, ": read ", Str3(k0, kd, ks), " of ", PickStr(p)));
      Count("reads");
      const auto kes = ElementSchema(c, p, "__keys__"), ves = ElementSchema(c, p, "__values__");
      std::vector<Dict> want;
      for (const auto& o : p.v) want.push_back(full(c, o));
      const auto gk = s.GetDictKeys(), gv = s.GetDictValues();
      REQUIRE(gk.ok() == kes.has_value(), "keys: ", gk.ok() ? "" : std::string(gk.status().message()));
      REQUIRE(gv.ok() == ves.has_value(), "values: ", gv.ok() ? "" : std::string(gv.status().message()));
      if (gk.ok()) {
        REQUIRE(Same(gk->GetSchemaImpl(), *kes), "schema of keys");
        const Dims kdims = DimsOf(gk->GetShape());
        REQUIRE(kdims.size() == p.d.size() + 1 && IsPrefix(p.d, kdims), "shape of keys");
        if (gv.ok()) {
          REQUIRE(Same(gv->GetSchemaImpl(), *ves), "schema of values");
          REQUIRE(DimsOf(gv->GetShape()) == kdims, "shape of values");
          pairs(Items2(*gk), Items2(*gv), kdims, want, *kes, *ves);
        }
      }
      // By keys: cast as those that are set are.
      Answer a;
      a.ok = d && ves.has_value();
      if (a.ok) {
        Values k = Spread(k0, kd, *d);
        if (!IsDt(p.schema, schema::kNone)) {
          std::optional<DataItem> to;
          if (IsObjectSchema(p.schema)) {
            for (const auto& o : p.v) {
              DataItem os;
              if (!o.has_value()) continue;
              if (!ObjSchemaOf(c, o, os)) { a.ok = false; continue; }
              const DataItem e = c.Schema(os, "__keys__");
              if (!e.has_value() || (to && !Same(*to, e))) a.ok = false;
              to = e;
            }
          } else { to = c.Schema(p.schema, "__keys__"); a.ok &= to->has_value(); }
          if (a.ok && to && !(IsObjectSchema(*to) && ks.holds_value<ObjectId>())) {
            std::vector<ObjectId> embed;
            const auto kc = CastIn(k, ks, *to, c, vc, &embed);
            if (kc) k = *kc; else a.ok = false;
          }
        }
        if (a.ok) {
          a.schema = *ves;
          const auto par = Parents(*d, p.d.size());
          for (size_t i = 0; i < k.size(); ++i) {
            a.v.push_back(DataItem());
            if (!k[i].has_value()) continue;
            const auto& m = want[par[i]];
            if (auto it = m.find(key(k[i])); it != m.end()) a.v.back() = Convert(it->second.second, *ves);
          }
        }
      }
      Distinct(Hash(absl::StrCat(Str3(k0, kd, ks), PickStr(p), drv::Str(a.v))));
      ExpectAnswer("get by keys", s.GetFromDict(Make(k0, kd, ks, vdb)), a, d ? *d : p.d);
      if (p.schema.holds_value<ObjectId>()) {
        const bool is = c.Schema(p.schema, "__keys__").has_value() && c.Schema(p.schema, "__values__").has_value();
        REQUIRE(s.IsDict() == is && !s.IsList(), "kind of slice");
      } else REQUIRE(s.IsDict() && !(s.IsList() && s.present_count()), "kind of slice");
    }
  }
  for (auto& b : bags) check(b), CheckAll(w, b, "at the end");
}
}  // namespace drv
