#include "bagmodel.h"

#include <algorithm>

#include "koladata/internal/types_buffer.h"
#include "koladata/internal/slice_builder.h"

namespace drv {
std::string KeyText(const DataItem& k) {
  if (k.holds_value<int32_t>()) return absl::StrCat(static_cast<int64_t>(k.value<int32_t>()));
  if (k.holds_value<int64_t>()) return absl::StrCat(k.value<int64_t>());
  return Str(k);
}

namespace {
std::vector<ObjectId> AllOf(const std::vector<Alloc>& as) {
  std::vector<ObjectId> v;
  for (const auto& a : as) for (const auto& o : a.objs()) v.push_back(o);
  return v;
}
int64_t SomeSize(Rng& r) {
  switch (r.Below(8)) {
    case 0: return 1;
    case 1: return 2;
    case 2: return 3;
    case 3: return r.In(4, 8);
    case 4: return r.In(9, 40);
    case 5: return r.In(60, 70);
    case 6: return r.P(1, 3) ? r.In(200, 300) : 5;
    default: return r.In(1, 6);
  }
}
}  // namespace

void World::Alloc_(int max_allocs) {
  auto fill = [&](std::vector<Alloc>& to, char kind, int n) {
    for (int i = 0; i < n; ++i) to.push_back(MakeAlloc(r, kind, few && r.P(2, 3) ? r.In(60, 150) : SomeSize(r)));
  };
  few = r.P(1, 3);
  const bool many = !few && r.P(1, 4);  // more allocations than are looked up one by one
  auto fill_many = [&](std::vector<Alloc>& to, char kind) {
    const int n = r.In(8, 30);
    for (int i = 0; i < n; ++i) to.push_back(MakeAlloc(r, kind, r.P(1, 6) ? 1 : r.In(2, 6)));
  };
  if (many) fill_many(ents, 'e');
  else fill(ents, 'e', r.In(1, max_allocs));
  fill(lists, 'l', r.In(1, max_allocs));
  fill(dicts, 'd', r.In(1, max_allocs));
  if (many && r.P(1, 2)) fill_many(schemas, 's');
  else fill(schemas, 's', r.In(1, max_allocs));
  eobjs = AllOf(ents), lobjs = AllOf(lists), dobjs = AllOf(dicts), sobjs = AllOf(schemas);
  // What values can point to: a few of each.
  for (const auto* v : {&eobjs, &lobjs, &dobjs, &sobjs})
    for (int i = 0; i < 3; ++i) all.push_back((*v)[r.Below(v->size())]);
  attr_names = {"a", "b", "some_longer_attribute_name"};
  if (r.P(1, 2)) attr_names.resize(1);  // so that it is written again and again
}

size_t World::NewBag() {
  nodes.push_back({DataBagImpl::CreateEmptyDatabag(), {}, false});
  Log(absl::StrCat("bag ", nodes.size() - 1));
  return nodes.size() - 1;
}
size_t World::Fork(size_t from) {
  Node n;
  nodes[from].sealed = true;
  n.bag = nodes[from].bag->PartiallyPersistentFork();
  n.m = nodes[from].m;
  nodes.push_back(std::move(n));
  Log(absl::StrCat("bag ", nodes.size() - 1, " forks ", from));
  Count("forks");
  return nodes.size() - 1;
}
size_t World::Writable() {
  std::vector<size_t> v;
  for (size_t i = 0; i < nodes.size(); ++i) if (!nodes[i].sealed) v.push_back(i);
  if (v.empty()) return NewBag();
  return v[r.Below(v.size())];
}
std::vector<size_t> World::Reader() {
  std::vector<size_t> ids{r.Below(nodes.size())};
  int extra = r.P(1, 2) ? 0 : r.In(1, 3);
  for (int i = 0; i < extra; ++i) ids.push_back(r.Below(nodes.size()));
  return ids;
}

std::vector<DataItem> World::PickObjs(const std::vector<Alloc>& as, bool dups, int missing_percent) {
  std::vector<ObjectId> pool;
  const bool one = r.P(1, 2);
  const Alloc& a = r.Of(as);
  if (one) pool = a.objs();
  else pool = AllOf(as);
  if (pool.size() > 12 && r.P(3, 5)) {  // those at either end are the ones most used
    std::vector<ObjectId> hot(pool.begin(), pool.begin() + 6);
    hot.insert(hot.end(), pool.end() - 3, pool.end());
    pool = hot;
  }
  if (few && r.P(4, 5)) {  // sparse writes of the same objects
    std::vector<DataItem> v;
    for (int i = r.In(1, 3); i > 0; --i) v.push_back(r.P(missing_percent, 100) ? DataItem() : DataItem(pool[r.Below(std::min<size_t>(pool.size(), 4))]));
    if (!dups) {
      std::set<std::string> seen;
      std::erase_if(v, [&](const DataItem& d) { return d.has_value() && !seen.insert(Str(d)).second; });
    }
    return v;
  }
  const int mode = r.Below(6);
  std::vector<DataItem> v;
  if (mode == 0) {  // all of them, in order
    for (auto& o : pool) v.push_back(DataItem(o));
    return v;
  }
  size_t n = mode == 1 ? pool.size() : mode == 2 ? 1 : r.In(0, std::min<int64_t>(pool.size(), 30));
  for (size_t i = pool.size(); i > 1; --i) std::swap(pool[i - 1], pool[r.Below(i)]);
  for (size_t i = 0; i < n; ++i) {
    if (r.P(missing_percent, 100)) v.push_back(DataItem());
    else v.push_back(DataItem(dups ? pool[r.Below(pool.size())] : pool[i]));
  }
  return v;
}

// ------------------------------------------------------------------ attributes
namespace {
DataSliceImpl ObjSlice(const std::vector<DataItem>& v) { return Slice(v); }
}  // namespace

void World::MutateAttrs(Node& n) {
  const std::string attr = r.Of(attr_names);
  const int op = r.Below(10);
  const std::vector<Alloc>* as = r.P(5, 6) ? &ents : r.P(1, 2) ? &lists : &dicts;
  if (op < 5) {
    const bool dups = r.P(1, 5);
    auto objs = PickObjs(*as, dups, 15);
    auto vals = RandValues(r, objs.size(), all, dups ? 0 : r.Of({0, 20, 60}));
    if (dups) {  // what several values for one object mean is said for present ones
      for (auto& x : vals) if (!x.has_value()) x = DataItem(int32_t{1});
    }
    Log(absl::StrCat("set ", attr, " of ", Str(objs), " to ", Str(vals)));
    REQUIRE_OK(n.bag->SetAttr(ObjSlice(objs), attr, Slice(vals)));
    for (size_t i = 0; i < objs.size(); ++i)
      if (objs[i].has_value()) n.m.attrs[{objs[i].value<ObjectId>(), attr}] = vals[i];
    Count("attr_slice_writes");
  } else if (op < 7) {
    auto pool = PickObjs(*as, false, 0);
    if (pool.empty()) return;
    DataItem o = r.Of(pool), v = RandItem(r, all, 25);
    Log(absl::StrCat("set ", attr, " of ", Str(o), " to ", Str(v)));
    REQUIRE_OK(n.bag->SetAttr(o, attr, v));
    n.m.attrs[{o.value<ObjectId>(), attr}] = v;
    Count("attr_item_writes");
  } else if (op == 7) {
    // All of an allocation at once; some are left as they are.
    std::vector<Alloc> big;
    for (const auto& a : *as) if (!a.id.IsSmall()) big.push_back(a);
    if (big.empty()) return;
    const Alloc& a = r.Of(big);
    auto vals = RandValues(r, a.size, all, 30);
    const int unset_percent = r.Of({0, 0, 30, 80});
    std::vector<bool> unset(a.size);
    SliceBuilder b(a.size);
    for (int64_t i = 0; i < a.size; ++i) {
      unset[i] = r.P(unset_percent, 100);
      if (!unset[i]) b.InsertIfNotSetAndUpdateAllocIds(i, vals[i]);
    }
    DataSliceImpl s = std::move(b).Build();
    Log(absl::StrCat("set ", attr, " of all of ", Str(DataItem(a.id.ObjectByOffset(0))), " to ", Str(vals)));
    if (s.is_empty_and_unknown()) return;  // without any value nothing changes
    REQUIRE_OK(n.bag->SetAttrFullAlloc(a.id, attr, s));
    for (int64_t i = 0; i < a.size; ++i)
      if (!unset[i]) n.m.attrs[{a.id.ObjectByOffset(i), attr}] = vals[i];
    Count("attr_whole_writes");
  } else if (op == 8) {
    // New objects with fields.
    const size_t k = r.In(1, 4);
    std::vector<std::vector<DataItem>> vals(attr_names.size());
    std::vector<DataSliceImpl> slices;
    std::vector<std::reference_wrapper<const DataSliceImpl>> refs;
    std::vector<absl::string_view> names;
    for (size_t i = 0; i < attr_names.size(); ++i) {
      vals[i] = RandValues(r, k, all, 0);
      slices.push_back(Slice(vals[i]));
      names.push_back(attr_names[i]);
    }
    for (auto& s : slices) refs.push_back(s);
    DataSliceImpl objs = GET(n.bag->CreateObjectsFromFields(names, refs));
    REQUIRE(objs.size() == k);
    std::set<ObjectId> seen;
    for (size_t j = 0; j < k; ++j) {
      REQUIRE(objs[j].holds_value<ObjectId>());
      ObjectId o = objs[j].value<ObjectId>();
      REQUIRE(seen.insert(o).second, "the new objects are not distinct");
      for (const auto& old : eobjs) REQUIRE(!(old == o), "a new object is an old one");
      for (size_t i = 0; i < attr_names.size(); ++i) n.m.attrs[{o, attr_names[i]}] = vals[i][j];
    }
    AllocationId id(objs[0].value<ObjectId>());
    ents.push_back({id, static_cast<int64_t>(k)});
    for (const auto& o : ents.back().objs()) {
      REQUIRE(seen.count(o), "new objects are numbered from the start of their allocation");
      eobjs.push_back(o);
    }
    Log(absl::StrCat("new objects ", Str(objs)));
    Count("attr_new_objects");
  } else {
    auto objs = PickObjs(*as, false, 15);
    auto vals = RandValues(r, 1, all, 20);
    vals.resize(objs.size(), vals.empty() ? DataItem() : vals[0]);
    Log(absl::StrCat("set ", attr, " of ", Str(objs), " to one ", Str(vals)));
    REQUIRE_OK(n.bag->SetAttr(ObjSlice(objs), attr, Slice(vals)));
    for (size_t i = 0; i < objs.size(); ++i)
      if (objs[i].has_value()) n.m.attrs[{objs[i].value<ObjectId>(), attr}] = vals[i];
  }
}

std::optional<DataItem> ModelAttr(const World& w, const std::vector<size_t>& ids, ObjectId o, const std::string& a) {
  for (size_t i : ids) {
    auto it = w.nodes[i].m.attrs.find({o, a});
    if (it != w.nodes[i].m.attrs.end()) return it->second;
  }
  return std::nullopt;
}

namespace {
std::vector<const DataBagImpl*> Falls(const World& w, const std::vector<size_t>& ids) {
  std::vector<const DataBagImpl*> f;
  for (size_t i = 1; i < ids.size(); ++i) f.push_back(w.nodes[ids[i]].bag.get());
  return f;
}
std::string Ids(const std::vector<size_t>& ids) {
  std::string s;
  for (size_t i : ids) s += absl::StrCat(s.empty() ? "" : ",", i);
  return s;
}
}  // namespace

void World::ReadAttrs(const std::vector<size_t>& ids) {
  const std::string attr = r.P(1, 12) ? "never_set" : r.Of(attr_names);
  const std::vector<Alloc>* as = r.P(5, 6) ? &ents : r.P(1, 2) ? &lists : &dicts;
  const auto fv = Falls(*this, ids);
  const DataBagImpl& bag = *nodes[ids[0]].bag;
  auto objs = PickObjs(*as, r.P(1, 3), 20);
  DataSliceImpl s = ObjSlice(objs);
  DataSliceImpl got = GET(bag.GetAttr(s, attr, fv));
  REQUIRE(got.size() == objs.size());
  DataSliceImpl got_r = GET(bag.GetAttrWithRemoved(s, attr, fv));
  REQUIRE(got_r.size() == objs.size());
  for (size_t i = 0; i < objs.size(); ++i) {
    if (!objs[i].has_value()) {
      REQUIRE(!got[i].has_value(), "a missing object has a value of ", attr);
      continue;
    }
    const ObjectId o = objs[i].value<ObjectId>();
    const auto want = ModelAttr(*this, ids, o, attr);
    const DataItem w = want.value_or(DataItem());
    REQUIRE(Same(got[i], w), attr, " of ", Str(objs[i]), " in ", Ids(ids), ": ", Str(got[i]), ", not ", Str(want));
    REQUIRE(Same(got_r[i], w), attr, " (telling removed) of ", Str(objs[i]), " in ", Ids(ids), ": ", Str(got_r[i]), ", not ", Str(want));
    if (!w.has_value() && got_r.types_buffer().size() > 0) {
      const bool removed = got_r.types_buffer().id_to_typeidx[i] == TypesBuffer::kRemoved;
      REQUIRE(removed == want.has_value(), attr, " of ", Str(objs[i]), " in ", Ids(ids), " is ", removed ? "removed" : "unset", ", not ", Str(want));
    } else if (!w.has_value()) {
      REQUIRE(want.has_value(), attr, " of ", Str(objs[i]), " in ", Ids(ids), " counts as removed, but was never set");
    }
    if (i < 4) {
      const auto one = bag.GetAttrWithRemoved(o, attr, fv);
      REQUIRE(Same(one, want), attr, " of item ", Str(objs[i]), " in ", Ids(ids), ": ", Str(one), ", not ", Str(want));
      DataItem it = GET(bag.GetAttr(objs[i], attr, fv));
      REQUIRE(Same(it, w), attr, " of item ", Str(objs[i]), " in ", Ids(ids), ": ", Str(it), ", not ", Str(want));
    }
    Count(want ? want->has_value() ? "attrs_read_present" : "attrs_read_removed" : "attrs_read_unset");
  }
}

// ------------------------------------------------------------------ lists
namespace {
std::pair<int64_t, int64_t> Cut(int64_t from, std::optional<int64_t> to, int64_t size) {
  auto clamp = [&](int64_t x) { return std::clamp<int64_t>(x < 0 ? x + size : x, 0, size); };
  return {clamp(from), to ? clamp(*to) : size};
}
struct Rand2 { int64_t from; std::optional<int64_t> to; };
Rand2 RandRange(Rng& r) {
  Rand2 x{r.P(1, 3) ? 0 : r.In(-6, 6), std::nullopt};
  if (r.P(2, 3)) x.to = r.In(-6, 8);
  return x;
}
arolla::DenseArrayEdge Edge(const std::vector<int64_t>& sizes) {
  std::vector<int64_t> sp{0};
  for (auto n : sizes) sp.push_back(sp.back() + n);
  return *arolla::DenseArrayEdge::FromSplitPoints(arolla::CreateFullDenseArray<int64_t>(sp));
}
}  // namespace

void World::MutateLists(Node& n) {
  auto ls = PickObjs(lists, false, 15);
  const DataSliceImpl s = ObjSlice(ls);
  auto id = [&](size_t i) { return ls[i].value<ObjectId>(); };
  const int op = r.Below(13);
  auto indices = [&] {
    std::vector<std::optional<int64_t>> v;
    for (size_t i = 0; i < ls.size(); ++i) v.push_back(r.P(1, 8) ? std::nullopt : std::optional<int64_t>(r.In(-4, 4)));
    return v;
  };
  auto at = [&](const std::vector<DataItem>& l, int64_t i) -> int64_t {
    if (i < 0) i += l.size();
    return i >= 0 && i < static_cast<int64_t>(l.size()) ? i : -1;
  };
  auto groups = [&](std::vector<int64_t>& sizes) {
    int64_t total = 0;
    for (size_t i = 0; i < ls.size(); ++i) sizes.push_back(ls[i].has_value() || r.P(1, 4) ? r.In(0, r.P(1, 10) ? 12 : 3) : 0), total += sizes.back();
    return RandValues(r, total, all, r.Of({0, 20}));
  };
  auto splice = [&](ObjectId o, int64_t from, int64_t to, const std::vector<DataItem>& v) {
    auto& l = n.m.lists[o];
    l.erase(l.begin() + from, l.begin() + std::max(from, to));
    l.insert(l.begin() + from, v.begin(), v.end());
  };
  switch (op) {
    case 0: case 1: {
      auto v = RandValues(r, ls.size(), all, 20);
      Log(absl::StrCat("append ", Str(v), " to ", Str(ls)));
      REQUIRE_OK(n.bag->AppendToList(s, Slice(v)));
      for (size_t i = 0; i < ls.size(); ++i) if (ls[i].has_value()) n.m.lists[id(i)].push_back(v[i]);
      break;
    }
    case 2: case 3: {
      std::vector<int64_t> sizes;
      auto v = groups(sizes);
      Log(absl::StrCat("extend ", Str(ls), " by ", Str(v)));
      REQUIRE_OK(n.bag->ExtendLists(s, Slice(v), Edge(sizes)));
      size_t p = 0;
      for (size_t i = 0; i < ls.size(); p += sizes[i++])
        if (ls[i].has_value()) { auto& l = n.m.lists[id(i)]; l.insert(l.end(), v.begin() + p, v.begin() + p + sizes[i]); }
      break;
    }
    case 4: case 5: {
      std::vector<int64_t> sizes;
      auto v = groups(sizes);
      auto rg = RandRange(r);
      Log(absl::StrCat("replace [", rg.from, ":", rg.to ? absl::StrCat(*rg.to) : "", "] of ", Str(ls), " by ", Str(v)));
      REQUIRE_OK(n.bag->ReplaceInLists(s, DataBagImpl::ListRange(rg.from, rg.to), Slice(v), Edge(sizes)));
      size_t p = 0;
      for (size_t i = 0; i < ls.size(); p += sizes[i++]) {
        if (!ls[i].has_value()) continue;
        auto [f, t] = Cut(rg.from, rg.to, n.m.lists[id(i)].size());
        splice(id(i), f, t, {v.begin() + p, v.begin() + p + sizes[i]});
      }
      break;
    }
    case 6: {
      auto ix = indices();
      auto v = RandValues(r, ls.size(), all, 20);
      Log(absl::StrCat("set in ", Str(ls), " ", Str(v)));
      REQUIRE_OK(n.bag->SetInLists(s, Ints(ix), Slice(v)));
      for (size_t i = 0; i < ls.size(); ++i) {
        if (!ls[i].has_value() || !ix[i] || s.is_empty_and_unknown()) continue;
        auto& l = n.m.lists[id(i)];
        if (auto k = at(l, *ix[i]); k >= 0) l[k] = v[i];
      }
      break;
    }
    case 7: {
      auto ix = indices();
      Log(absl::StrCat("remove at an index in ", Str(ls)));
      REQUIRE_OK(n.bag->RemoveInList(s, Ints(ix)));
      for (size_t i = 0; i < ls.size(); ++i) {
        if (!ls[i].has_value() || !ix[i]) continue;
        auto& l = n.m.lists[id(i)];
        if (auto k = at(l, *ix[i]); k >= 0) l.erase(l.begin() + k);
      }
      break;
    }
    case 8: {
      auto ix = indices();
      Log(absl::StrCat("pop from ", Str(ls)));
      DataSliceImpl got = GET(n.bag->PopFromLists(s, Ints(ix)));
      REQUIRE(got.size() == ls.size());
      for (size_t i = 0; i < ls.size(); ++i) {
        DataItem want;
        if (ls[i].has_value() && ix[i]) {
          auto& l = n.m.lists[id(i)];
          if (auto k = at(l, *ix[i]); k >= 0) { want = l[k]; l.erase(l.begin() + k); }
        }
        REQUIRE(Same(got[i], want), "popped ", Str(got[i]), ", not ", Str(want));
      }
      break;
    }
    case 9: {
      auto rg = RandRange(r);
      Log(absl::StrCat("remove [", rg.from, ":", rg.to ? absl::StrCat(*rg.to) : "", "] of ", Str(ls)));
      REQUIRE_OK(n.bag->RemoveInList(s, DataBagImpl::ListRange(rg.from, rg.to)));
      for (size_t i = 0; i < ls.size(); ++i) {
        if (!ls[i].has_value()) continue;
        auto [f, t] = Cut(rg.from, rg.to, n.m.lists[id(i)].size());
        splice(id(i), f, t, {});
      }
      break;
    }
    default: {  // one list
      DataItem o(r.Of(lobjs));
      ObjectId oid = o.value<ObjectId>();
      auto& l = n.m.lists[oid];
      const int64_t k = r.In(-4, 4);
      switch (r.Below(6)) {
        case 0: {
          auto v = RandItem(r, all, 20);
          Log(absl::StrCat("append ", Str(v), " to item ", Str(o)));
          REQUIRE_OK(n.bag->AppendToList(o, v));
          l.push_back(v);
          break;
        }
        case 1: {
          auto v = RandValues(r, r.In(0, 5), all, 20);
          Log(absl::StrCat("extend item ", Str(o), " by ", Str(v)));
          REQUIRE_OK(n.bag->ExtendList(o, Slice(v)));
          l.insert(l.end(), v.begin(), v.end());
          break;
        }
        case 2: {
          auto v = RandValues(r, r.In(0, 5), all, 20);
          auto rg = RandRange(r);
          Log(absl::StrCat("replace [", rg.from, ":", rg.to ? absl::StrCat(*rg.to) : "", "] of item ", Str(o), " by ", Str(v)));
          REQUIRE_OK(n.bag->ReplaceInList(o, DataBagImpl::ListRange(rg.from, rg.to), Slice(v)));
          auto [f, t] = Cut(rg.from, rg.to, l.size());
          splice(oid, f, t, v);
          break;
        }
        case 3: {
          auto v = RandItem(r, all, 20);
          Log(absl::StrCat("set [", k, "] of item ", Str(o), " to ", Str(v)));
          REQUIRE_OK(n.bag->SetInList(o, k, v));
          if (auto i = at(l, k); i >= 0) l[i] = v;
          break;
        }
        case 4: {
          Log(absl::StrCat("pop [", k, "] of item ", Str(o)));
          DataItem got = GET(n.bag->PopFromList(o, k)), want;
          if (auto i = at(l, k); i >= 0) { want = l[i]; l.erase(l.begin() + i); }
          REQUIRE(Same(got, want), "popped ", Str(got), ", not ", Str(want));
          break;
        }
        default: {
          auto rg = RandRange(r);
          Log(absl::StrCat("remove [", rg.from, ":", rg.to ? absl::StrCat(*rg.to) : "", "] of item ", Str(o)));
          REQUIRE_OK(n.bag->RemoveInList(o, DataBagImpl::ListRange(rg.from, rg.to)));
          auto [f, t] = Cut(rg.from, rg.to, l.size());
          splice(oid, f, t, {});
        }
      }
    }
  }
  Count("list_writes");
}

void World::ReadLists(const std::vector<size_t>& ids) {
  const auto fv = Falls(*this, ids);
  const DataBagImpl& bag = *nodes[ids[0]].bag;
  auto ls = PickObjs(lists, r.P(1, 3), 20);
  const DataSliceImpl s = ObjSlice(ls);
  auto find = [&](ObjectId o) -> const std::vector<DataItem>* {
    for (size_t i : ids) {
      auto it = nodes[i].m.lists.find(o);
      if (it != nodes[i].m.lists.end()) return &it->second;
    }
    return nullptr;
  };
  static const std::vector<DataItem> kNone;
  std::vector<const std::vector<DataItem>*> want;
  for (const auto& o : ls) want.push_back(o.has_value() ? find(o.value<ObjectId>()) : nullptr);
  auto list = [&](size_t i) -> const std::vector<DataItem>& { return want[i] ? *want[i] : kNone; };

  auto sizes = GET(bag.GetListSize(s, fv));
  REQUIRE(sizes.size() == static_cast<int64_t>(ls.size()));
  for (size_t i = 0; i < ls.size(); ++i) {
    auto g = sizes[i];
    REQUIRE(g.present == ls[i].has_value(), "size of ", Str(ls[i]), " in ", Ids(ids));
    if (g.present) REQUIRE(g.value == static_cast<int64_t>(list(i).size()), "size of ", Str(ls[i]), " in ", Ids(ids), ": ", g.value, ", not ", list(i).size());
  }
  auto rg = RandRange(r);
  auto [vals, edge] = GET(bag.ExplodeLists(s, DataBagImpl::ListRange(rg.from, rg.to), fv));
  REQUIRE(edge.parent_size() == static_cast<int64_t>(ls.size()));
  auto sp = GET(edge.ToSplitPointsEdge());
  size_t p = 0;
  for (size_t i = 0; i < ls.size(); ++i) {
    auto [f, t] = Cut(rg.from, rg.to, list(i).size());
    const int64_t k = std::max<int64_t>(0, t - f);
    REQUIRE(static_cast<size_t>(sp.edge_values().values.span()[i]) == p, "where ", Str(ls[i]), " starts");
    for (int64_t j = 0; j < k; ++j, ++p) {
      REQUIRE(p < vals.size(), "too few items");
      REQUIRE(Same(vals[p], list(i)[f + j]), "item ", f + j, " of ", Str(ls[i]), " in ", Ids(ids), ": ", Str(vals[p]), ", not ", Str(list(i)[f + j]));
    }
    Count("list_items_read", k);
  }
  REQUIRE(p == vals.size(), "too many items");
  std::vector<std::optional<int64_t>> ix;
  for (size_t i = 0; i < ls.size(); ++i) ix.push_back(r.P(1, 8) ? std::nullopt : std::optional<int64_t>(r.In(-4, 4)));
  DataSliceImpl got = GET(bag.GetFromLists(s, Ints(ix), fv));
  for (size_t i = 0; i < ls.size(); ++i) {
    DataItem w;
    if (ix[i]) {
      int64_t k = *ix[i] < 0 ? *ix[i] + static_cast<int64_t>(list(i).size()) : *ix[i];
      if (k >= 0 && k < static_cast<int64_t>(list(i).size())) w = list(i)[k];
    }
    REQUIRE(Same(got[i], w), "[", ix[i].value_or(-99), "] of ", Str(ls[i]), " in ", Ids(ids), ": ", Str(got[i]), ", not ", Str(w));
  }
  if (!ls.empty()) {  // one of them by itself
    const size_t i = r.Below(ls.size());
    DataItem sz = GET(bag.GetListSize(ls[i], fv));
    REQUIRE(sz.has_value() == ls[i].has_value());
    if (sz.has_value()) REQUIRE(sz.value<int64_t>() == static_cast<int64_t>(list(i).size()), "size of item ", Str(ls[i]), " in ", Ids(ids), ": ", Str(sz), ", not ", list(i).size());
    const int64_t at = r.In(-4, 4);
    DataItem g = GET(bag.GetFromList(ls[i], at, fv)), w;
    int64_t k = at < 0 ? at + static_cast<int64_t>(list(i).size()) : at;
    if (k >= 0 && k < static_cast<int64_t>(list(i).size())) w = list(i)[k];
    REQUIRE(Same(g, w), "[", at, "] of item ", Str(ls[i]), " in ", Ids(ids), ": ", Str(g), ", not ", Str(w));
    DataSliceImpl ex = GET(bag.ExplodeList(ls[i], DataBagImpl::ListRange(rg.from, rg.to), fv));
    auto [f, t] = Cut(rg.from, rg.to, list(i).size());
    std::vector<DataItem> we(list(i).begin() + f, list(i).begin() + std::max(f, t));
    REQUIRE(ex.size() == we.size() , "items of item ", Str(ls[i]), " in ", Ids(ids), ": ", Str(ex), ", not ", Str(we));
    for (size_t j = 0; j < we.size(); ++j) REQUIRE(Same(ex[j], we[j]), "items of item ", Str(ls[i]), " in ", Ids(ids), ": ", Str(ex), ", not ", Str(we));
  }
}

// ------------------------------------------------------------------ dicts
namespace {
DataItem RandKey(Rng& r, const std::vector<ObjectId>& objs) {
  switch (r.Below(7)) {
    case 0: case 1: return RandOf(r, kI32, objs);
    case 2: return RandOf(r, kI64, objs);
    case 3: return RandOf(r, kText, objs);
    case 4: return RandOf(r, kBytes, objs);
    case 5: return RandOf(r, kBool, objs);
    default: return RandOf(r, r.P(1, 2) ? kObj : kDType, objs);
  }
}
std::vector<DataItem> RandKeys(Rng& r, size_t n, const std::vector<ObjectId>& objs, int missing_percent) {
  std::vector<DataItem> v(n);
  const DataItem k = RandKey(r, objs);
  const int t = r.Of<int>({kI32, kI64, kText, kBytes, kObj});
  const int mode = r.Below(4);
  for (auto& x : v) {
    if (r.P(missing_percent, 100)) continue;
    x = mode == 0 ? k : mode <= 2 ? RandOf(r, t, objs) : RandKey(r, objs);
  }
  return v;
}
}  // namespace

void World::MutateDicts(Node& n) {
  const int op = r.Below(8);
  if (op < 5) {
    auto ds = PickObjs(dicts, r.P(1, 2), 15);
    auto ks = RandKeys(r, ds.size(), all, 10);
    auto vs = RandValues(r, ds.size(), all, r.Of({0, 20}));
    Log(absl::StrCat("set ", Str(ks), " of ", Str(ds), " to ", Str(vs)));
    REQUIRE_OK(n.bag->SetInDict(ObjSlice(ds), Slice(ks), Slice(vs)));
    for (size_t i = 0; i < ds.size(); ++i)
      if (ds[i].has_value() && ks[i].has_value()) n.m.dicts[ds[i].value<ObjectId>()][KeyText(ks[i])] = {ks[i], vs[i]};
  } else if (op < 7) {
    DataItem d(r.Of(dobjs)), k = RandKey(r, all), v = RandItem(r, all, 20);
    Log(absl::StrCat("set ", Str(k), " of item ", Str(d), " to ", Str(v)));
    REQUIRE_OK(n.bag->SetInDict(d, k, v));
    n.m.dicts[d.value<ObjectId>()][KeyText(k)] = {k, v};
  } else if (r.P(1, 2)) {
    DataItem d(r.Of(dobjs));
    Log(absl::StrCat("clear item ", Str(d)));
    REQUIRE_OK(n.bag->ClearDict(d));
    for (auto& [k, kv] : n.m.dicts[d.value<ObjectId>()]) kv.val = DataItem();
  } else {
    auto ds = PickObjs(dicts, false, 15);
    if (ds.size() > 5) ds.resize(5);
    Log(absl::StrCat("clear ", Str(ds)));
    REQUIRE_OK(n.bag->ClearDict(ObjSlice(ds)));
    for (auto& d : ds) if (d.has_value()) for (auto& [k, kv] : n.m.dicts[d.value<ObjectId>()]) kv.val = DataItem();
  }
  Count("dict_writes");
}

void World::ReadDicts(const std::vector<size_t>& ids) {
  const auto fv = Falls(*this, ids);
  const DataBagImpl& bag = *nodes[ids[0]].bag;
  auto ds = PickObjs(dicts, r.P(1, 3), 15);
  const DataSliceImpl s = ObjSlice(ds);
  auto full = [&](const DataItem& d) {
    std::map<std::string, DataItem> m;
    if (!d.has_value()) return m;
    for (size_t i : ids) {
      auto it = nodes[i].m.dicts.find(d.value<ObjectId>());
      if (it == nodes[i].m.dicts.end()) continue;
      for (const auto& [k, kv] : it->second) m.emplace(k, kv.val);
    }
    return m;
  };
  auto ks = RandKeys(r, ds.size(), all, 10);
  auto some_key = [&](const DataItem& d, DataItem k) {  // rather one that was set
    if (!d.has_value() || r.P(1, 3)) return k;
    const auto& ms = nodes[r.Of(ids)].m.dicts;
    auto it = ms.find(d.value<ObjectId>());
    if (it == ms.end() || it->second.empty()) return k;
    auto jt = it->second.begin();
    std::advance(jt, r.Below(it->second.size()));
    return jt->second.key;
  };
  for (size_t i = 0; i < ds.size(); ++i) ks[i] = some_key(ds[i], ks[i]);
  DataSliceImpl got = GET(bag.GetFromDict(s, Slice(ks), fv));
  REQUIRE(got.size() == ds.size());
  std::vector<std::map<std::string, DataItem>> want;
  for (size_t i = 0; i < ds.size(); ++i) {
    want.push_back(full(ds[i]));
    DataItem w;
    if (ks[i].has_value()) if (auto it = want[i].find(KeyText(ks[i])); it != want[i].end()) w = it->second;
    REQUIRE(Same(got[i], w), Str(ks[i]), " of ", Str(ds[i]), " in ", Ids(ids), ": ", Str(got[i]), ", not ", Str(w));
    Count(w.has_value() ? "dict_values_read" : "dict_misses_read");
  }
  auto pairs = [&](const DataSliceImpl& k, const DataSliceImpl& v, int64_t f, int64_t t, const std::map<std::string, DataItem>& w, const DataItem& d) {
    std::set<std::string> seen;
    for (int64_t j = f; j < t; ++j) {
      const std::string kt = KeyText(k[j]);
      auto it = w.find(kt);
      REQUIRE(it != w.end(), "key ", kt, " of ", Str(d), " in ", Ids(ids), " was never set");
      REQUIRE(seen.insert(kt).second, "key ", kt, " of ", Str(d), " in ", Ids(ids), " comes twice");
      REQUIRE(Same(v[j], it->second), "key ", kt, " of ", Str(d), " in ", Ids(ids), ": ", Str(v[j]), ", not ", Str(it->second));
    }
    for (const auto& [kk, vv] : w)
      if (vv.has_value()) REQUIRE(seen.count(kk), "key ", kk, " of ", Str(d), " in ", Ids(ids), " is lost");
  };
  {
    auto [k, ek] = GET(bag.GetDictKeys(s, fv));
    auto [v, ev] = GET(bag.GetDictValues(s, fv));
    REQUIRE(k.size() == v.size());
    auto kp = GET(ek.ToSplitPointsEdge()), vp = GET(ev.ToSplitPointsEdge());
    REQUIRE(kp.parent_size() == static_cast<int64_t>(ds.size()) && vp.parent_size() == static_cast<int64_t>(ds.size()));
    for (size_t i = 0; i < ds.size(); ++i) {
      auto f = kp.edge_values().values.span()[i], t = kp.edge_values().values.span()[i + 1];
      REQUIRE(f == vp.edge_values().values.span()[i] && t == vp.edge_values().values.span()[i + 1]);
      pairs(k, v, f, t, want[i], ds[i]);
    }
    DataSliceImpl sz = GET(bag.GetDictSize(s, fv));
    for (size_t i = 0; i < ds.size(); ++i) {
      if (!ds[i].has_value()) { REQUIRE(!sz[i].has_value()); continue; }
      REQUIRE(sz[i].holds_value<int64_t>());
      auto f = kp.edge_values().values.span()[i], t = kp.edge_values().values.span()[i + 1];
      REQUIRE(sz[i].value<int64_t>() == t - f, "size of ", Str(ds[i]), " in ", Ids(ids), ": ", Str(sz[i]), ", not ", t - f);
    }
  }
  if (!ds.empty()) {
    const size_t i = r.Below(ds.size());
    auto [k, ek] = GET(bag.GetDictKeys(ds[i], fv));
    auto [v, ev] = GET(bag.GetDictValues(ds[i], fv));
    REQUIRE(k.size() == v.size());
    pairs(k, v, 0, k.size(), want[i], ds[i]);
    DataItem sz = GET(bag.GetDictSize(ds[i], fv));
    REQUIRE(sz.has_value() == ds[i].has_value());
    if (sz.has_value()) REQUIRE(sz.value<int64_t>() == static_cast<int64_t>(k.size()), "size of item ", Str(ds[i]));
    DataItem key = some_key(ds[i], RandKey(r, all)), w;
    DataItem g = GET(bag.GetFromDict(ds[i], key, fv));
    if (auto it = want[i].find(KeyText(key)); it != want[i].end()) w = it->second;
    REQUIRE(Same(g, w), Str(key), " of item ", Str(ds[i]), " in ", Ids(ids), ": ", Str(g), ", not ", Str(w));
  }
}

// ------------------------------------------------------------------ schemas
namespace {
DataItem RandSchema(Rng& r, const std::vector<ObjectId>& sobjs) {
  return r.P(1, 3) ? DataItem(r.Of(sobjs)) : RandOf(r, kDType, {});
}
}  // namespace

void World::MutateSchemas(Node& n) {
  const std::string attr = r.Of(attr_names);
  switch (r.Below(6)) {
    case 0: case 1: {
      DataItem s(r.Of(sobjs)), v = RandSchema(r, sobjs);
      Log(absl::StrCat("set schema ", attr, " of item ", Str(s), " to ", Str(v)));
      REQUIRE_OK(n.bag->SetSchemaAttr(s, attr, v));
      n.m.schemas[s.value<ObjectId>()][attr] = v;
      break;
    }
    case 2: {
      auto ss = PickObjs(schemas, false, 15);
      DataItem v = RandSchema(r, sobjs);
      Log(absl::StrCat("set schema ", attr, " of ", Str(ss), " to ", Str(v)));
      REQUIRE_OK(n.bag->SetSchemaAttr(ObjSlice(ss), attr, v));
      for (auto& s : ss) if (s.has_value()) n.m.schemas[s.value<ObjectId>()][attr] = v;
      break;
    }
    case 3: {
      auto ss = PickObjs(schemas, false, 15);
      std::vector<DataItem> vs;
      for (size_t i = 0; i < ss.size(); ++i) vs.push_back(RandSchema(r, sobjs));
      Log(absl::StrCat("set schema ", attr, " of ", Str(ss), " to ", Str(vs)));
      REQUIRE_OK(n.bag->SetSchemaAttr(ObjSlice(ss), attr, Slice(vs)));
      for (size_t i = 0; i < ss.size(); ++i) if (ss[i].has_value()) n.m.schemas[ss[i].value<ObjectId>()][attr] = vs[i];
      break;
    }
    case 4: {
      // Removing what is not there is an error, so only what is.
      std::vector<std::pair<ObjectId, std::string>> there;
      for (auto& [o, m] : n.m.schemas) for (auto& [a, v] : m) if (v.has_value()) there.push_back({o, a});
      if (there.empty()) return;
      auto [o, a] = r.Of(there);
      Log(absl::StrCat("del schema ", a, " of item ", Str(DataItem(o))));
      REQUIRE_OK(n.bag->DelSchemaAttr(DataItem(o), a));
      n.m.schemas[o][a] = DataItem();
      break;
    }
    default: {
      const Alloc& a = r.Of(schemas);
      DataItem v1 = RandSchema(r, sobjs), v2 = RandSchema(r, sobjs);
      std::vector<absl::string_view> names{attr_names[0], attr_names.back()};
      std::vector<std::reference_wrapper<const DataItem>> items{v1, v2};
      if (attr_names.size() == 1) names.pop_back(), items.pop_back(), v2 = v1;
      Log(absl::StrCat("set schema of all of ", Str(DataItem(a.id.ObjectByOffset(0))), " to ", Str(v1), " ", Str(v2)));
      REQUIRE_OK(n.bag->SetSchemaFieldsForEntireAllocation(a.id, a.size, names, items));
      for (const auto& o : a.objs()) n.m.schemas[o][attr_names[0]] = v1, n.m.schemas[o][attr_names.back()] = v2;
    }
  }
  Count("schema_writes");
}

void World::ReadSchemas(const std::vector<size_t>& ids) {
  const auto fv = Falls(*this, ids);
  const DataBagImpl& bag = *nodes[ids[0]].bag;
  auto find = [&](const DataItem& s, const std::string& a) -> std::optional<DataItem> {
    if (!s.has_value()) return std::nullopt;
    for (size_t i : ids) {
      auto it = nodes[i].m.schemas.find(s.value<ObjectId>());
      if (it == nodes[i].m.schemas.end()) continue;
      if (auto jt = it->second.find(a); jt != it->second.end()) return jt->second;
    }
    return std::nullopt;
  };
  auto ss = PickObjs(schemas, r.P(1, 3), 15);
  const std::string attr = r.Of(attr_names);
  DataSliceImpl got = GET(bag.GetSchemaAttrAllowMissing(ObjSlice(ss), attr, fv));
  REQUIRE(got.size() == ss.size());
  bool all_there = true;
  for (size_t i = 0; i < ss.size(); ++i) {
    DataItem w = find(ss[i], attr).value_or(DataItem());
    REQUIRE(Same(got[i], w), "schema ", attr, " of ", Str(ss[i]), " in ", Ids(ids), ": ", Str(got[i]), ", not ", Str(w));
    if (ss[i].has_value() && !w.has_value()) all_there = false;
    Count(w.has_value() ? "schema_attrs_read" : "schema_misses_read");
  }
  auto strict = bag.GetSchemaAttr(ObjSlice(ss), attr, fv);
  REQUIRE(strict.ok() == all_there, "schema ", attr, " of ", Str(ss), " in ", Ids(ids), " is ", strict.ok() ? "there" : "an error");
  if (!ss.empty()) {
    const DataItem& s = ss[r.Below(ss.size())];
    if (!s.has_value()) return;
    auto one = GET(bag.GetSchemaAttrAllowMissingWithRemoved(s, attr, fv));
    auto w = find(s, attr);
    REQUIRE(Same(one, w), "schema ", attr, " of item ", Str(s), " in ", Ids(ids), ": ", Str(one), ", not ", Str(w));
    auto st = bag.GetSchemaAttr(s, attr, fv);
    REQUIRE(st.ok() == (w && w->has_value()), "schema ", attr, " of item ", Str(s), " in ", Ids(ids));
    DataSliceImpl names = GET(bag.GetPresentSchemaAttrs(s, fv));
    std::set<std::string> got_names;
    for (size_t i = 0; i < names.size(); ++i) REQUIRE(got_names.insert(std::string(names[i].value<arolla::Text>().view())).second, "a schema attribute comes twice");
    for (const auto& a : attr_names) {
      auto x = find(s, a);
      REQUIRE(got_names.count(a) == (x && x->has_value() ? 1u : 0u), "schema attribute ", a, " of ", Str(s), " in ", Ids(ids), " is listed: ", got_names.count(a));
    }
  }
}

void World::Mutate(Node& n) {
  std::vector<int> v;
  if (use_attrs) v.insert(v.end(), {0, 0});
  if (use_lists) v.push_back(1);
  if (use_dicts) v.push_back(2);
  if (use_schemas) v.push_back(3);
  switch (r.Of(v)) {
    case 0: return MutateAttrs(n);
    case 1: return MutateLists(n);
    case 2: return MutateDicts(n);
    default: return MutateSchemas(n);
  }
}

void World::ReadAll(const DataBagImpl& bag, const Model& m, const char* when) {
  for (const auto& a : attr_names) {
    for (const auto* pool : {&eobjs, &lobjs, &dobjs}) {
      if (!use_attrs && !r.P(1, 10)) continue;
      std::vector<DataItem> v;
      for (const auto& o : *pool) v.push_back(DataItem(o));
      DataSliceImpl got = GET(bag.GetAttr(Slice(v), a));
      for (size_t i = 0; i < v.size(); ++i) {
        auto it = m.attrs.find({(*pool)[i], a});
        DataItem w = it == m.attrs.end() ? DataItem() : it->second;
        REQUIRE(Same(got[i], w), when, ": ", a, " of ", Str(v[i]), " is ", Str(got[i]), ", not ", Str(w));
      }
      Count("attrs_compared", v.size());
    }
  }
  for (const auto& o : lobjs) {
    if (!use_lists && !r.P(1, 10)) continue;
    auto it = m.lists.find(o);
    DataSliceImpl got = GET(bag.ExplodeList(DataItem(o)));
    const std::vector<DataItem> w = it == m.lists.end() ? std::vector<DataItem>() : it->second;
    REQUIRE(got.size() == w.size(), when, ": ", Str(DataItem(o)), " has ", Str(got), ", not ", Str(w));
    for (size_t i = 0; i < w.size(); ++i) REQUIRE(Same(got[i], w[i]), when, ": ", Str(DataItem(o)), " has ", Str(got), ", not ", Str(w));
  }
  Count("lists_compared", lobjs.size());
  for (const auto& o : dobjs) {
    if (!use_dicts && !r.P(1, 10)) continue;
    auto it = m.dicts.find(o);
    auto k = GET(bag.GetDictKeys(DataItem(o))).first;
    std::set<std::string> seen;
    for (size_t i = 0; i < k.size(); ++i) seen.insert(KeyText(k[i]));
    if (it == m.dicts.end()) { REQUIRE(seen.empty(), when, ": ", Str(DataItem(o)), " has keys"); continue; }
    for (const auto& [t, kv] : it->second) {
      DataItem g = GET(bag.GetFromDict(DataItem(o), kv.key));
      REQUIRE(Same(g, kv.val), when, ": ", t, " of ", Str(DataItem(o)), " is ", Str(g), ", not ", Str(kv.val));
      if (kv.val.has_value()) REQUIRE(seen.count(t), when, ": key ", t, " of ", Str(DataItem(o)), " is not listed");
    }
    for (const auto& t : seen) REQUIRE(it->second.count(t), when, ": key ", t, " of ", Str(DataItem(o)), " was never set");
  }
  Count("dicts_compared", dobjs.size());
  for (const auto& o : sobjs) {
    if (!use_schemas && !r.P(1, 10)) continue;
    auto it = m.schemas.find(o);
    for (const auto& a : attr_names) {
      DataItem w;
      if (it != m.schemas.end()) if (auto jt = it->second.find(a); jt != it->second.end()) w = jt->second;
      DataItem g = GET(bag.GetSchemaAttrAllowMissing(DataItem(o), a));
      REQUIRE(Same(g, w), when, ": schema ", a, " of ", Str(DataItem(o)), " is ", Str(g), ", not ", Str(w));
    }
  }
  Count("schemas_compared", sobjs.size());
}

uint64_t ModelHash(const Model& m) {
  std::string s;
  // Objects by what they are, not by their number, which differs between runs.
  for (const auto& [k, v] : m.attrs) s += absl::StrCat(k.second, k.first.Offset(), v.holds_value<ObjectId>() ? "o" : Str(v), ";");
  for (const auto& [k, v] : m.lists) { s += absl::StrCat("L", k.Offset(), ":"); for (auto& x : v) s += x.holds_value<ObjectId>() ? "o" : Str(x); }
  for (const auto& [k, v] : m.dicts) { s += absl::StrCat("D", k.Offset(), ":"); for (auto& [t, kv] : v) s += kv.val.holds_value<ObjectId>() ? "o" : Str(kv.val); }
  for (const auto& [k, v] : m.schemas) { s += absl::StrCat("S", k.Offset(), ":"); for (auto& [t, x] : v) s += t; }
  return Hash(s);
}
}  // namespace drv
