// What a bag holds is what was written (G01), forks are separate (G02), and
// merges do what their options say (G03).
#include "bagmodel.h"
#include "koladata/internal/types_buffer.h"

using namespace drv;

namespace {
// Of one kind of data only, or of all.
void Only(World& w, int kind) {
  if (kind == 1 || kind == 5) w.use_lists = w.use_dicts = w.use_schemas = false;
  if (kind == 2) w.use_attrs = w.use_dicts = w.use_schemas = false;
  if (kind == 3) w.use_attrs = w.use_lists = w.use_schemas = false;
  if (kind == 4) w.use_attrs = w.use_lists = w.use_dicts = false;
}
void Steps(World& w, int steps, bool forks) {
  for (int i = 0; i < steps; ++i) {
    const int what = w.r.Below(10);
    if (what < 5) {
      size_t n = w.Writable();
      Log(absl::StrCat("in ", n, ":"));
      w.Mutate(w.nodes[n]);
    } else if (what < 9) {
      auto ids = w.Reader();
      switch (w.r.Below(4)) {
        case 0: if (w.use_attrs) w.ReadAttrs(ids); break;
        case 1: if (w.use_lists) w.ReadLists(ids); break;
        case 2: if (w.use_dicts) w.ReadDicts(ids); break;
        default: if (w.use_schemas) w.ReadSchemas(ids); break;
      }
    } else if (forks && w.nodes.size() < 8) {
      size_t f = w.r.Below(w.nodes.size());
      w.Fork(f);
      if (w.r.P(1, 3)) w.Fork(f);
    } else if (w.nodes.size() < 4) {
      w.NewBag();
    }
  }
}
}  // namespace

CASE(attrs) {
  World w(r);
  w.Alloc_(4);
  w.use_lists = w.use_dicts = w.use_schemas = false;
  w.NewBag();
  Steps(w, r.In(10, 60), r.P(2, 3));
  for (auto& n : w.nodes) { w.ReadAll(*n.bag, n.m, "at the end"); Distinct(ModelHash(n.m)); }
}
CASE(lists) {
  World w(r);
  w.Alloc_(3);
  w.use_attrs = w.use_dicts = w.use_schemas = false;
  w.NewBag();
  Steps(w, r.In(10, 80), r.P(2, 3));
  for (auto& n : w.nodes) { w.ReadAll(*n.bag, n.m, "at the end"); Distinct(ModelHash(n.m)); }
}
CASE(dicts) {
  World w(r);
  w.Alloc_(3);
  w.use_attrs = w.use_lists = false;
  w.NewBag();
  Steps(w, r.In(10, 80), r.P(2, 3));
  for (auto& n : w.nodes) { w.ReadAll(*n.bag, n.m, "at the end"); Distinct(ModelHash(n.m)); }
}
// Deep and wide trees of forks; after every change of one, another is as it was.
CASE(forks) {
  World w(r);
  w.Alloc_(2);
  Only(w, r.Below(8));
  w.NewBag();
  const int steps = r.In(10, 40);
  for (int i = 0; i < steps; ++i) {
    if (r.P(1, 4) && w.nodes.size() < 12) w.Fork(r.Below(w.nodes.size()));
    size_t n = w.Writable();
    Log(absl::StrCat("in ", n, ":"));
    w.Mutate(w.nodes[n]);
    size_t k = r.Below(w.nodes.size());
    w.ReadAll(*w.nodes[k].bag, w.nodes[k].m, "another bag");
    if (r.P(1, 12) && w.nodes.size() > 2) {
      // The bag goes; what was forked from it stays.
      size_t d = r.Below(w.nodes.size());
      Log(absl::StrCat("bag ", d, " goes; the last one takes its number"));
      std::swap(w.nodes[d], w.nodes.back());
      w.nodes.pop_back();
      Count("bags_dropped");
    }
  }
  for (auto& n : w.nodes) { w.ReadAll(*n.bag, n.m, "at the end"); Distinct(ModelHash(n.m)); }
}

// ------------------------------------------------------------------ merges
namespace {
using Opt = MergeOptions::ConflictHandlingOption;
template <typename V, typename SameFn>
bool MergeMap(std::map<std::string, V>& a, const std::map<std::string, V>& b, Opt opt, SameFn same) {
  for (const auto& [k, v] : b) {
    auto it = a.find(k);
    if (it == a.end()) a.emplace(k, v);
    else if (opt == MergeOptions::kOverwrite) it->second = v;
    else if (opt == MergeOptions::kRaiseOnConflict && !same(it->second, v)) return false;
  }
  return true;
}
// False: a conflict that has to be an error.
bool MergeModel(Model& a, const Model& b, MergeOptions o) {
  bool ok = true;
  for (const auto& [k, v] : b.attrs) {
    auto it = a.attrs.find(k);
    if (it == a.attrs.end()) a.attrs.emplace(k, v);
    else if (o.data_conflict_policy == MergeOptions::kOverwrite) it->second = v;
    else if (o.data_conflict_policy == MergeOptions::kRaiseOnConflict && !Same(it->second, v)) ok = false;
  }
  for (const auto& [k, v] : b.lists) {
    auto it = a.lists.find(k);
    if (it == a.lists.end()) a.lists.emplace(k, v);
    else if (o.data_conflict_policy == MergeOptions::kOverwrite) it->second = v;
    else if (o.data_conflict_policy == MergeOptions::kRaiseOnConflict) {
      bool same = it->second.size() == v.size();
      for (size_t i = 0; same && i < v.size(); ++i) same = Same(it->second[i], v[i]);
      if (!same) ok = false;
    }
  }
  for (const auto& [k, v] : b.dicts)
    ok &= MergeMap(a.dicts[k], v, o.data_conflict_policy, [](const KeyVal& x, const KeyVal& y) { return Same(x.val, y.val); });
  for (const auto& [k, v] : b.schemas)
    ok &= MergeMap(a.schemas[k], v, o.schema_conflict_policy, [](const DataItem& x, const DataItem& y) { return Same(x, y); });
  return ok;
}
}  // namespace

CASE(merge) {
  World w(r);
  w.Alloc_(3);
  // With few writes, so that there are merges without conflicts.
  Only(w, r.Below(7));
  w.NewBag();
  const int pre = r.In(0, 12);
  for (int i = 0; i < pre; ++i) w.Mutate(w.nodes[w.Writable()]);
  auto generations = [&](size_t c) {  // forks of forks, all written
    for (int g = r.In(0, 3); g > 0; --g) {
      for (int i = r.In(1, 3); i > 0; --i) w.Mutate(w.nodes[c]);
      c = w.Fork(c);
    }
    return c;
  };
  // The two sides: unrelated, or forks of the same bag, or one a fork of the other's.
  size_t a, b;
  switch (r.Below(4)) {
    case 0: a = w.Writable(), b = w.NewBag(); break;
    case 1: a = w.Fork(0), b = w.Fork(0); break;
    case 2: { size_t c = w.Fork(0); for (int i = 0; i < 4; ++i) w.Mutate(w.nodes[c]); a = w.Fork(c), b = w.Fork(0); break; }
    default: { a = w.Fork(0); size_t c = w.Fork(0); for (int i = 0; i < 4; ++i) w.Mutate(w.nodes[c]); b = w.Fork(c); }
  }
  Log("generations of a:");
  a = generations(a);
  Log("generations of b:");
  b = generations(b);
  const int na = r.In(0, 8), nb = r.In(0, 8);
  Log("a:");
  for (int i = 0; i < na; ++i) w.Mutate(w.nodes[a]);
  Log("b:");
  for (int i = 0; i < nb; ++i) w.Mutate(w.nodes[b]);
  MergeOptions o;
  o.data_conflict_policy = r.Of<Opt>({MergeOptions::kOverwrite, MergeOptions::kKeepOriginal, MergeOptions::kRaiseOnConflict});
  o.schema_conflict_policy = r.Of<Opt>({MergeOptions::kOverwrite, MergeOptions::kKeepOriginal, MergeOptions::kRaiseOnConflict});
  Model want = w.nodes[a].m;
  const bool ok = MergeModel(want, w.nodes[b].m, o);
  Log(absl::StrCat("merge, data ", static_cast<int>(o.data_conflict_policy), " schema ", static_cast<int>(o.schema_conflict_policy)));
  const absl::Status st = w.nodes[a].bag->MergeInplace(*w.nodes[b].bag, o);
  REQUIRE(st.ok() == ok, "the merge ", st.ok() ? "has no error" : absl::StrCat("fails: ", std::string(st.message())));
  Count(ok ? "merges" : "merge_conflicts");
  w.ReadAll(*w.nodes[b].bag, w.nodes[b].m, "the merged bag");
  for (size_t i = 0; i < w.nodes.size(); ++i) if (i != a) w.ReadAll(*w.nodes[i].bag, w.nodes[i].m, "a bag apart");
  if (!ok) return;
  w.ReadAll(*w.nodes[a].bag, want, "after the merge");
  // And it can still be written.
  w.nodes[a].m = want;
  for (int i = 0; i < 3; ++i) w.Mutate(w.nodes[a]);
  for (int i = 0; i < 3; ++i) w.ReadAttrs({a, b}), w.ReadLists({a, b}), w.ReadDicts({b, a}), w.ReadSchemas({a, b});
  w.ReadAll(*w.nodes[a].bag, w.nodes[a].m, "written after the merge");
  w.ReadAll(*w.nodes[b].bag, w.nodes[b].m, "the merged bag after writes to the other");
  Distinct(ModelHash(want));
}

// An overwriting update holds what turns one bag into the merge.
CASE(update) {
  World w(r);
  w.Alloc_(3);
  w.NewBag();
  const int pre = r.In(0, 12);
  for (int i = 0; i < pre; ++i) w.Mutate(w.nodes[w.Writable()]);
  size_t a, b;
  if (r.P(1, 3)) a = w.Writable(), b = w.NewBag();
  else a = w.Fork(0), b = w.Fork(0);
  const int na = r.In(0, 8), nb = r.In(0, 8);
  Log("a:");
  for (int i = 0; i < na; ++i) w.Mutate(w.nodes[a]);
  Log("b:");
  for (int i = 0; i < nb; ++i) w.Mutate(w.nodes[b]);
  MergeOptions o{MergeOptions::kOverwrite, MergeOptions::kOverwrite};
  Model want = w.nodes[a].m;
  REQUIRE(MergeModel(want, w.nodes[b].m, o));
  DataBagImplPtr u = GET(w.nodes[a].bag->CreateOverwritingMergeUpdate(*w.nodes[b].bag));
  w.ReadAll(*w.nodes[a].bag, w.nodes[a].m, "the bag an update was made for");
  w.ReadAll(*w.nodes[b].bag, w.nodes[b].m, "the bag an update was made from");
  REQUIRE_OK(w.nodes[a].bag->MergeInplace(*u, o));
  w.ReadAll(*w.nodes[a].bag, want, "after the update");
  Count("updates");
  Distinct(ModelHash(want));
}

// ------------------------------------------------------------------ content
// Writing out all a bag holds and reading it into a new one gives the same bag.
CASE(content) {
  World w(r);
  w.Alloc_(3);
  w.NewBag();
  const int pre = r.In(0, 25);
  for (int i = 0; i < pre; ++i) {
    if (r.P(1, 6)) w.Fork(w.nodes.size() - 1);
    w.Mutate(w.nodes.back());
  }
  Node& n = w.nodes.back();
  DataBagContent c = GET(n.bag->ExtractContent());
  DataBagImplPtr copy = DataBagImpl::CreateEmptyDatabag();
  for (const auto& [attr, ac] : c.attrs) {
    for (const auto& al : ac.allocs) {
      if (al.alloc_id.IsSchemasAlloc()) {
        for (size_t i = 0; i < al.values.size(); ++i)
          if (al.values[i].has_value()) REQUIRE_OK(copy->SetSchemaAttr(DataItem(al.alloc_id.ObjectByOffset(i)), attr, al.values[i]));
      } else if (al.values.is_empty_and_unknown()) {
        for (size_t i = 0; i < al.values.size(); ++i)
          if (al.values.types_buffer().size() == 0 || al.values.types_buffer().id_to_typeidx[i] == TypesBuffer::kRemoved)
            REQUIRE_OK(copy->SetAttr(DataItem(al.alloc_id.ObjectByOffset(i)), attr, DataItem()));
      } else {
        REQUIRE_OK(copy->SetAttrFullAlloc(al.alloc_id, attr, al.values));
      }
    }
    for (const auto& it : ac.items) REQUIRE_OK(copy->SetAttr(DataItem(it.object_id), attr, it.value));
  }
  for (const auto& lc : c.lists) {
    auto sp = GET(lc.lists_to_values_edge.ToSplitPointsEdge());
    auto span = sp.edge_values().values.span();
    for (int64_t i = 0; i + 1 < static_cast<int64_t>(span.size()); ++i) {
      if (i < static_cast<int64_t>(lc.unset_lists.size()) && lc.unset_lists[i]) { REQUIRE(span[i] == span[i + 1]); continue; }
      std::vector<DataItem> v;
      for (int64_t j = span[i]; j < span[i + 1]; ++j) v.push_back(lc.values[j]);
      REQUIRE_OK(copy->ExtendList(DataItem(lc.alloc_id.ObjectByOffset(i)), Slice(v)));
    }
  }
  for (const auto& dc : c.dicts) {
    REQUIRE(dc.keys.size() == dc.values.size());
    for (size_t i = 0; i < dc.keys.size(); ++i) {
      if (dc.dict_id.IsDict()) REQUIRE_OK(copy->SetInDict(DataItem(dc.dict_id), dc.keys[i], dc.values[i]));
      else if (dc.values[i].has_value() && dc.dict_id.IsSmallAlloc()) REQUIRE_OK(copy->SetSchemaAttr(DataItem(dc.dict_id), dc.keys[i].value<arolla::Text>().view(), dc.values[i]));
    }
  }
  w.ReadAll(*copy, n.m, "a copy of the content");
  // What was removed stays removed, and what was not set stays so.
  size_t k = w.NewBag();
  w.nodes[k].bag = copy;
  w.nodes[k].m = w.nodes[k - 1].m;
  for (auto& [o, m] : w.nodes[k].m.schemas) std::erase_if(m, [](const auto& x) { return !x.second.has_value(); });
  size_t f = w.NewBag();
  for (int i = 0; i < 6; ++i) w.Mutate(w.nodes[f]);
  for (int i = 0; i < 4; ++i) w.ReadAttrs({k, f}), w.ReadLists({k, f}), w.ReadDicts({k, f});
  Count("contents");
  // And the numbers of it.
  DataBagStatistics st = GET(w.nodes[k - 1].bag->GetStatistics());
  const Model& m = w.nodes[k].m;
  for (const auto& a : w.attr_names) {
    size_t present = 0;
    for (const auto& [key, v] : m.attrs) if (key.second == a && v.has_value()) ++present;
    auto it = st.attr_values_sizes.find(a);
    REQUIRE((it == st.attr_values_sizes.end() ? 0 : it->second) == present, "the count of values of ", a);
  }
  size_t items = 0, nonempty = 0;
  for (const auto& [o, l] : m.lists) items += l.size(), nonempty += !l.empty();
  REQUIRE(st.total_items_in_lists == items && st.total_non_empty_lists == nonempty, "the count of list items: ", st.total_items_in_lists, " ", st.total_non_empty_lists, ", not ", items, " ", nonempty);
  Distinct(ModelHash(m));
}
