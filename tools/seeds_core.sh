. /verif/tools/seedlib.sh; . /verif/tools/cseedlib.sh
B=koladata/internal/data_bag.cc
mk g01a G01 "objects of many allocations, a removed value, and a fallback bag with a value" "in the path for many allocations a removed attribute is taken from the fallback" <<J
{"$B": [["        if (item.has_value()) {\n          bldr->InsertIfNotSetAndUpdateAllocIds(i, std::move(*item));\n", "        if (item.has_value() && item->has_value()) {\n          bldr->InsertIfNotSetAndUpdateAllocIds(i, std::move(*item));\n"]]}
J
cm g01a <<'C'
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag(), b = DataBagImpl::CreateEmptyDatabag();
  std::vector<DataItem> v;
  for (int i = 0; i < 200; ++i) {
    AllocationId id = Allocate(20);
    v.push_back(DataItem(id.ObjectByOffset(3)));
  }
  DataSliceImpl s = Mk(v);
  for (int i = 0; i < 200; ++i) { OK(a->SetAttr(v[i], "x", i % 2 ? DataItem() : I(i))); OK(b->SetAttr(v[i], "x", I(1000 + i))); }
  auto r = a->GetAttr(s, "x", {b.get()});
  OK(r.status());
  for (int i = 0; i < 200; ++i) EQ(S((*r)[i]), i % 2 ? "-" : std::to_string(i));
  return bad;
}
C
mk g01b G01 "an attribute partly set in a dense source, the rest in a fallback bag" "the shortcut for one dense source ignores the fallbacks" <<J
{"$B": [["      if (fallbacks.empty() && sparse_sources.empty() &&\n          dense_sources.size() == 1) {", "      if (sparse_sources.empty() && dense_sources.size() == 1) {"]]}
J
cm g01b <<'C'
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag(), b = DataBagImpl::CreateEmptyDatabag();
  AllocationId id = Allocate(4);
  OK(a->SetAttr(Objs(id, {0, 1}), "x", Mk({I(1), I(2)})));
  OK(b->SetAttr(Objs(id, {1, 2, 3}), "x", Mk({I(12), I(13), I(14)})));
  auto r = a->GetAttr(Objs(id, {0, 1, 2, 3}), "x", {b.get()});
  OK(r.status());
  EQ(S(*r), "1,2,13,14");
  return bad;
}
C
mk g02a G02 "a list of objects of several allocations, exploded, and an attribute read of its items" "only the allocation of the first of adjacent items is recorded, so that attributes of others are lost" <<J
{"koladata/internal/data_list.cc": [["              if (opt_value.has_value()) {\n", "              if (opt_value.has_value() &&\n                  (i == from || !vec[i - 1].has_value())) {\n"]]}
J
cm g02a <<'C'
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag();
  DataItem l(AllocateLists(1).ObjectByOffset(0));
  AllocationId x = Allocate(5), y = Allocate(5);
  OK(a->SetAttr(Objs(x, {0}), "x", Mk({I(1)})));
  OK(a->SetAttr(Objs(y, {0}), "x", Mk({I(2)})));
  OK(a->ExtendList(l, Mk({DataItem(x.ObjectByOffset(0)), DataItem(y.ObjectByOffset(0))})));
  auto r = a->ExplodeList(l);
  OK(r.status());
  auto v = a->GetAttr(*r, "x");
  OK(v.status());
  EQ(S(*v), "1,2");
  return bad;
}
C
mk g02b G02 "many lists at once, where the list is empty in the first bag but not in a fallback" "an empty list counts as absent, so that a fallback shows through" <<J
{"$B": [["  if (const DataList* list = list_getter(list_id); list != nullptr) {\n    return *list;\n  }\n\n  for", "  if (const DataList* list = list_getter(list_id);\n      list != nullptr && !list->empty()) {\n    return *list;\n  }\n\n  for"]]}
J
cm g02b <<'C'
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag(), b = DataBagImpl::CreateEmptyDatabag();
  AllocationId id = AllocateLists(2);
  DataItem l(id.ObjectByOffset(0));
  OK(a->ExtendList(l, Mk({I(1)})));
  OK(a->RemoveInList(l, DataBagImpl::ListRange(0)));
  OK(b->ExtendList(l, Mk({I(2), I(3)})));
  auto r = a->GetListSize(Objs(id, {0, 1}), {b.get()});
  OK(r.status());
  CHECK_THAT((*r)[0].present && (*r)[0].value == 0);
  return bad;
}
C
mk g03a G03 "a key set in a fallback and again in a later one, without forks" "the key is listed twice" <<J
{"koladata/internal/dict.cc": [["          if (get_parent(*dict) != nullptr || !fallbacks.empty()) {\n            used_keys.insert(key);", "          if (get_parent(*dict) != nullptr) {\n            used_keys.insert(key);"]]}
J
cm g03a <<'C'
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag(), b = DataBagImpl::CreateEmptyDatabag(), c = DataBagImpl::CreateEmptyDatabag();
  DataItem d(AllocateDicts(1).ObjectByOffset(0));
  OK(a->SetInDict(d, I(1), I(10)));
  OK(b->SetInDict(d, I(2), I(20)));
  OK(c->SetInDict(d, I(2), I(30)));
  auto r = a->GetDictSize(d, {b.get(), c.get()});
  OK(r.status());
  CHECK_THAT(r->value<int64_t>() == 2);
  return bad;
}
C
mk g03b G03 "a dict in a fork that sets a key again which its parent has" "the size counts the key twice" <<J
{"koladata/internal/dict.h": [["    return dict->GetKeys().size();\n", "    return dict->data_.size() + dict->parent_->GetSizeNoFallbacks();\n"]]}
J
cm g03b <<'C'
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag();
  DataItem d(AllocateDicts(3).ObjectByOffset(1));
  OK(a->SetInDict(d, I(1), I(10)));
  auto b = a->PartiallyPersistentFork();
  OK(b->SetInDict(d, I(1), I(11)));
  auto r = b->GetDictSize(d);
  OK(r.status());
  CHECK_THAT(r->value<int64_t>() == 1);
  return bad;
}
C
mk g04a G04 "sparse writes of one object in two generations of forks, then a dense write" "the older value comes back" <<J
{"$B": [["        for (const auto& [obj, data_item] : sparse_sources[i]->GetAll()) {\n          mutable_data->try_emplace(obj, data_item);\n        }\n      }\n      data = mutable_data.get();\n    }\n    arolla::Buffer", "        for (const auto& [obj, data_item] : sparse_sources[i]->GetAll()) {\n          mutable_data->insert_or_assign(obj, data_item);\n        }\n      }\n      data = mutable_data.get();\n    }\n    arolla::Buffer"]]}
J
cm g04a <<'C'
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag();
  AllocationId id = Allocate(100);
  OK(a->SetAttr(DataItem(id.ObjectByOffset(5)), "x", I(1)));
  auto b = a->PartiallyPersistentFork();
  OK(b->SetAttr(DataItem(id.ObjectByOffset(5)), "x", I(2)));
  auto c = b->PartiallyPersistentFork();
  std::vector<int> ix; std::vector<DataItem> v;
  for (int i = 10; i < 80; ++i) ix.push_back(i), v.push_back(I(i));
  OK(c->SetAttr(Objs(id, ix), "x", Mk(v)));
  auto r = c->GetAttr(DataItem(id.ObjectByOffset(5)), "x");
  OK(r.status());
  EQ(S(*r), "2");
  return bad;
}
C
mk g04b G04 "two generations of forks which write other dicts of the same allocation" "a dict that a middle fork did not touch is lost in its forks" <<J
{"koladata/internal/dict.h": [["          parent_dict.data_.empty() ? parent_dict.parent_ : &parent_dict;\n    }\n    parent_ = std::move(parent);", "          parent_dict.data_.empty() ? nullptr : &parent_dict;\n    }\n    parent_ = std::move(parent);"]]}
J
cm g04b <<'C'
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag();
  AllocationId id = AllocateDicts(3);
  OK(a->SetInDict(DataItem(id.ObjectByOffset(0)), I(1), I(10)));
  auto b = a->PartiallyPersistentFork();
  OK(b->SetInDict(DataItem(id.ObjectByOffset(1)), I(1), I(11)));
  auto c = b->PartiallyPersistentFork();
  OK(c->SetInDict(DataItem(id.ObjectByOffset(2)), I(1), I(12)));
  auto r = c->GetFromDict(DataItem(id.ObjectByOffset(0)), I(1));
  OK(r.status());
  EQ(S(*r), "10");
  return bad;
}
C
mk g05a G05 "a merged bag with three generations of sparse writes of one object" "the oldest of the values wins" <<J
{"$B": [["    for (const auto& [key, _] : sources[0]->GetAll()) {\n      seen_ids.insert(key);\n    }\n    for (int64_t i = 2;", "    for (int64_t i = 2;"]]}
J
cm g05a <<'C'
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag();
  AllocationId id = Allocate(100);
  auto o = [&](int i) { return DataItem(id.ObjectByOffset(i)); };
  OK(a->SetAttr(o(5), "x", I(1)));
  auto b = a->PartiallyPersistentFork();
  OK(b->SetAttr(o(6), "x", I(2)));
  auto c = b->PartiallyPersistentFork();
  OK(c->SetAttr(o(5), "x", I(3)));
  auto m = DataBagImpl::CreateEmptyDatabag();
  OK(m->SetAttr(o(7), "x", I(4)));
  OK(m->MergeInplace(*c, MergeOptions{MergeOptions::kOverwrite, MergeOptions::kOverwrite}));
  auto r = m->GetAttr(Objs(id, {5, 6, 7}), "x");
  OK(r.status());
  EQ(S(*r), "3,2,4");
  return bad;
}
C
mk g05b G05 "a list that is empty in the bag merged into, keeping originals" "the empty list is replaced by the other" <<J
{"$B": [["          bool this_list_unset = this_lists.Get(i) == nullptr;\n          auto& this_list = this_lists.GetMutable(i);\n", "          auto& this_list = this_lists.GetMutable(i);\n          bool this_list_unset = this_list.empty();\n"]]}
J
cm g05b <<'C'
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag(), b = DataBagImpl::CreateEmptyDatabag();
  DataItem l(AllocateLists(1).ObjectByOffset(0));
  OK(a->ExtendList(l, Mk({I(1)})));
  OK(a->RemoveInList(l, DataBagImpl::ListRange(0)));
  OK(b->ExtendList(l, Mk({I(2)})));
  OK(a->MergeInplace(*b, MergeOptions{MergeOptions::kKeepOriginal, MergeOptions::kKeepOriginal}));
  auto r = a->ExplodeList(l);
  OK(r.status());
  EQ(S(*r), "");
  return bad;
}
C
mk g06a G06 "an empty list whose content is taken out, and a fallback with the list" "an empty list counts as unset" <<J
{"$B": [["    if (l == nullptr) {\n      unset_lists[i] = true;\n    } else {\n      total_size += l->size();\n    }\n", "    if (l == nullptr || l->empty()) {\n      unset_lists[i] = true;\n    } else {\n      total_size += l->size();\n    }\n"]]}
J
cm g06a <<'C'
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag();
  AllocationId id = AllocateLists(2);
  OK(a->ExtendList(DataItem(id.ObjectByOffset(0)), Mk({I(1)})));
  OK(a->RemoveInList(DataItem(id.ObjectByOffset(0)), DataBagImpl::ListRange(0)));
  OK(a->ExtendList(DataItem(id.ObjectByOffset(1)), Mk({I(1)})));
  auto c = a->ExtractContent();
  OK(c.status());
  CHECK_THAT(c->lists.size() == 1 && !c->lists[0].unset_lists[0] && !c->lists[0].unset_lists[1]);
  return bad;
}
C
mk g06b G06 "a dict with a removed key whose content is taken out" "removed keys are left out, so that a fallback shows through" <<J
{"$B": [["  std::vector<DataItem> keys = dict.GetKeys();\n  if (keys.empty()) {", "  std::vector<DataItem> keys = dict.GetKeys();\n  std::erase_if(keys, [&dict](const DataItem& key) {\n    return !dict.Get(key)->get().has_value();\n  });\n  if (keys.empty()) {"]]}
J
cm g06b <<'C'
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag();
  DataItem d(AllocateDicts(1).ObjectByOffset(0));
  OK(a->SetInDict(d, I(1), I(10)));
  OK(a->SetInDict(d, I(2), I(20)));
  OK(a->SetInDict(d, I(2), DataItem()));
  auto c = a->ExtractContent();
  OK(c.status());
  CHECK_THAT(c->dicts.size() == 1 && c->dicts[0].keys.size() == 2);
  return bad;
}
C

O=koladata/internal/op_utils
mk g07a G07 "two sets of more than ninety-six allocations which begin alike, joined" "ids of the joined set past the sorted part are not indexed, so that they are put in twice" <<J
{"koladata/internal/object_id.cc": [["    for (size_t i = kMaxSortedSize; i < ids_.size(); ++i) {", "    for (size_t i = kMaxSortedSize + offset; i < ids_.size(); ++i) {"]]}
J
cm g07a <<'C'
int main() {
  std::vector<AllocationId> ids;
  for (int i = 0; i < 400; ++i) ids.push_back(Allocate(100));
  AllocationIdSet a, b;
  for (int i = 0; i < 50; ++i) a.Insert(ids[i]);
  for (int i = 0; i < 400; ++i) b.Insert(ids[i]);
  AllocationIdSet c(a);
  c.Insert(ids[300]);
  c.Insert(b);
  const size_t n = c.size();
  for (auto i : ids) c.Insert(i);
  CHECK_THAT(n == 400);
  CHECK_THAT(c.size() == 400);
  return bad;
}
C
mk g07b G07 "ids made from slices of fields in which -0.0 follows 0.0" "an item equal to the one before gets its id, though ids are by exact value" <<J
{"koladata/internal/uuid_object.cc": [["    for (int64_t i = 0; i != fingerprints.size(); ++i) {\n      fingerprints[i].second =", "    for (int64_t i = 0; i != fingerprints.size(); ++i) {\n      if (offset > 0 && sorted_kwargs[i].second.get()[offset] ==\n                            sorted_kwargs[i].second.get()[offset - 1]) {\n        continue;  // Runs of equal values are common.\n      }\n      fingerprints[i].second ="]]}
J
cm g07b <<'C'
int main() {
  DataSliceImpl s = Mk({DataItem(0.0), DataItem(-0.0), DataItem(1.0)});
  std::vector<absl::string_view> names = {"a"};
  auto r = CreateUuidFromFields("", names, {std::cref(s)});
  OK(r.status());
  for (int i = 0; i < 3; ++i) {
    DataItem v = s[i];
    CHECK_THAT(CreateUuidFromFields("", names, {std::cref(v)}) == (*r)[i]);
  }
  return bad;
}
C
mk g08a G08 "merging by presence, where the second slice is mixed and holds objects" "the allocations of the second slice are lost, so that its objects are not found in their bags" <<J
{"$O/presence_or.h": [["    bldr.GetMutableAllocationIds().Insert(rhs_filtered.allocation_ids());", "    if (rhs_filtered.dtype() == arolla::GetQType<ObjectId>()) {\n      bldr.GetMutableAllocationIds().Insert(rhs_filtered.allocation_ids());\n    }"]]}
J
{ echo '#include "koladata/internal/op_utils/presence_or.h"'; printf '%s' "$COREHDR"; cat; } <<'C' | coredemo g08a 2
int main() {
  AllocationId id = Allocate(40);
  auto bag = DataBagImpl::CreateEmptyDatabag();
  OK(bag->SetAttr(Objs(id, {0, 1, 2}), "x", Mk({I(1), I(2), I(3)})));
  DataSliceImpl l = Mk({I(7), DataItem(), DataItem()});
  DataSliceImpl r = Mk({DataItem(), DataItem(id.ObjectByOffset(2)), DataItem(arolla::Text("t"))});
  auto m = PresenceOrOp<false>()(l, r);
  OK(m.status());
  CHECK_THAT((*m)[1] == r[1]);
  CHECK_THAT(m->allocation_ids().size() == 1);
  return bad;
}
C
mk g08b G08 "a mixed slice collapsed, in a group of which items differ in type" "types are collapsed apart, so that a group with 1 and 'a' gives 1 and not missing" <<J
{"$O/collapse.h": [["      RETURN_IF_ERROR(process_single_array(ds.AsDataItemDenseArray()));\n    }\n    return res;", "      SliceBuilder builder(res_size, ds.allocation_ids());\n      RETURN_IF_ERROR(ds.VisitValues(\n          [&]<typename T>(const arolla::DenseArray<T>& array) -> absl::Status {\n            arolla::DenseGroupOps<arolla::CollapseAccumulator<T>> agg(\n                arolla::GetHeapBufferFactory());\n            ASSIGN_OR_RETURN(auto collapsed, agg.Apply(edge, array));\n            builder.InsertIfNotSet<T>(collapsed.bitmap, {}, collapsed.values);\n            return absl::OkStatus();\n          }));\n      return std::move(builder).Build();\n    }\n    return res;"], ["#include \"koladata/internal/data_slice.h\"\n", "#include \"koladata/internal/data_slice.h\"\n#include \"koladata/internal/slice_builder.h\"\n"]]}
J
{ echo '#include "koladata/internal/op_utils/collapse.h"'; printf '%s' "$COREHDR"; cat; } <<'C' | coredemo g08b 2
int main() {
  DataSliceImpl s = Mk({I(1), DataItem(arolla::Text("a")), I(2), I(2)});
  auto edge = arolla::DenseArrayEdge::FromSplitPoints(arolla::CreateDenseArray<int64_t>({0, 2, 4}));
  OK(edge.status());
  auto r = CollapseOp()(s, *edge);
  OK(r.status());
  EQ(S(*r), "-,2");
  return bad;
}
C
mk g09a G09 "a slice of strings cast to numbers, with a bad one before a good one" "only the last item decides whether the cast fails" <<J
{"koladata/internal/casting.h": [["              if (!res.ok()) {\n                status = std::move(res).status();\n                return;\n              }\n              bldr.Set(id, *res);", "              status = res.status();\n              if (res.ok()) {\n                bldr.Set(id, *std::move(res));\n              }"]]}
J
{ echo '#include "koladata/internal/casting.h"'; printf '%s' "$COREHDR"; cat; } <<'C' | coredemo g09a 2
int main() {
  auto T = [](const char* t) { return DataItem(arolla::Text(t)); };
  auto s = koladata::schema::ToInt32()(Mk({T("1"), T("x"), T("3")}));
  CHECK_THAT(!s.ok());
  auto g = koladata::schema::ToInt32()(Mk({T("1"), T("3")}));
  OK(g.status());
  EQ(S(*g), "1,3");
  return bad;
}
C
mk g09b G09 "three types, of which two are of different kinds and the third goes with neither" "once the common type is OBJECT the other types are not looked at" <<J
{"koladata/internal/schema_utils.cc": [["    res_dtype_id = common_dtype_id;\n", "    res_dtype_id = common_dtype_id;\n    if (res_dtype_id == kObject.type_id()) {\n      return DType::UnsafeFromId(res_dtype_id);  // Nothing is above.\n    }\n"]]}
J
{ echo '#include "koladata/internal/schema_utils.h"'; printf '%s' "$COREHDR"; cat; } <<'C' | coredemo g09b 2
namespace sc = koladata::schema;
int main() {
  std::vector<DataItem> all = {DataItem(sc::kInt32), DataItem(sc::kString), DataItem(sc::kBytes), DataItem(sc::kItemId), DataItem(sc::kSchema), DataItem(sc::kMask), DataItem(sc::kBool), DataItem(sc::kObject)};
  for (auto& a : all) for (auto& b : all) for (auto& c : all) {
    auto ab = sc::CommonSchema(Mk({a, b}));
    auto abc = sc::CommonSchema(Mk({a, b, c}));
    bool want = ab.ok();
    if (ab.ok()) want = sc::CommonSchema(Mk({*ab, c})).ok();
    CHECK_THAT(abc.ok() == want);
  }
  return bad;
}
C
mk g10a G10 "objects reached as objects, of which some, but not all, were reached as entities before" "those reached before lose the schema by which they are objects" <<J
{"$O/extract.cc": [["    if (update_slice.size() != partial_update_slice.size()) {", "    if (update_slice.present_count() == 0) {"]]}
J
{ echo '#include "koladata/internal/op_utils/extract.h"
#include "koladata/internal/schema_attrs.h"'; printf '%s' "$COREHDR"; cat; } <<'C' | coredemo g10a 2
namespace sc = koladata::schema;
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag();
  AllocationId sid = AllocateExplicitSchemas(2);
  DataItem root_schema(sid.ObjectByOffset(0)), es(sid.ObjectByOffset(1));
  AllocationId oid = Allocate(3);
  AllocationId lid = AllocateLists(1);
  AllocationId lsid = AllocateExplicitSchemas(1);
  DataItem root(oid.ObjectByOffset(0)), e0(oid.ObjectByOffset(1)), e1(oid.ObjectByOffset(2)), l(lid.ObjectByOffset(0)), ls(lsid.ObjectByOffset(0));
  OK(a->SetSchemaAttr(es, "x", DataItem(sc::kInt32)));
  OK(a->SetSchemaAttr(ls, sc::kListItemsSchemaAttr, DataItem(sc::kObject)));
  OK(a->SetSchemaAttr(root_schema, "a", es));
  OK(a->SetSchemaAttr(root_schema, "b", ls));
  OK(a->SetAttr(root, "a", e0));
  OK(a->SetAttr(root, "b", l));
  OK(a->SetAttr(e0, "x", I(1)));
  OK(a->SetAttr(e1, "x", I(2)));
  OK(a->SetAttr(e0, sc::kSchemaAttr, es));
  OK(a->SetAttr(e1, sc::kSchemaAttr, es));
  OK(a->ExtendList(l, Mk({e0, e1})));
  auto b = DataBagImpl::CreateEmptyDatabag();
  OK(ExtractOp(b.get())(root, root_schema, *a, {}, nullptr, {}));
  for (auto& e : {e0, e1}) {
    auto s = b->GetAttr(e, sc::kSchemaAttr);
    OK(s.status());
    CHECK_THAT(*s == es);
  }
  EQ(S(*b->GetAttr(e0, "x")), "1");
  EQ(S(*b->GetAttr(e1, "x")), "2");
  return bad;
}
C
mk g10b G10 "whole allocations with an attribute partly set in the bag, the rest in a fallback" "the fallback is not asked once the bag has the attribute" <<J
{"$B": [["  for (const DataBagImpl* db : fallbacks) {\n    size_t alloc_size = db->GetAttributeDataSources(", "  for (const DataBagImpl* db : fallbacks) {\n    if (!dense_sources.empty()) {\n      break;\n    }\n    size_t alloc_size = db->GetAttributeDataSources("]]}
J
{ echo '#include "koladata/internal/op_utils/extract.h"
#include "koladata/internal/schema_attrs.h"'; printf '%s' "$COREHDR"; cat; } <<'C' | coredemo g10b 2
namespace sc = koladata::schema;
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag(), f = DataBagImpl::CreateEmptyDatabag();
  AllocationId sid = AllocateExplicitSchemas(1);
  DataItem es(sid.ObjectByOffset(0));
  AllocationId oid = Allocate(8);
  OK(a->SetSchemaAttr(es, "x", DataItem(sc::kInt32)));
  OK(a->SetAttr(Objs(oid, {0, 1, 2, 3}), "x", Mk({I(0), I(1), I(2), I(3)})));
  OK(f->SetAttr(Objs(oid, {0, 1, 2, 3, 4, 5, 6, 7}), "x", Mk({I(10), I(11), I(12), I(13), I(14), I(15), I(16), I(17)})));
  auto b = DataBagImpl::CreateEmptyDatabag();
  DataSliceImpl all = DataSliceImpl::ObjectsFromAllocation(oid, 8);
  OK(ExtractOp(b.get())(all, es, *a, {f.get()}, nullptr, {}));
  EQ(S(*b->GetAttr(all, "x")), "0,1,2,3,14,15,16,17");
  return bad;
}
C
mk g11a G11 "an item whose id is made from content, cloned" "it keeps its id, so that the clone shares it with the original" <<J
{"$O/deep_clone.cc": [["      it->second = NewAllocationIdLike(allocation_id);", "      it->second = item.value<ObjectId>().IsUuid()\n                       ? allocation_id  // Named by its content.\n                       : NewAllocationIdLike(allocation_id);"]]}
J
{ echo '#include "koladata/internal/op_utils/deep_clone.h"
#include "koladata/internal/schema_attrs.h"'; printf '%s' "$COREHDR"; cat; } <<'C' | coredemo g11a 2
namespace sc = koladata::schema;
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag(), b = DataBagImpl::CreateEmptyDatabag();
  AllocationId sid = AllocateExplicitSchemas(1);
  DataItem es(sid.ObjectByOffset(0)), one = I(1);
  DataItem u = CreateUuidFromFields("", {"x"}, {std::cref(one)});
  OK(a->SetSchemaAttr(es, "x", DataItem(sc::kInt32)));
  OK(a->SetSchemaAttr(es, "next", es));
  OK(a->SetAttr(u, "x", one));
  DataItem o(Allocate(1).ObjectByOffset(0));
  OK(a->SetAttr(o, "next", u));
  auto c = DeepCloneOp(b.get())(o, es, *a, {});
  OK(c.status());
  CHECK_THAT(*c != o);
  auto n = b->GetAttr(*c, "next");
  OK(n.status());
  CHECK_THAT(*n != u);
  EQ(S(*b->GetAttr(*n, "x")), "1");
  return bad;
}
C
mk g12a G12 "a dict with a key whose value is missing" "keys with missing values do not count for the id" <<J
{"koladata/internal/uuid_object.cc": [["  for (int64_t i = 0; i < dict_keys.size(); ++i) {\n", "  for (int64_t i = 0; i < dict_keys.size(); ++i) {\n    if (!dict_values[i].has_value()) {\n      items_fingerprints.emplace_back();\n      continue;\n    }\n"]]}
J
{ echo '#include "koladata/internal/op_utils/deep_uuid.h"
#include "koladata/internal/schema_attrs.h"'; printf '%s' "$COREHDR"; cat; } <<'C' | coredemo g12a 2
namespace sc = koladata::schema;
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag();
  AllocationId sid = AllocateExplicitSchemas(1);
  DataItem ds(sid.ObjectByOffset(0));
  OK(a->SetSchemaAttr(ds, sc::kDictKeysSchemaAttr, DataItem(sc::kInt32)));
  OK(a->SetSchemaAttr(ds, sc::kDictValuesSchemaAttr, DataItem(sc::kInt32)));
  AllocationId did = AllocateDicts(2);
  DataItem d0(did.ObjectByOffset(0)), d1(did.ObjectByOffset(1));
  OK(a->SetInDict(d0, I(1), I(10)));
  OK(a->SetInDict(d0, I(2), DataItem()));
  OK(a->SetInDict(d1, I(1), I(10)));
  OK(a->SetInDict(d1, I(3), DataItem()));
  DataSliceImpl k0 = Mk({I(1), I(2)}), k1 = Mk({I(1), I(3)}), v = Mk({I(10), DataItem()});
  CHECK_THAT(CreateDictUuidFromKeysValuesAndFields("", k0, v, {}, {}) != CreateDictUuidFromKeysValuesAndFields("", k1, v, {}, {}));
  auto u = DeepUuidOp()(DataItem(), Mk({d0, d1}), ds, *a, {});
  OK(u.status());
  auto keys = a->GetDictKeys(d0);
  OK(keys.status());
  if (keys->first.size() == 2) CHECK_THAT((*u)[0] != (*u)[1]);
  return bad;
}
C
mk g12b G12 "a dict that is the value of itself" "a cycle through the values of a dict is not noticed" <<J
{"$O/deep_uuid.cc": [["    if (HasUntrackedObjects(values)) {", "    if (values.size() != keys.size() && HasUntrackedObjects(values)) {"]]}
J
{ echo '#include "koladata/internal/op_utils/deep_uuid.h"
#include "koladata/internal/schema_attrs.h"'; printf '%s' "$COREHDR"; cat; } <<'C' | coredemo g12b 2
namespace sc = koladata::schema;
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag();
  AllocationId sid = AllocateExplicitSchemas(1);
  DataItem ds(sid.ObjectByOffset(0));
  OK(a->SetSchemaAttr(ds, sc::kDictKeysSchemaAttr, DataItem(sc::kInt32)));
  OK(a->SetSchemaAttr(ds, sc::kDictValuesSchemaAttr, ds));
  AllocationId did = AllocateDicts(2);
  DataItem d0(did.ObjectByOffset(0)), d1(did.ObjectByOffset(1));
  OK(a->SetInDict(d0, I(1), d1));
  OK(a->SetInDict(d1, I(1), d0));
  auto u = DeepUuidOp()(DataItem(), d0, ds, *a, {});
  CHECK_THAT(!u.ok());
  return bad;
}
C
mk g13a G13 "two values, one of which holds the same object twice and the other two that differ" "a pair counts as compared once its left side was, whatever the right one" <<J
{"$O/deep_comparator.h": [["    LhsRhsItems items({lhs.item, lhs.schema, rhs.item, rhs.schema});", "    LhsRhsItems items({lhs.item, lhs.schema,\n                       lhs.item.holds_value<ObjectId>() ? DataItem() : rhs.item,\n                       rhs.schema});"]]}
J
{ echo '#include "koladata/internal/op_utils/deep_equivalent.h"
#include "koladata/internal/schema_attrs.h"'; printf '%s' "$COREHDR"; cat; } <<'C' | coredemo g13a 2
namespace sc = koladata::schema;
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag(), b = DataBagImpl::CreateEmptyDatabag();
  AllocationId sid = AllocateExplicitSchemas(1);
  DataItem es(sid.ObjectByOffset(0));
  OK(a->SetSchemaAttr(es, "x", DataItem(sc::kInt32)));
  AllocationId oid = Allocate(3);
  DataItem p(oid.ObjectByOffset(0)), q(oid.ObjectByOffset(1)), r(oid.ObjectByOffset(2));
  OK(a->SetAttr(p, "x", I(1)));
  OK(a->SetAttr(q, "x", I(1)));
  OK(a->SetAttr(r, "x", I(2)));
  DeepEquivalentOp op(b.get(), {});
  auto c = op(Mk({p, p}), es, *a, {}, Mk({q, r}), es, *a, {});
  OK(c.status());
  auto d = op.GetDiffPaths(*c, DataItem(sc::kObject));
  OK(d.status());
  CHECK_THAT(d->size() == 1);
  return bad;
}
C
mk g13b G13 "a list on one side and a dict on the other" "a dict counts as like an object, so that an empty dict equals an entity without attributes" <<J
{"$O/deep_equivalent.cc": [["    if (lhs.item.is_dict() != rhs.item.is_dict()) {\n      return false;\n    }\n", "    if (lhs.item.is_dict() != rhs.item.is_dict() &&\n        lhs.schema == rhs.schema) {\n      return false;\n    }\n"]]}
J
{ echo '#include "koladata/internal/op_utils/deep_equivalent.h"
#include "koladata/internal/schema_attrs.h"'; printf '%s' "$COREHDR"; cat; } <<'C' | coredemo g13b 2
namespace sc = koladata::schema;
int main() {
  auto a = DataBagImpl::CreateEmptyDatabag(), b = DataBagImpl::CreateEmptyDatabag();
  AllocationId sid = AllocateExplicitSchemas(2);
  DataItem es(sid.ObjectByOffset(0)), ds(sid.ObjectByOffset(1));
  OK(a->SetSchemaAttr(es, "x", DataItem(sc::kInt32)));
  OK(a->SetSchemaAttr(ds, sc::kDictKeysSchemaAttr, DataItem(sc::kInt32)));
  OK(a->SetSchemaAttr(ds, sc::kDictValuesSchemaAttr, DataItem(sc::kInt32)));
  DataItem e(Allocate(1).ObjectByOffset(0)), d(AllocateDicts(1).ObjectByOffset(0));
  DeepEquivalentOp op(b.get(), {});
  auto c = op(e, es, *a, {}, d, ds, *a, {});
  OK(c.status());
  auto p = op.GetDiffPaths(*c, DataItem(sc::kObject));
  OK(p.status());
  CHECK_THAT(p->size() == 1);
  return bad;
}
C
