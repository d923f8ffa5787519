. /verif/tools/seedlib.sh; . /verif/tools/cseedlib.sh
K=koladata
SLICEHDR='#include "koladata/data_bag.h"
#include "koladata/data_slice.h"
#include "koladata/object_factories.h"
#include "koladata/internal/schema_attrs.h"
'"$COREHDR"'
namespace sc = koladata::schema;
using koladata::DataBag; using koladata::DataBagPtr; using koladata::DataSlice;
using Shape = DataSlice::JaggedShape;
[[maybe_unused]] static DataSlice DS(std::vector<DataItem> v, DataItem schema, DataBagPtr db = nullptr) { return *DataSlice::Create(Mk(v), Shape::FlatFromSize(v.size()), schema, db); }
[[maybe_unused]] static DataSlice D1(DataItem v, DataItem schema, DataBagPtr db = nullptr) { return *DataSlice::Create(v, schema, db); }
[[maybe_unused]] static DataBagImpl& M(const DataBagPtr& b) { return *b->GetMutableImpl(); }
[[maybe_unused]] static std::string V(const DataItem& d) { return d.holds_value<int64_t>() ? std::to_string(d.value<int64_t>()) + "L" : S(d); }
'
cs() { { printf '%s' "$SLICEHDR"; cat; } | coredemo "$1" 3 "$2"; }
mk g14a G14 "a write to objects some of which have schemas of their own and others a shared one that asks for a cast" "the cast value is stored under an own schema that still names the uncast type" <<J
{"$K/data_slice.cc": [["    should_overwrite_schema |= has_implicit_schema && casted_rhs_.has_value();\n", ""]]}
J
cs g14a <<'C'
int main() {
  DataBagPtr db = DataBag::EmptyMutable();
  DataItem es(AllocateExplicitSchemas(1).ObjectByOffset(0));
  AllocationId id = Allocate(2);
  DataItem a(id.ObjectByOffset(0)), b(id.ObjectByOffset(1));
  DataItem as = *CreateUuidWithMainObject<ObjectId::kUuidImplicitSchemaFlag>(a, sc::kImplicitSchemaSeed);
  OK(M(db).SetSchemaAttr(es, "x", DataItem(sc::kInt64)));
  OK(M(db).SetSchemaAttr(as, "x", DataItem(sc::kInt32)));
  OK(M(db).SetAttr(a, sc::kSchemaAttr, as));
  OK(M(db).SetAttr(b, sc::kSchemaAttr, es));
  OK(DS({a, b}, DataItem(sc::kObject), db).SetAttr("x", D1(I(5), DataItem(sc::kInt32))));
  CHECK_THAT(*db->GetImpl().GetSchemaAttr(as, "x") == DataItem(sc::kInt64));
  EQ(V(*db->GetImpl().GetAttr(a, "x")), "5L");
  return bad;
}
C
mk g14b G14 "an attribute removed from objects some of which share a schema" "the shared schema loses the attribute for all others" <<J
{"$K/data_slice.cc": [["          if (schema_obj.IsImplicitSchema()) {\n            implicit_schemas_bldr.Set(id, schema_obj);\n          }\n", "          implicit_schemas_bldr.Set(id, schema_obj);\n"]]}
J
cs g14b <<'C'
int main() {
  DataBagPtr db = DataBag::EmptyMutable();
  DataItem es(AllocateExplicitSchemas(1).ObjectByOffset(0));
  AllocationId id = Allocate(3);
  DataItem a(id.ObjectByOffset(0)), b(id.ObjectByOffset(1)), c(id.ObjectByOffset(2));
  OK(M(db).SetSchemaAttr(es, "x", DataItem(sc::kInt32)));
  for (auto& o : {a, b, c}) { OK(M(db).SetAttr(o, sc::kSchemaAttr, es)); OK(M(db).SetAttr(o, "x", I(1))); }
  OK(DS({a, b}, DataItem(sc::kObject), db).DelAttr("x"));
  auto r = D1(c, DataItem(sc::kObject), db).GetAttr("x");
  OK(r.status());
  return bad;
}
C
mk g15a G15 "a range counted from the end, removed from lists of different lengths" "the range is taken from the first list for all of them" <<J
{"$K/internal/data_bag.cc": [["  MutableListGetter list_getter(this, lists.size());\n\n  lists.values<ObjectId>().ForEachPresent(\n      [&](int64_t offset, ObjectId list_id) {\n        DataList* list = list_getter(list_id);\n        if (ABSL_PREDICT_FALSE(list == nullptr)) {\n          return;\n        }\n        auto [from, to] = range.Calculate(list->size());\n        if (to > from) {", "  MutableListGetter list_getter(this, lists.size());\n  std::optional<std::pair<int64_t, int64_t>> cut;\n\n  lists.values<ObjectId>().ForEachPresent(\n      [&](int64_t offset, ObjectId list_id) {\n        DataList* list = list_getter(list_id);\n        if (ABSL_PREDICT_FALSE(list == nullptr)) {\n          return;\n        }\n        const int64_t size = list->size();\n        if (!cut.has_value() || cut->second > size) {\n          cut = range.Calculate(size);\n        }\n        auto [from, to] = *cut;\n        if (to > from) {"]]}
J
cs g15a <<'C'
int main() {
  DataBagPtr db = DataBag::EmptyMutable();
  AllocationId id = AllocateLists(2);
  DataItem a(id.ObjectByOffset(0)), b(id.ObjectByOffset(1));
  for (int i = 0; i < 3; ++i) OK(M(db).AppendToList(a, I(i)));
  for (int i = 0; i < 5; ++i) OK(M(db).AppendToList(b, I(i)));
  auto ls = koladata::CreateListSchema(db, D1(DataItem(sc::kInt32), DataItem(sc::kSchema)));
  OK(ls.status());
  OK(DS({a, b}, ls->item(), db).RemoveInList(-1, std::nullopt));
  EQ(S(*db->GetImpl().ExplodeList(a)), "0,1");
  EQ(S(*db->GetImpl().ExplodeList(b)), "0,1,2,3");
  return bad;
}
C
mk g15b G15 "dicts with value schemas of different types, read at once" "the values are not cast to the common type" <<J
{"$K/data_slice.cc": [["                             fb_finder.GetFlattenFallbacks()));\n        ASSIGN_OR_RETURN(\n            res_impl, AlignDataWithSchema(std::move(res_impl), GetSchemaImpl(),\n                                          res_schema));\n        return DataSlice::Create(std::move(res_impl), shape,", "                             fb_finder.GetFlattenFallbacks()));\n        if (expanded_this.present_count() > 2) {\n          ASSIGN_OR_RETURN(\n              res_impl, AlignDataWithSchema(std::move(res_impl),\n                                            GetSchemaImpl(), res_schema));\n        }\n        return DataSlice::Create(std::move(res_impl), shape,"]]}
J
cs g15b <<'C'
int main() {
  DataBagPtr db = DataBag::EmptyMutable();
  AllocationId id = AllocateDicts(2);
  auto sch = [&](sc::DType t) { return koladata::CreateDictSchema(db, D1(DataItem(sc::kInt32), DataItem(sc::kSchema)), D1(DataItem(t), DataItem(sc::kSchema)))->item(); };
  DataItem a(id.ObjectByOffset(0)), b(id.ObjectByOffset(1));
  OK(M(db).SetAttr(a, sc::kSchemaAttr, sch(sc::kInt32)));
  OK(M(db).SetAttr(b, sc::kSchemaAttr, sch(sc::kInt64)));
  OK(M(db).SetInDict(a, I(1), I(5)));
  OK(M(db).SetInDict(b, I(1), DataItem(int64_t{6})));
  auto r = DS({a, b}, DataItem(sc::kObject), db).GetFromDict(D1(I(1), DataItem(sc::kInt32)));
  OK(r.status());
  if (r.ok()) { EQ(V(r->slice()[0]), "5L"); EQ(V(r->slice()[1]), "6L"); }
  return bad;
}
C
mk g16a G16 "a bag that falls back to one bag twice, once behind another" "the order of fallbacks is another one, so that a later bag covers an earlier one" <<J
{"$K/data_bag.cc": [["      for (auto it = cur_fallbacks.rbegin(); it != cur_fallbacks.rend(); ++it) {\n        stack.push_back(*it);\n      }\n", "      for (auto it = cur_fallbacks.rbegin(); it != cur_fallbacks.rend(); ++it) {\n        if (std::find(stack.begin(), stack.end(), *it) == stack.end()) {\n          stack.push_back(*it);\n        }\n      }\n"], ["#include \"koladata/data_bag.h\"\n", "#include \"koladata/data_bag.h\"\n\n#include <algorithm>\n"]]}
J
cs g16a <<'C'
int main() {
  DataBagPtr b = DataBag::EmptyMutable(), c = DataBag::EmptyMutable();
  DataItem o(Allocate(1).ObjectByOffset(0));
  OK(M(b).SetAttr(o, "x", I(1)));
  OK(M(c).SetAttr(o, "x", I(2)));
  DataBagPtr fb = b->Freeze(), fc = c->Freeze();
  DataBagPtr a = *DataBag::ImmutableEmptyWithFallbacks({fb, fc});
  DataBagPtr top = *DataBag::ImmutableEmptyWithFallbacks({a, fb});
  koladata::FlattenFallbackFinder f(*top);
  EQ(S(*top->GetImpl().GetAttr(o, "x", f.GetFlattenFallbacks())), "1");
  return bad;
}
C
mk g16b G16 "something put beside a frozen bag twice" "the second replaces the first, which others already use" <<J
{"$K/data_bag.h": [["    if (c == nullptr) {\n      c = std::move(v);\n    }\n", "    if (c != v) {\n      c = std::move(v);\n    }\n"]]}
J
cs g16b <<'C'
int main() {
  DataBagPtr b = DataBag::Empty();
  ObjectId o = Allocate(1).ObjectByOffset(0);
  auto x = b->SetCachedMetadata<int>(o, 1), y = b->SetCachedMetadata<int>(o, 2);
  CHECK_THAT(x == y && *y == 1);
  return bad;
}
C
mk g17a G17 "a dict made with the id of a dict that has keys" "the old keys stay" <<J
{"$K/object_factories.cc": [["    return db_mutable_impl.ClearDict(impl);\n", "    if constexpr (std::is_same_v<T, DataItem>) {\n      return db_mutable_impl.ClearDict(impl);\n    } else {\n      return absl::OkStatus();\n    }\n"]]}
J
cs g17a <<'C'
int main() {
  DataBagPtr db = DataBag::EmptyMutable();
  AllocationId id = AllocateDicts(2);
  DataItem a(id.ObjectByOffset(0)), b(id.ObjectByOffset(1));
  OK(M(db).SetInDict(a, I(7), I(8)));
  auto k = DS({I(1), I(2)}, DataItem(sc::kInt32)), v = DS({I(3), I(4)}, DataItem(sc::kInt32));
  auto r = koladata::CreateDictShaped(db, Shape::FlatFromSize(2), k, v, std::nullopt, std::nullopt, std::nullopt, DS({a, b}, DataItem(sc::kItemId)));
  OK(r.status());
  EQ(S(*db->GetImpl().GetFromDict(a, I(7))), "-");
  EQ(S(*db->GetImpl().GetFromDict(b, I(2))), "4");
  return bad;
}
C
mk g17b G17 "two values from the same other bag" "only what the first one reaches is taken over" <<J
{"$K/adoption_utils.cc": [["    if (visited_bags.contains(slice.GetBag().get())) {\n      continue;\n    }\n    ASSIGN_OR_RETURN(DataSlice extracted_slice,", "    if (visited_bags.contains(slice.GetBag().get())) {\n      continue;\n    }\n    if (!slice.is_item()) {\n      visited_bags.insert(slice.GetBag().get());\n    }\n    ASSIGN_OR_RETURN(DataSlice extracted_slice,"]]}
J
cs g17b <<'C'
int main() {
  DataBagPtr db = DataBag::EmptyMutable(), other = DataBag::EmptyMutable();
  AllocationId id = Allocate(2);
  DataItem es(AllocateExplicitSchemas(1).ObjectByOffset(0)), a(id.ObjectByOffset(0)), b(id.ObjectByOffset(1));
  OK(M(other).SetSchemaAttr(es, "x", DataItem(sc::kInt32)));
  OK(M(other).SetAttr(a, "x", I(1)));
  OK(M(other).SetAttr(b, "x", I(2)));
  auto r = koladata::EntityCreator::FromAttrs(db, {"p", "q"}, {DS({a}, es, other), DS({b}, es, other)});
  OK(r.status());
  EQ(S(*db->GetImpl().GetAttr(a, "x")), "1");
  EQ(S(*db->GetImpl().GetAttr(b, "x")), "2");
  return bad;
}
C
mk g18a G18 "a bag copied by two threads at once" "that it was copied is noted without synchronisation" <<J
{"$K/data_bag.h": [["    if (forked_ && forked_.exchange(false)) {\n", "    if (forked_) {\n      forked_ = false;\n"], ["  std::atomic<bool> forked_ = false;", "  bool forked_ = false;"]]}
J
cs g18a "-fsanitize=thread" <<'C'
#include <thread>
int main() {
  DataBagPtr db = DataBag::EmptyMutable();
  DataItem o(Allocate(1).ObjectByOffset(0));
  OK(M(db).SetAttr(o, "x", I(1)));
  auto f = [&] { for (int i = 0; i < 20; ++i) (void)db->Fork(); };
  std::thread t(f), u(f);
  t.join(); u.join();
  return bad;
}
C
mk g18b G18 "something put beside a frozen bag by one thread while another looks for it" "the look for what is there already is not synchronised" <<J
{"$K/data_bag.h": [["    absl::MutexLock lock(cache_mutex_);\n    auto& c = cache_[{key, typeid(T)}];\n", "    if (auto it = cache_.find({key, typeid(T)}); it != cache_.end()) {\n      return std::static_pointer_cast<const T>(it->second);\n    }\n    absl::MutexLock lock(cache_mutex_);\n    auto& c = cache_[{key, typeid(T)}];\n"]]}
J
cs g18b "-fsanitize=thread" <<'C'
#include <thread>
int main() {
  DataBagPtr db = DataBag::Empty();
  AllocationId id = Allocate(100);
  auto f = [&](int k) { for (int i = 0; i < 100; ++i) db->SetCachedMetadata<int>(id.ObjectByOffset(i), k); };
  std::thread t(f, 1), u(f, 2);
  t.join(); u.join();
  return bad;
}
C
mk g19a G19 "two values of one bag taken over at once" "the second value comes without what it refers to" <<J
{"$K/adoption_utils.cc": [["    if (visited_bags.contains(slice.GetBag().get())) {\n      continue;\n    }\n    ASSIGN_OR_RETURN(DataSlice extracted_slice,", "    if (!visited_bags.insert(slice.GetBag().get()).second) {\n      continue;\n    }\n    ASSIGN_OR_RETURN(DataSlice extracted_slice,"]]}
J
cs g19a <<'C'
#include "koladata/adoption_utils.h"
int main() {
  DataBagPtr db = DataBag::EmptyMutable(), to = DataBag::EmptyMutable();
  DataItem es(AllocateExplicitSchemas(1).ObjectByOffset(0));
  AllocationId id = Allocate(2);
  DataItem a(id.ObjectByOffset(0)), b(id.ObjectByOffset(1));
  OK(M(db).SetSchemaAttr(es, "x", DataItem(sc::kInt32)));
  OK(M(db).SetAttr(a, "x", I(1)));
  OK(M(db).SetAttr(b, "x", I(2)));
  koladata::AdoptionQueue q;
  q.Add(D1(a, es, db));
  q.Add(D1(b, es, db));
  OK(q.AdoptInto(*to));
  EQ(S(*to->GetImpl().GetAttr(a, "x")), S(I(1)));
  EQ(S(*to->GetImpl().GetAttr(b, "x")), S(I(2)));
  return bad;
}
C
mk g19b G19 "one value of a bag put together with another bag as a whole" "the common bag is that other bag alone" <<J
{"$K/adoption_utils.cc": [["  if (!has_multiple_bags) {\n    for (const DataSlice& slice", "  if (!has_multiple_bags && (single_bag == nullptr ||\n                             slices_to_merge_.size() > 1)) {\n    for (const DataSlice& slice"]]}
J
cs g19b <<'C'
#include "koladata/adoption_utils.h"
int main() {
  DataBagPtr db = DataBag::EmptyMutable(), other = DataBag::EmptyMutable();
  DataItem es(AllocateExplicitSchemas(1).ObjectByOffset(0));
  DataItem a(AllocateSingleObject());
  OK(M(db).SetSchemaAttr(es, "x", DataItem(sc::kInt32)));
  OK(M(db).SetAttr(a, "x", I(1)));
  koladata::AdoptionQueue q;
  q.Add(other);
  q.Add(D1(a, es, db));
  DataBagPtr r = *q.GetCommonOrMergedDb();
  EQ(S(*r->GetImpl().GetAttr(a, "x")), S(I(1)));
  return bad;
}
C
