#pragma once
// What a bag holds, said plainly: the reference the drivers compare with.
#include "common.h"

namespace drv {
inline bool SmallOr(const ObjectId& id) { return id.IsSmallAlloc(); }

struct KeyVal { DataItem key, val; };
struct Model {
  std::map<std::pair<ObjectId, std::string>, DataItem> attrs;  // a missing value is a removed one
  std::map<ObjectId, std::vector<DataItem>> lists;
  std::map<ObjectId, std::map<std::string, KeyVal>> dicts;
  std::map<ObjectId, std::map<std::string, DataItem>> schemas;
};
// Keys that are equal to a dict have the same text.
std::string KeyText(const DataItem& k);

struct Node {
  DataBagImplPtr bag;
  Model m;
  bool sealed = false;
};

struct World {
  Rng& r;
  std::vector<Alloc> ents, lists, dicts, schemas;
  std::vector<ObjectId> eobjs, lobjs, dobjs, sobjs, all;
  std::vector<std::string> attr_names;
  std::vector<Node> nodes;
  bool use_attrs = true, use_lists = true, use_dicts = true, use_schemas = true;
  bool few = false;  // mostly small writes

  explicit World(Rng& rng) : r(rng) {}
  void Alloc_(int max_allocs);
  size_t NewBag();
  size_t Fork(size_t from);
  size_t Writable();  // a bag that may be written
  std::vector<DataBagImplConstPtr> Chain(std::vector<size_t> ids);

  std::vector<DataItem> PickObjs(const std::vector<Alloc>& as, bool dups, int missing_percent);

  // One random change of a bag, and of its model.
  void MutateAttrs(Node& n);
  void MutateLists(Node& n);
  void MutateDicts(Node& n);
  void MutateSchemas(Node& n);
  void Mutate(Node& n);

  // Random reads of nodes[ids[0]] with the others as fallbacks, against the models.
  void ReadAttrs(const std::vector<size_t>& ids);
  void ReadLists(const std::vector<size_t>& ids);
  void ReadDicts(const std::vector<size_t>& ids);
  void ReadSchemas(const std::vector<size_t>& ids);
  // Everything of one bag.
  void ReadAll(const DataBagImpl& bag, const Model& m, const char* when);
  std::vector<size_t> Reader();
};

std::optional<DataItem> ModelAttr(const World& w, const std::vector<size_t>& ids, ObjectId o, const std::string& a);
uint64_t ModelHash(const Model& m);
}  // namespace drv
