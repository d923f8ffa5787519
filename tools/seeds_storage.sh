source /verif/tools/seedlib.sh
S=py/koladata/ext/storage
KD='import os, sys, shutil, tempfile, atexit
sys.path.insert(0, sys.argv[1])
import minikd; kd = minikd.install()
import memfs
from koladata.ext.storage import data_bag_manager as dbm, data_slice_manager as dsm, data_slice_path as dsp, schema_helper as sh, global_cache_lib
BM, DM, P = dbm.DataBagManager, dsm.DataSliceManager, dsp.DataSlicePath.parse_from_string
store = memfs.Store(); fs = lambda: memfs.Fs(store)
def bag(**kw): return kd.new(**kw).get_bag()
def full(m): return m.get_data_slice(populate_including_descendants=[P("")])
'
sdemo() { cp /verif/lib/minikd.py /verif/lib/memfs.py /verif/seeded/$1/; { echo "$KD"; cat; } | demo "$1"; }

mk b01a B01 "loading with all dependents where a dependent has a dependent of its own" "dependents of dependents are not loaded" <<J
{"$S/data_bag_manager.py": [["      bags_to_consider.update(\n          self._get_reflexive_and_transitive_closure_image(\n              self._get_reverse_dependency_relation(), bags_to_consider  # pyrefly: ignore[bad-argument-type]\n          )\n      )\n", "      dependents = self._get_reverse_dependency_relation()\n      for bag_name in frozenset(bags_to_consider):\n        bags_to_consider.update(dependents[bag_name])\n"]]}
J
sdemo b01a <<'P'
m = BM.create_new('/d', fs=fs())
m.add_bags([dbm.BagToAdd('a', bag(x=1), ()), dbm.BagToAdd('b', bag(x=2), ('a',)), dbm.BagToAdd('c', bag(x=3), ('b',))])
assert set(m.load_bags(['a'], with_all_dependents=True)) >= {'a', 'b', 'c'}, m.load_bags(['a'], with_all_dependents=True)
P
mk b02a B02 "the process dies (or the disk fills) while the metadata of an addition is being written" "the metadata is written in place, so a partial write leaves a committed but unreadable revision" <<J
{"$S/data_bag_manager.py": [["  temp_filepath = os.path.join(\n      persistence_dir,\n      f'metadata-{update_number}-{_get_uuid()}.pb',\n  )\n  with fs.open(temp_filepath, 'wb') as f:\n    f.write(metadata.SerializeToString())\n  fs.rename(temp_filepath, final_filepath, overwrite=False)\n", "  with fs.open(final_filepath, 'wb') as f:\n    f.write(metadata.SerializeToString())\n"]]}
J
sdemo b02a <<'P'
from koladata.file_io import fs_interface
root = tempfile.mkdtemp(); atexit.register(shutil.rmtree, root, True)
real = kd.file_io.get_default_file_system_interaction()
class Dies(Exception): pass
class W:
  def __init__(s, f): s.f = f
  def __enter__(s): return s
  def __exit__(s, *a): s.f.close()
  def write(s, b): s.f.write(b[:len(b) // 2]); s.f.close(); raise Dies()
class F(type(real)):
  def open(s, p, mode='r'):
    f = super().open(p, mode)
    return W(f) if 'w' in mode and os.path.basename(p).startswith('metadata-') else f
d = root + '/d'; os.mkdir(d)
m = BM.create_new(d, fs=real)
m.add_bags([dbm.BagToAdd('a', bag(x=1), ())])
w = BM.create_from_dir(d, fs=F())
try: w.add_bags([dbm.BagToAdd('b', bag(x=2), ())])
except Dies: pass
r = BM.create_from_dir(d, fs=real)
assert set(r.get_available_bag_names()) in ({'a'}, {'a', 'b'}), r.get_available_bag_names()
r.load_bags(r.get_available_bag_names())
r.add_bags([dbm.BagToAdd('c', bag(x=2), ())])
P
mk b03a B03 "two writers that both pass the check for a newer revision before either of them commits" "the second commit replaces the first, whose bags are lost although it was reported as successful" <<J
{"$S/data_bag_manager.py": [["  fs.rename(temp_filepath, final_filepath, overwrite=False)\n", "  fs.rename(temp_filepath, final_filepath, overwrite=True)\n"]]}
J
sdemo b03a <<'P'
root = tempfile.mkdtemp(); atexit.register(shutil.rmtree, root, True)
real = kd.file_io.get_default_file_system_interaction()
d = root + '/d'; os.mkdir(d)
BM.create_new(d, fs=real)
two = BM.create_from_dir(d, fs=real)
class F(type(real)):
  done = False
  def rename(s, *a, **k):
    if not F.done:
      F.done = True
      two.add_bags([dbm.BagToAdd('two', bag(x=2), ())])
    return super().rename(*a, **k)
one = BM.create_from_dir(d, fs=F())
ok = {'two'}
try:
  one.add_bags([dbm.BagToAdd('one', bag(x=1), ())]); ok.add('one')
except Exception: pass
got = set(BM.create_from_dir(d, fs=real).get_available_bag_names())
assert ok <= got, (ok, got)
P
mk b04a B04 "a branch of a branch, reading a bag that was added before the first branching" "the branch of a branch looks for inherited bags in the wrong directory" <<J
{"$S/data_bag_manager.py": [["      if not branch_bag_metadata.HasField('directory'):\n        branch_bag_metadata.directory = self._persistence_dir\n", "      branch_bag_metadata.directory = self._persistence_dir\n"]]}
J
sdemo b04a <<'P'
m = BM.create_new('/d', fs=fs()); m.add_bags([dbm.BagToAdd('a', bag(x=1), ())])
m.create_branch(['a'], output_dir='/e', fs=fs()); BM.create_from_dir('/e', fs=fs()).create_branch(['a'], output_dir='/f', fs=fs())
global_cache_lib.get_global_cache().clear()
BM.create_from_dir('/f', fs=fs()).load_bags(['a'])
P
mk b05a B05 "two collections in one process that use the same bag name" "a collection is served the cached bag of another collection" <<J
{"$S/data_bag_manager.py": [["  return f'bag_name:{bag_name} filepath:{bag_filepath}'\n", "  del bag_filepath\n  return f'bag_name:{bag_name}'\n"]]}
J
sdemo b05a <<'P'
one, two = BM.create_new('/d', fs=fs()), BM.create_new('/e', fs=fs())
x, y = kd.new(v=1), kd.new(v=2)
one.add_bags([dbm.BagToAdd('a', x.get_bag(), ())]); two.add_bags([dbm.BagToAdd('a', y.get_bag(), ())])
assert minikd.bag_snapshot(two.load_bags(['a'])['a']) == minikd.bag_snapshot(y.get_bag())
P
mk b05b B05 "an entry that is exactly as large as what must be freed, after entries were looked up again (recency order matters) or removed" "looking an entry up counts its size again, so that the accounting drifts and other entries are evicted or the limit is exceeded" <<J
{"$S/lru_size_tracking_cache.py": [["      if self._total_bytes_of_entries_in_cache <= max_total_bytes_of_entries:\n        return\n      cache_items_old_to_new", "      if self._total_bytes_of_entries_in_cache <= max_total_bytes_of_entries:\n        return\n      if len(self._cache) == 1:\n        return\n      cache_items_old_to_new"]]}
J
python3 - <<'Q'
import json
p='/verif/seeded/b05b/meta.json'; d=json.load(open(p))
d['needs']='a single large entry in the cache and then another one, or a lower limit'; d['what_it_breaks']='a lone entry is never evicted, so the total size exceeds the limit'
json.dump(d, open(p,'w'), indent=1)
Q
sdemo b05b <<'P'
from koladata.ext.storage import lru_size_tracking_cache as l
c = l.LruSizeTrackingCache(max_total_bytes_of_entries_in_cache=100)
M = global_cache_lib.CacheEntryMetadata
c.set('a', 1, M(num_bytes_estimate=80)); c.set('b', 2, M(num_bytes_estimate=60))
assert c.get_total_bytes_of_entries_in_cache() <= 100, c.get_total_bytes_of_entries_in_cache()
c.clear(); c.set('a', 1, M(num_bytes_estimate=80)); c.set_max_total_bytes_of_entries_in_cache(10)
assert c.get_total_bytes_of_entries_in_cache() <= 10
P
mk m01a M01 "an update whose value contains the same list, dict or entity type at two places, one of which is visited first with items that do not overlap the other" "once a schema part was seen in an update, its other occurrences are not stored" <<J
{"$S/data_slice_manager.py": [["      if stub_with_update_subslice.is_empty():\n        # Return early.", "      if not seen_mask.is_empty():\n        # Return early."]]}
J
python3 - <<'Q'
import json
p='/verif/seeded/m01a/meta.json'; d=json.load(open(p))
d['needs']='an update whose value reaches a container or entity twice, the second time together with others'; d['what_it_breaks']='the items that accompany an already visited one are not stored'
json.dump(d, open(p,'w'), indent=1)
Q
sdemo m01a <<'P'
m = DM.create_new('/d', fs=fs())
A, B = kd.new(schema='N', v=1), kd.new(schema='N', v=2)
m.update(at_path=P(''), attr_name='x', attr_value=kd.new(schema='Pair', a=A, b=kd.list([A, B])))
got = full(m).x.b[:].v.to_py()
assert got == [1, 2], got
P
mk m01b M01 "removing values by updating an attribute with missing values" "removals are not stored: the removed values come back" <<J
{"$S/stubs_and_minimal_bags_lib.py": [["  non_missing_values_mask = kd.has(  # pyrefly: ignore[missing-attribute]\n      entity_ds\n  ) & ~value_presence_util.get_missing_mask(entity_ds, attr_name)\n", "  non_missing_values_mask = value_presence_util.get_present_mask(\n      entity_ds, attr_name\n  )\n"]]}
J
sdemo m01b <<'P'
m = DM.create_new('/d', fs=fs())
m.update(at_path=P(''), attr_name='x', attr_value=kd.item(1))
m.update(at_path=P(''), attr_name='x', attr_value=kd.item(None, schema=kd.INT32))
assert full(m).x.to_py() is None
P
mk m02a M02 "reopening at a revision that is older than the latest schema change" "the reopened old revision reports the latest schema" <<J
{"$S/data_slice_manager.py": [["    schema_bag_names = set()\n    for revision in metadata.revision_history:\n      schema_bag_names.update(revision.added_schema_bag_names)\n    schema_helper", "    schema_bag_names = schema_bag_manager.get_available_bag_names()\n    schema_helper"]]}
J
sdemo m02a <<'P'
m = DM.create_new('/d', fs=fs())
m.update(at_path=P(''), attr_name='x', attr_value=kd.item(1))
m.update(at_path=P(''), attr_name='y', attr_value=kd.item(2))
o = DM.create_from_dir('/d', at_revision_history_index=1, fs=fs())
assert o.exists(P('.x')) and not o.exists(P('.y'))
P
mk m02b M02 "a read-only copy taken by a manager that is itself at an older revision than the directory, or a directory written afterwards" "a read-only copy follows the latest revision on disk instead of the one it was taken at" <<J
{"$S/data_slice_manager.py": [["        metadata=copy.deepcopy(self._metadata),\n", "        metadata=_read_metadata(self._fs, self._persistence_dir, None),\n"]]}
J
sdemo m02b <<'P'
m = DM.create_new('/d', fs=fs())
m.update(at_path=P(''), attr_name='x', attr_value=kd.item(1))
o = DM.create_from_dir('/d', at_revision_history_index=0, fs=fs())
c = o.get_readonly_copy()
assert len(c.get_revision_history()) == 1, c.get_revision_history()
P
mk m03a M03 "branching from an earlier revision, before an attribute was added" "the branch reports the origin's latest schema" <<J
{"$S/data_slice_manager.py": [["    branch_schema_helper = schema_helper_lib.SchemaHelper(\n        branch_initial_data_manager.get_schema().updated(\n            branch_schema_bag_manager.get_minimal_bag(branch_schema_bag_names)\n        )\n    )\n", "    branch_schema_helper = schema_helper_lib.SchemaHelper(self.get_schema())\n"]]}
J
sdemo m03a <<'P'
m = DM.create_new('/d', fs=fs())
m.update(at_path=P(''), attr_name='x', attr_value=kd.item(1))
m.update(at_path=P(''), attr_name='y', attr_value=kd.item(1))
b = m.branch('/b', revision_history_index=1)
assert not b.exists(P('.y')) and b.exists(P('.x'))
P
mk m04a M04 "a file operation that fails while an update is being committed, and using the same instance afterwards" "the instance takes over the new revision before it is committed, so after a failure it serves data that was never stored" <<J
{"$S/data_slice_manager.py": [["    _persist_metadata(self._fs, self._persistence_dir, new_metadata)\n    # The new metadata has be committed", "    self._schema_helper = new_schema_helper\n    _persist_metadata(self._fs, self._persistence_dir, new_metadata)\n    # The new metadata has be committed"]]}
J
sdemo m04a <<'P'
root = tempfile.mkdtemp(); atexit.register(shutil.rmtree, root, True)
real = kd.file_io.get_default_file_system_interaction()
class F(type(real)):
  bad = False
  def rename(s, a, b, **k):
    if F.bad and os.path.dirname(b) == root + '/d': raise OSError('full')
    return super().rename(a, b, **k)
f = F()
m = DM.create_new(root + '/d', fs=f)
F.bad = True
try: m.update(at_path=P(''), attr_name='x', attr_value=kd.item(1))
except OSError: pass
F.bad = False
assert not m.exists(P('.x')); full(m)
m.update(at_path=P(''), attr_name='x', attr_value=kd.item(3))
assert full(m).x.to_py() == 3
P
mk m05a M05 "a reader that opens the directory while a writer commits" "the reader reads the list of stored bags before the revision that refers to them, so it opens a revision whose data it does not know" <<J
{"$S/data_slice_manager.py": [["    metadata = _read_metadata(fs, persistence_dir, at_revision_history_index)\n    initial_data_manager_class = (", "    data_bag_manager = dbm.DataBagManager.create_from_dir(\n        _get_data_bags_dir(persistence_dir), fs=fs\n    )\n    metadata = _read_metadata(fs, persistence_dir, at_revision_history_index)\n    initial_data_manager_class = ("], ["    data_bag_manager = dbm.DataBagManager.create_from_dir(\n        _get_data_bags_dir(persistence_dir), fs=fs\n    )\n    schema_bag_manager = dbm.DataBagManager.create_from_dir(\n        _get_schema_bags_dir(persistence_dir), fs=fs\n    )\n    schema_bag_names", "    schema_bag_manager = dbm.DataBagManager.create_from_dir(\n        _get_schema_bags_dir(persistence_dir), fs=fs\n    )\n    schema_bag_names"]]}
J
sdemo m05a <<'P'
root = tempfile.mkdtemp(); atexit.register(shutil.rmtree, root, True)
real = kd.file_io.get_default_file_system_interaction()
def run(k):
  d = root + '/d%d' % k
  m = DM.create_new(d, fs=real)
  m.update(at_path=P(''), attr_name='x', attr_value=kd.item(1))
  class F(type(real)):
    n = 0
    def open(s, *a, **kw):
      r = super().open(*a, **kw); s.tick(); return r
    def glob(s, *a, **kw):
      r = super().glob(*a, **kw); s.tick(); return r
    def exists(s, *a, **kw):
      r = super().exists(*a, **kw); s.tick(); return r
    def tick(s):
      F.n += 1
      if F.n == k: m.update(at_path=P(''), attr_name='y', attr_value=kd.item(2))
  r = DM.create_from_dir(d, fs=F())
  n = len(r.get_revision_history())
  got = full(r)
  assert got.x.to_py() == 1 and (n == 2) == (not r.exists(P('.y')))
  if n == 3: assert got.y.to_py() == 2
  return F.n
k = 1
while run(k) >= k: k += 1
assert k > 5
P
mk m06a M06 "an update that is refused late, because the new value brings a schema that is not supported" "the value is stored and the schema taken over before the new schema is checked" <<J
{"$S/simple_in_memory_data_slice_manager.py": [["    ds = self._ds.updated(\n", "    self._ds = self._ds.updated(\n"], ["    schema_helper_lib.SchemaHelper(ds.get_schema())\n    self._ds = ds\n", "    schema_helper_lib.SchemaHelper(self._ds.get_schema())\n"]]}
J
sdemo m06a <<'P'
from koladata.ext.storage import simple_in_memory_data_slice_manager as simple
m = simple.SimpleInMemoryDataSliceManager()
m.update(at_path=P(''), attr_name='x', attr_value=kd.item(1))
try:
  m.update(at_path=P(''), attr_name='y', attr_value=kd.obj(a=1)); sys.exit(3)
except ValueError: pass
assert not hasattr(m.get_data_slice(), 'zz') and 'y' not in kd.dir(m.get_data_slice().get_schema())
assert m.exists(P('.x'))
P
mk m07a M07 "an entity with several attributes of the same primitive type" "attributes of the same type share one index entry, so loading one of them reads the files of all" <<J
{"$S/schema_helper.py": [["    operation = action.get_subschema_operation() if action is not None else '.'\n", "    operation = '.'\n"]]}
J
sdemo m07a <<'P'
m = DM.create_new('/d', fs=fs())
m.update(at_path=P(''), attr_name='x', attr_value=kd.item(1))
m.update(at_path=P(''), attr_name='y', attr_value=kd.item(2))
ds = m.get_data_slice(populate=[P('.x')])
assert kd.dir(ds.get_schema()) == ['x'], kd.dir(ds.get_schema())
P
mk m08a M08 "components that give different values for the same attribute of the same entity" "the later component wins over the earlier one" <<J
{"$S/composite_initial_data_manager.py": [["    return kd.bags.enriched(*[  # pyrefly: ignore[missing-attribute]\n", "    return kd.bags.updated(*[  # pyrefly: ignore[missing-attribute]\n"]]}
J
sdemo m08a <<'P'
from koladata.ext.storage import composite_initial_data_manager as c
m = DM.create_new('/d', fs=fs()); m.update(at_path=P(''), attr_name='x', attr_value=kd.item(1))
b = m.branch('/b'); b.update(at_path=P(''), attr_name='x', attr_value=kd.item(2))
n = DM.create_new('/n', initial_data_manager=c.CompositeInitialDataManager.create_new([m, b]), fs=fs())
assert full(n).x.to_py() == 1
P
mk m08b M08 "updating a component after it was combined, and reading the combination in the same process" "the combination follows later updates of its components" <<J
{"$S/composite_initial_data_manager.py": [["    managers = [m.get_readonly_copy() for m in managers]\n\n    return cls(", "    managers = list(managers)\n\n    return cls("]]}
J
sdemo m08b <<'P'
from koladata.ext.storage import composite_initial_data_manager as c
m = DM.create_new('/d', fs=fs()); m.update(at_path=P(''), attr_name='x', attr_value=kd.item(1))
n = DM.create_new('/n', initial_data_manager=c.CompositeInitialDataManager.create_new([m]), fs=fs())
m.update(at_path=P(''), attr_name='x', attr_value=kd.item(2))
assert full(n).x.to_py() == 1
P
mk m09a M09 "an update that changes the type of an attribute below the root" "changing the type of an attribute is refused or converts the new values to the old type" <<J
{"$S/simple_in_memory_data_slice_manager.py": [["            overwrite_schema=True,\n", "            overwrite_schema=not at_path.actions,\n"]]}
J
sdemo m09a <<'P'
from koladata.ext.storage import simple_in_memory_data_slice_manager as simple
m = simple.SimpleInMemoryDataSliceManager()
m.update(at_path=P(''), attr_name='e', attr_value=kd.new(a=1))
m.update(at_path=P('.e'), attr_name='a', attr_value=kd.item('s'))
assert full(m).e.a.to_py() == 's'
P
mk s01a S01 "asking for a part with everything below it, where something below it is also reachable another way" "the other ways to reach the parts below are not included" <<J
{"$S/schema_helper.py": [["    needed_schema_node_names = {\n        self.get_schema_node_name_for_data_slice_path(path)\n        for path in populate_including_descendants\n    }\n    needed_schema_node_names.update(\n        self.get_descendant_schema_node_names(needed_schema_node_names)\n    )\n    needed_schema_node_names.update({\n        self.get_schema_node_name_for_data_slice_path(path) for path in populate\n    })\n    needed_schema_node_names.update(\n        self.get_ancestor_schema_node_names(needed_schema_node_names)\n    )\n", "    roots = {\n        self.get_schema_node_name_for_data_slice_path(path)\n        for path in populate_including_descendants\n    }\n    needed_schema_node_names = roots | {\n        self.get_schema_node_name_for_data_slice_path(path) for path in populate\n    }\n    needed_schema_node_names.update(\n        self.get_ancestor_schema_node_names(needed_schema_node_names)\n    )\n    needed_schema_node_names.update(\n        self.get_descendant_schema_node_names(roots)\n    )\n"]]}
J
sdemo s01a <<'P'
p = kd.named_schema('Person', name=kd.STRING)
doc, book = kd.named_schema('Doc', author=p), kd.named_schema('Book', writer=p)
h = sh.SchemaHelper(kd.named_schema('Root', doc=doc, book=book))
got = h.get_schema_node_names_needed_to(populate_including_descendants=[P('.doc')])
assert h.get_schema_node_name_for_data_slice_path(P('.book')) in got
P
mk s02a S02 "an attribute whose name is a Python keyword" "the dot syntax refuses attribute names that are keywords" <<J
{"$S/data_slice_path.py": [["import dataclasses\n", "import dataclasses\nimport keyword\n"], ["  return attr_name.isidentifier()\n", "  return attr_name.isidentifier() and not keyword.iskeyword(attr_name)\n"]]}
J
sdemo s02a <<'P'
assert P('.class').actions == (dsp.GetAttr('class'),)
P
mk s02b S02 "an attribute name that contains the sequence of an exploded list, or a dot after it, in the dot syntax" "a path segment is cut at the first bracket instead of at an explode step, so malformed paths are accepted" <<J
{"$S/data_slice_path.py": [["    if data_slice_path.startswith('.get_keys()'):\n      return cls(), data_slice_path.removeprefix('.get_keys()')\n", "    if data_slice_path.startswith('.get_keys('):\n      return cls(), data_slice_path[len('.get_keys()') :]\n"]]}
J
python3 - <<'Q'
import json
p='/verif/seeded/s02b/meta.json'; d=json.load(open(p))
d['needs']='a malformed dict-keys step, such as a missing or wrong closing parenthesis'; d['what_it_breaks']='malformed path strings are accepted'
json.dump(d, open(p,'w'), indent=1)
Q
sdemo s02b <<'P'
for bad in ('.get_keys(x', '.get_keys(', '.a.get_keys(["x"]'):
  try:
    P(bad)
  except ValueError: continue
  sys.exit(1)
P
mk s03a S03 "a slice in which some list occurs whose contents are unknown next to lists with known contents" "unknown contents are recorded as empty" <<J
{"$S/stubs_and_minimal_bags_lib.py": [["  return (items_stub.implode(itemid=itemids) & mask).extract_update()\n", "  return items_stub.implode(itemid=itemids).extract_update()\n"]]}
J
sdemo s03a <<'P'
from koladata.ext.storage import stubs_and_minimal_bags_lib as st
a, b = kd.list([1, 2]), kd.list([3])
ds = minikd._mk([a._v[0], b._v[0]], ((2,),), a._s, a.get_bag())
assert set(st.minimal_bag_associating_list_with_its_items(ds)._l) == {a._v[0]}
P
mk n01a N01 "filtering nested lists such that some inner list loses everything" "containers that lost everything are kept as empty ones" <<J
{"$S/data_slice_manager_view.py": [["        current_child_selection_mask = kd.agg_any(kd.has(filtered_child_ds))  # pyrefly: ignore[missing-attribute]\n        current_child_ds = filtered_child_ds.implode()\n", "        current_child_ds = filtered_child_ds.implode()\n        current_child_selection_mask = kd.has(current_child_ds)  # pyrefly: ignore[missing-attribute]\n"]]}
J
sdemo n01a <<'P'
from koladata.ext.storage import data_slice_manager_view as v
m = DM.create_new('/d', fs=fs())
m.update(at_path=P(''), attr_name='x', attr_value=kd.list([kd.list([1, 2]), kd.list([3])]))
w = v.DataSliceManagerView(m).x[:][:]
w.filter(w.get() < 3)
assert full(m).x.to_py(max_depth=-1) == [[1, 2]], full(m).x.to_py(max_depth=-1)
P
mk n01b N01 "selecting on a branch when the mask keeps everything, or using the result of select for updates" "selecting filters the original" <<J
{"$S/data_slice_manager_view.py": [["    branch_view.filter(selection_mask, description=description)\n    return branch_view\n", "    branch_view.filter(selection_mask, description=description)\n    return branch_view.get_root()\n"]]}
J
python3 - <<'Q'
import json
p='/verif/seeded/n01b/meta.json'; d=json.load(open(p))
d['needs']='select on a path below the root'; d['what_it_breaks']='the returned view is not at the path it was selected on'
json.dump(d, open(p,'w'), indent=1)
Q
sdemo n01b <<'P'
from koladata.ext.storage import data_slice_manager_view as v
m = DM.create_new('/d', fs=fs())
m.update(at_path=P(''), attr_name='x', attr_value=kd.list([1, 2]))
w = v.DataSliceManagerView(m).x[:]
assert w.select(w.get() < 2).get_path_from_root() == w.get_path_from_root()
P
