From 1b978493c11836f5e64597e768a352c00e8d6002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 01/40] fix: report is_displayed of closed tqdm bars with
 leave=None

tqdm treats leave=None as 'leave only the topmost bar'; the final report
carried is_displayed=None for such bars even when tqdm keeps them on screen.
---
 py/koladata/ext/tqdm/tqdm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py/koladata/ext/tqdm/tqdm.py b/py/koladata/ext/tqdm/tqdm.py
index defa9f7..e95cd94 100644
--- a/py/koladata/ext/tqdm/tqdm.py
+++ b/py/koladata/ext/tqdm/tqdm.py
@@ -123,7 +123,9 @@ class tqdm(_tqdm_auto.tqdm):  # pylint: disable=invalid-name  # pyrefly: ignore[
     """Send current progress state to the active reporter."""
     if self._reporter is not None:
       # TQDM hides bars when disabled; we reflect this via is_displayed.
-      is_displayed = (not self._is_closed or self.leave) and not self.disable
+      # As in tqdm, `leave=None` leaves only the topmost bar.
+      leave = self.pos == 0 if self.leave is None else self.leave
+      is_displayed = (not self._is_closed or leave) and not self.disable
       try:
         state = tqdm_types.ProgressState.from_tqdm(
             self.format_dict,
-- 
2.43.0


From cc03f17182accf6a5ccc01751f7b0747a3ed69c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:27 +0000
Subject: [PATCH 02/40] fix: do not override tqdm arguments passed positionally

With a reporter active, tqdm(it, 'desc', n, True, sys.stderr) raised TypeError:
the reporter's defaults were added as keywords on top of positional values.
---
 py/koladata/ext/tqdm/tqdm.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/py/koladata/ext/tqdm/tqdm.py b/py/koladata/ext/tqdm/tqdm.py
index e95cd94..33fc591 100644
--- a/py/koladata/ext/tqdm/tqdm.py
+++ b/py/koladata/ext/tqdm/tqdm.py
@@ -27,6 +27,7 @@ makes `tqdm.tqdm(total=n)` / `.update(m)` / `.close()` automatically
 report progress to the active progress reporter set via `using_reporter`.
 """
 
+import inspect
 import logging
 import typing
 from typing import Any
@@ -36,6 +37,7 @@ from koladata.ext.tqdm import context as tqdm_context
 from koladata.ext.tqdm import types as tqdm_types
 from tqdm import auto as _tqdm_auto
 from tqdm import notebook as _tqdm_notebook
+from tqdm import std as _tqdm_std
 
 
 _logger = logging.getLogger(__name__)
@@ -52,6 +54,11 @@ class _DevNull:
 
 _DEVNULL = _DevNull()
 
+# The names of the positional parameters of the tqdm constructor, in order.
+_TQDM_PARAMETERS = tuple(
+    inspect.signature(_tqdm_std.tqdm.__init__).parameters
+)[1:]
+
 
 class tqdm(_tqdm_auto.tqdm):  # pylint: disable=invalid-name  # pyrefly: ignore[invalid-inheritance]
   """A tqdm subclass that forwards progress to a `ProgressReporter`."""
@@ -62,7 +69,7 @@ class tqdm(_tqdm_auto.tqdm):  # pylint: disable=invalid-name  # pyrefly: ignore[
     is_notebook = isinstance(self, _tqdm_notebook.tqdm_notebook)
 
     if self._reporter is not None:
-      kwargs = self._get_configured_kwargs(kwargs, is_notebook)
+      kwargs = self._get_configured_kwargs(args, kwargs, is_notebook)
       if is_notebook and self._reporter.tqdm_config.suppress_display:
         # Ensure the widget never displays if check_delay is triggered later.
         self.displayed = True
@@ -78,14 +85,16 @@ class tqdm(_tqdm_auto.tqdm):  # pylint: disable=invalid-name  # pyrefly: ignore[
     super().__init__(*args, **kwargs)
 
   def _get_configured_kwargs(
-      self, kwargs: dict[str, Any], is_notebook: bool
+      self, args: tuple[Any, ...], kwargs: dict[str, Any], is_notebook: bool
   ) -> dict[str, Any]:
     """Returns a new kwargs dictionary updated based on the reporter config."""
     reporter = typing.cast(tqdm_types.ProgressReporter, self._reporter)
     config = reporter.tqdm_config
+    # Arguments passed positionally are as explicit as keyword ones.
+    positional = set(_TQDM_PARAMETERS[: len(args)])
     updated_kwargs = kwargs.copy()
     # Suppress terminal output when requested and no file is explicitly set.
-    if config.suppress_file and 'file' not in updated_kwargs:
+    if config.suppress_file and 'file' not in positional | kwargs.keys():
       updated_kwargs['file'] = _DEVNULL
     # Suppress IPython/Colab widget display when requested.
     if (
@@ -94,11 +103,20 @@ class tqdm(_tqdm_auto.tqdm):  # pylint: disable=invalid-name  # pyrefly: ignore[
         and 'display' not in updated_kwargs
     ):
       updated_kwargs['display'] = False
-    if config.mininterval is not None and 'mininterval' not in updated_kwargs:
+    if (
+        config.mininterval is not None
+        and 'mininterval' not in positional | kwargs.keys()
+    ):
       updated_kwargs['mininterval'] = config.mininterval
-    if config.maxinterval is not None and 'maxinterval' not in updated_kwargs:
+    if (
+        config.maxinterval is not None
+        and 'maxinterval' not in positional | kwargs.keys()
+    ):
       updated_kwargs['maxinterval'] = config.maxinterval
-    if config.miniters is not None and 'miniters' not in updated_kwargs:
+    if (
+        config.miniters is not None
+        and 'miniters' not in positional | kwargs.keys()
+    ):
       updated_kwargs['miniters'] = config.miniters
 
     return updated_kwargs
-- 
2.43.0


From 201544663afcb8f1505a7c05e23af1fdd49c8c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 03/40] fix: comparing a synthesized dataclass with a dataclass
 type is False

dataclasses.is_dataclass is also true for dataclass types, on which asdict
raises TypeError, so 'obj == SomeDataclass' raised instead of returning False.
---
 py/koladata/base/py_conversions/dataclasses_util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py/koladata/base/py_conversions/dataclasses_util.py b/py/koladata/base/py_conversions/dataclasses_util.py
index d7a3c30..1da6785 100644
--- a/py/koladata/base/py_conversions/dataclasses_util.py
+++ b/py/koladata/base/py_conversions/dataclasses_util.py
@@ -24,9 +24,11 @@ _Type = type[Any] | types.UnionType | types.GenericAlias | typing.Optional[Any]
 
 def _eq(x, y):
   """Checks whether two dataclasses are equal ignoring types."""
-  return dataclasses.is_dataclass(y) and dataclasses.asdict(
-      x
-  ) == dataclasses.asdict(y)
+  return (
+      dataclasses.is_dataclass(y)
+      and not isinstance(y, type)
+      and dataclasses.asdict(x) == dataclasses.asdict(y)
+  )
 
 
 def make_dataclass(class_name: str, attr_names):
-- 
2.43.0


From f8d346d24c209186cd6831ec7ad0e60a172aa855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:42 +0000
Subject: [PATCH 04/40] fix: unwrap callables that are unhashable or compare
 equal

unwrap() tracked visited callables by hash and equality: an unhashable callable
(e.g. a dataclass instance with __call__) raised TypeError, and a wrapper that
compares equal to what it wraps was not unwrapped.
---
 py/koladata/util/kd_functools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/koladata/util/kd_functools.py b/py/koladata/util/kd_functools.py
index 3514213..0edf487 100644
--- a/py/koladata/util/kd_functools.py
+++ b/py/koladata/util/kd_functools.py
@@ -22,10 +22,10 @@ def unwrap(fn: Callable[..., Any]) -> Callable[..., Any]:
   """Unwraps the function from all the decorators."""
   visited = set()
   while (
-      fn not in visited
+      id(fn) not in visited
       and hasattr(fn, '__wrapped__')
       and callable(fn.__wrapped__)
   ):
-    visited.add(fn)
+    visited.add(id(fn))
     fn = fn.__wrapped__
   return fn
-- 
2.43.0


From 84e68887cd2c31a31f6b9be4bf2b59b4a5564bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:14 +0000
Subject: [PATCH 05/40] fix: keep custom metadata of bags when extracting them

---
 py/koladata/ext/storage/data_bag_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/koladata/ext/storage/data_bag_manager.py b/py/koladata/ext/storage/data_bag_manager.py
index 94c6d2e..37070dd 100644
--- a/py/koladata/ext/storage/data_bag_manager.py
+++ b/py/koladata/ext/storage/data_bag_manager.py
@@ -350,6 +350,7 @@ class DataBagManager:
         bag_names, with_all_dependents=with_all_dependents
     )
     bag_dependencies = self._get_dependency_relation()
+    custom_metadata = self.get_custom_metadata(bag_name_to_bag.keys())
 
     fs = fs or kd.file_io.get_default_file_system_interaction()
     if not fs.exists(output_dir):
@@ -369,6 +370,7 @@ class DataBagManager:
             bag_name,
             bag=bag_name_to_bag[bag_name],
             dependencies=tuple(bag_dependencies[bag_name]),
+            custom_metadata=custom_metadata[bag_name],
         )
         for bag_name in self.canonical_topological_sorting(
             bag_name_to_bag.keys()
-- 
2.43.0


From f902dfcff1d38d90403658c5bee68f134ba2713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:12 +0000
Subject: [PATCH 06/40] fix: storage directories whose names contain glob
 metacharacters

---
 .../ext/storage/bare_root_initial_data_manager.py |  3 ++-
 .../ext/storage/composite_initial_data_manager.py |  3 ++-
 py/koladata/ext/storage/data_bag_manager.py       | 15 ++++++++++-----
 py/koladata/ext/storage/data_slice_manager.py     | 11 +++++++----
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/py/koladata/ext/storage/bare_root_initial_data_manager.py b/py/koladata/ext/storage/bare_root_initial_data_manager.py
index 9efe4c0..70f105c 100644
--- a/py/koladata/ext/storage/bare_root_initial_data_manager.py
+++ b/py/koladata/ext/storage/bare_root_initial_data_manager.py
@@ -16,6 +16,7 @@
 
 from __future__ import annotations
 
+import glob
 import os
 from typing import Collection, Self, cast
 
@@ -100,7 +101,7 @@ class BareRootInitialDataManager(
   ):
     if not fs.exists(persistence_dir):
       fs.make_dirs(persistence_dir)
-    if fs.glob(os.path.join(persistence_dir, '*')):
+    if fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           f'the given persistence_dir {persistence_dir} is not empty'
       )
diff --git a/py/koladata/ext/storage/composite_initial_data_manager.py b/py/koladata/ext/storage/composite_initial_data_manager.py
index 81c85bc..df34064 100644
--- a/py/koladata/ext/storage/composite_initial_data_manager.py
+++ b/py/koladata/ext/storage/composite_initial_data_manager.py
@@ -16,6 +16,7 @@
 
 from __future__ import annotations
 
+import glob
 import os
 from typing import Collection, Self
 
@@ -102,7 +103,7 @@ class CompositeInitialDataManager(
   ):
     if not fs.exists(persistence_dir):
       fs.make_dirs(persistence_dir)
-    if fs.glob(os.path.join(persistence_dir, '*')):
+    if fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           f'the given persistence_dir {persistence_dir} is not empty'
       )
diff --git a/py/koladata/ext/storage/data_bag_manager.py b/py/koladata/ext/storage/data_bag_manager.py
index 37070dd..4405ef1 100644
--- a/py/koladata/ext/storage/data_bag_manager.py
+++ b/py/koladata/ext/storage/data_bag_manager.py
@@ -22,6 +22,7 @@ from __future__ import annotations
 import collections
 import concurrent.futures
 import dataclasses
+import glob
 import os
 from typing import AbstractSet, Collection, Iterable, cast
 import uuid
@@ -128,7 +129,8 @@ class DataBagManager:
 
     if not fs.exists(persistence_dir):
       fs.make_dirs(persistence_dir)
-    if fs.glob(os.path.join(persistence_dir, '*')):  # if not empty dir:
+    # If not empty dir:
+    if fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           'the persistence_dir must be empty or not exist yet. Got'
           f' {persistence_dir}'
@@ -173,7 +175,8 @@ class DataBagManager:
       raise ValueError(
           f'the persistence_dir does not exist. Got {persistence_dir}'
       )
-    if not fs.glob(os.path.join(persistence_dir, '*')):  # if empty dir:
+    # If empty dir:
+    if not fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           f'the persistence_dir must not be empty. Got {persistence_dir}'
       )
@@ -355,7 +358,7 @@ class DataBagManager:
     fs = fs or kd.file_io.get_default_file_system_interaction()
     if not fs.exists(output_dir):
       fs.make_dirs(output_dir)
-    if fs.glob(os.path.join(output_dir, '*')):
+    if fs.glob(os.path.join(glob.escape(output_dir), '*')):
       raise ValueError(
           f'The output_dir must be empty or not exist yet. Got {output_dir}'
       )
@@ -418,7 +421,7 @@ class DataBagManager:
     fs = fs or kd.file_io.get_default_file_system_interaction()
     if not fs.exists(output_dir):
       fs.make_dirs(output_dir)
-    if fs.glob(os.path.join(output_dir, '*')):
+    if fs.glob(os.path.join(glob.escape(output_dir), '*')):
       raise ValueError(
           f'The output_dir must be empty or not exist yet. Got {output_dir}'
       )
@@ -827,7 +830,9 @@ def _read_latest_metadata(
 ) -> metadata_pb2.DataBagManagerMetadata:
   update_number_pattern = '[0-9]' * _UPDATE_NUMBER_NUM_DIGITS
   committed_metadata_filepaths = fs.glob(
-      os.path.join(persistence_dir, f'metadata-{update_number_pattern}.pb')
+      os.path.join(
+          glob.escape(persistence_dir), f'metadata-{update_number_pattern}.pb'
+      )
   )
   latest_metadata_filepath = max(committed_metadata_filepaths)
   with fs.open(latest_metadata_filepath, 'rb') as f:
diff --git a/py/koladata/ext/storage/data_slice_manager.py b/py/koladata/ext/storage/data_slice_manager.py
index 5ef2206..2e297d3 100644
--- a/py/koladata/ext/storage/data_slice_manager.py
+++ b/py/koladata/ext/storage/data_slice_manager.py
@@ -23,6 +23,7 @@ import base64
 import copy
 import dataclasses
 import datetime
+import glob
 import os
 from typing import Collection, Generator, cast
 import uuid
@@ -206,7 +207,7 @@ class DataSliceManager(
         raise ValueError(
             f'persistence_dir should be a directory. Got: {persistence_dir}'
         )
-      if fs.glob(os.path.join(persistence_dir, '*')):
+      if fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
         raise ValueError(
             f'persistence_dir should be empty. Got: {persistence_dir}'
         )
@@ -318,7 +319,7 @@ class DataSliceManager(
     """
     fs = fs or kd.file_io.get_default_file_system_interaction()
 
-    if not fs.glob(os.path.join(persistence_dir, '*')):
+    if not fs.glob(os.path.join(glob.escape(persistence_dir), '*')):
       raise ValueError(
           f'persistence_dir {persistence_dir} should contain artifacts'
           ' persisted previously by a DataSliceManager'
@@ -1135,7 +1136,7 @@ class DataSliceManager(
           raise ValueError(
               f'the output_dir {output_dir} exists but it is not a directory'
           )
-        if branch_fs.glob(os.path.join(output_dir, '*')):
+        if branch_fs.glob(os.path.join(glob.escape(output_dir), '*')):
           raise ValueError(f'the output_dir {output_dir} is not empty')
     else:
       output_dir = _get_dir_for_new_branch(self._persistence_dir, branch_fs)
@@ -1404,7 +1405,9 @@ def _get_latest_metadata_version(
 ) -> int:
   update_number_pattern = '[0-9]' * _UPDATE_NUMBER_NUM_DIGITS
   committed_metadata_filepaths = fs.glob(
-      os.path.join(persistence_dir, f'metadata-{update_number_pattern}.pb')
+      os.path.join(
+          glob.escape(persistence_dir), f'metadata-{update_number_pattern}.pb'
+      )
   )
   latest_metadata_filepath = max(committed_metadata_filepaths)
   latest_metadata_filename = os.path.basename(latest_metadata_filepath)
-- 
2.43.0


From f5b6164ed389711a7698300a7466d851d34ccf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:59 +0000
Subject: [PATCH 07/40] fix: DataSliceManager no longer exposes values of
 overwritten attribute types

Loading a path could return, for another attribute whose schema had been
overwritten in the meantime, the outdated schema and value. Load the current
value of such attributes too, so that all the data in the result is up-to-date
and separately loaded slices stay compatible.
---
 py/koladata/ext/storage/data_slice_manager.py | 61 +++++++++++++++----
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/py/koladata/ext/storage/data_slice_manager.py b/py/koladata/ext/storage/data_slice_manager.py
index 2e297d3..6391846 100644
--- a/py/koladata/ext/storage/data_slice_manager.py
+++ b/py/koladata/ext/storage/data_slice_manager.py
@@ -25,7 +25,7 @@ import dataclasses
 import datetime
 import glob
 import os
-from typing import Collection, Generator, cast
+from typing import AbstractSet, Collection, Generator, cast
 import uuid
 
 from google.protobuf import timestamp
@@ -543,29 +543,68 @@ class DataSliceManager(
     """Returns a DataBag with the data for the given schema node names."""
     needed_schema_node_names = set(schema_node_names)
 
+    while True:
+      bag = self._load_data_bag_for_schema_node_names(needed_schema_node_names)
+      outdated_schema_node_names = self._get_schema_node_names_with_outdated_data(
+          needed_schema_node_names, bag
+      )
+      if not outdated_schema_node_names:
+        break
+      needed_schema_node_names.update(outdated_schema_node_names)
+
+    return kd.bags.updated(  # pyrefly: ignore[missing-attribute]
+        bag, self._schema_helper.get_schema_bag(needed_schema_node_names)
+    )
+
+  def _load_data_bag_for_schema_node_names(
+      self, schema_node_names: AbstractSet[str]
+  ) -> kd.types.DataBag:
+    """Returns the merged bags indexed under the given schema node names."""
     needed_bag_names = set()
-    for snn in needed_schema_node_names:
+    for snn in schema_node_names:
       names_list = self._get_data_bag_names(snn)
       assert names_list is not None, (
           f'invariant violation: schema node name {snn} must have a list of'
           ' data bag names'
       )
       needed_bag_names.update(names_list.to_py())
-    data_bag = self._data_bag_manager.get_minimal_bag(needed_bag_names)
-
-    schema_bag = self._schema_helper.get_schema_bag(
-        needed_schema_node_names,
-    )
-
     return kd.bags.updated(  # pyrefly: ignore[missing-attribute]
         self._initial_data_manager.get_data_bag_for_schema_node_names(
-            needed_schema_node_names
+            schema_node_names
             & self._initial_data_manager.get_all_schema_node_names()
         ),
-        data_bag,
-        schema_bag,
+        self._data_bag_manager.get_minimal_bag(needed_bag_names),
     )
 
+  def _get_schema_node_names_with_outdated_data(
+      self, schema_node_names: AbstractSet[str], bag: kd.types.DataBag
+  ) -> AbstractSet[str]:
+    """Returns further schema node names to load to make `bag` up-to-date.
+
+    The bags indexed under a schema node name can provide a value for an entity
+    attribute whose schema was overwritten by a later update. The later values
+    are indexed under the schema node name of the new schema of the attribute,
+    which must then be loaded too, lest we expose the overwritten values.
+
+    Args:
+      schema_node_names: the schema node names for which `bag` was loaded.
+      bag: the bag with the data of schema_node_names.
+    """
+    result = set()
+    for snn in self._schema_helper.get_non_leaf_schema_node_names():
+      schema = self._schema_helper.get_subschema_at(snn)
+      if not schema.is_entity_schema():
+        continue
+      for attr_name in kd.dir(schema.with_bag(bag)):
+        result.add(
+            schema_helper_lib.get_schema_node_name(
+                parent_schema_item=schema,
+                action=data_slice_path_lib.GetAttr(attr_name),
+                child_schema_item=schema.get_attr(attr_name),
+            )
+        )
+    return result - schema_node_names
+
   def get_revision_history(
       self,
       tz: datetime.tzinfo | None = None,
-- 
2.43.0


From 3c708983e556d3ec0ded61a8dec1f26669595875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:29 +0000
Subject: [PATCH 08/40] fix: value_presence_util.get_missing_mask for
 attributes with schema NONE

Expanding an empty slice to the shape of the entities fails unless that shape
is empty too, so every update with a NONE-typed attribute was rejected.
---
 py/koladata/ext/storage/value_presence_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/koladata/ext/storage/value_presence_util.py b/py/koladata/ext/storage/value_presence_util.py
index e40b6f7..3df7022 100644
--- a/py/koladata/ext/storage/value_presence_util.py
+++ b/py/koladata/ext/storage/value_presence_util.py
@@ -120,7 +120,7 @@ def get_missing_mask(
     # The sentinel values used below are defined only for non-NONE schemas. So
     # we return early with the result when the schema is NONE.
     return kd.expand_to_shape(  # pyrefly: ignore[missing-attribute]
-        kd.slice([], schema=kd.MASK), entity_ds.get_shape()  # pyrefly: ignore[missing-attribute]
+        kd.missing, entity_ds.get_shape()  # pyrefly: ignore[missing-attribute]
     )
   present_mask = get_present_mask(entity_ds, attr_name)
   ds_with_missing_or_removed_attr = entity_ds & ~present_mask
-- 
2.43.0


From 7e381ed3343f7ceba5c578fc4d1f2c03651ba08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:41 +0000
Subject: [PATCH 09/40] fix: refuse writes once a stream writer reports that it
 is orphaned

TryClose sets the flag that Orphaned() reports before it closes the stream.
A write in between was accepted although Orphaned() had returned true: a
loop that was interrupted by a cancellation could put an intermediate value
in front of the cancellation status of its output.
---
 koladata/functor/parallel/stream.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/koladata/functor/parallel/stream.cc b/koladata/functor/parallel/stream.cc
index ce866d8..9514b0c 100644
--- a/koladata/functor/parallel/stream.cc
+++ b/koladata/functor/parallel/stream.cc
@@ -257,6 +257,9 @@ bool StreamImpl::Writer::TryWrite(arolla::TypedRef value) {
     LOG(FATAL) << "expected a value of type " << value_qtype()->name()
                << ", got " << value.GetType()->name();
   }
+  if (closed_.test(std::memory_order_relaxed)) {
+    return false;  // Closed, or just being closed by another thread.
+  }
   auto stream = weak_stream_.lock();
   if (stream == nullptr) {
     return false;  // The stream object is gone.
-- 
2.43.0


From 156b65e2c2c92b633f491518590644aee87d6d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:47 +0000
Subject: [PATCH 10/40] fix: a stream call that is dropped must not end as an
 empty result

When the executor drops the routine of a stream call, or a cancellation stops
it before it is told the reason, the interleave it writes to closed the output
with OK: an empty stream, as if the functor had returned nothing. It is now
reported as orphaned, as every other stream operator does.
---
 koladata/functor/parallel/stream_call.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/koladata/functor/parallel/stream_call.cc b/koladata/functor/parallel/stream_call.cc
index c8ff551..5998da8 100644
--- a/koladata/functor/parallel/stream_call.cc
+++ b/koladata/functor/parallel/stream_call.cc
@@ -64,6 +64,14 @@ class StreamCallHooks final : public BasicRoutineHooks {
     args_.reserve(args_size_);
   }
 
+  ~StreamCallHooks() final {
+    if (!finished_) {
+      // The routine was dropped before it got a result; without an error, the
+      // composition would close the stream as if it were complete.
+      composition_.AddError(absl::CancelledError("orphaned"));
+    }
+  }
+
   bool Interrupted() const final { return composition_.Orphaned(); }
 
   void OnCancel(absl::Status&& status) final { OnError(std::move(status)); }
@@ -120,10 +128,12 @@ class StreamCallHooks final : public BasicRoutineHooks {
     ASSIGN_OR_RETURN(auto result, std::move(functor_)(args_),
                      OnError(std::move(_)));
     if (result.GetType() == return_value_type_) {
+      finished_ = true;
       composition_.AddItem(result.AsRef());
       return nullptr;
     }
     if (result.GetType() == GetStreamQType(return_value_type_)) {
+      finished_ = true;
       composition_.Add(result.UnsafeAs<StreamPtr>());
       return nullptr;
     }
@@ -174,6 +184,7 @@ class StreamCallHooks final : public BasicRoutineHooks {
   const size_t args_size_;
   size_t awaited_arg_index_;
   std::vector<arolla::TypedRef> args_;
+  bool finished_ = false;
   StreamInterleave composition_;
 };
 
-- 
2.43.0


From d401db3c5b4eba6453548b361c95eff5e8bee2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:06 +0000
Subject: [PATCH 11/40] fix: get_array_nth_value yields one value per top-level
 scalar and null for negative n

---
 koladata/internal/op_utils/json_stream.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 55fc89b..39a95b7 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -1575,7 +1575,7 @@ JsonStreamProcessResult JsonGetArrayNthValueStreamProcessor::Process(
             } else {
               output.append("null\n");
             }
-          } else if (top_level_array_value_index_ < options_.n) {
+          } else {
             emit_top_level_null_if_not_already_done();
           }
           end_top_level_value();
@@ -1602,6 +1602,8 @@ JsonStreamProcessResult JsonGetArrayNthValueStreamProcessor::Process(
         if (container_depth_ == 0) {
           emit_top_level_null_if_not_already_done();
         }
+      } else if (container_depth_ == 0) {
+        end_top_level_value();
       }
     }
   }
-- 
2.43.0


From c6721691d1ef29f6a573bddb329a0fe2fb08f4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:33 +0000
Subject: [PATCH 12/40] fix: get_object_key_value finds keys after an empty
 object nested in a skipped value

---
 koladata/internal/op_utils/json_stream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 39a95b7..b816dea 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -1368,6 +1368,7 @@ JsonStreamProcessResult JsonExtractValuesStreamProcessor::Process(
 
         if (!is_in_match_) {
           container_path_stack_.pop_back();
+          is_object_key_ = false;
         }
       } else if (c == ',') {
         if (is_in_match_) {
-- 
2.43.0


From 547bb702a7c13668206eefcc2fe5d2279637c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:34 +0000
Subject: [PATCH 13/40] fix: salvage ends a multi-line comment at "**/"

---
 koladata/internal/op_utils/json_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index b816dea..b0b3232 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -630,7 +630,7 @@ bool JsonSalvageStreamProcessor::ProcessCommentRules(
     } else {
       if (c == '/') {
         SetStateWithBuffer(State::kBase, "");
-      } else {
+      } else if (c != '*') {
         ClearBuffer();
       }
     }
-- 
2.43.0


From 5a613d2dd89b5a69e31264229831e528a370f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:34 +0000
Subject: [PATCH 14/40] fix: salvage treats signed numbers used as object keys
 as strings

---
 koladata/internal/op_utils/json_stream.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index b0b3232..cfb8651 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -311,22 +311,22 @@ bool JsonSalvageStreamProcessor::ProcessBaseRules(std::optional<char32_t> c) {
     }
   } else if (BufferEquals("``") && c == std::nullopt) {
     EmitRawOutput("\"\"");
-  } else if (BufferEquals("-") && c == '0') {
+  } else if (!is_object_key_ && BufferEquals("-") && c == '0') {
     EmitRawOutput('-');
     SetStateWithBuffer(State::kNumberBuffered, "0");
-  } else if (BufferEquals("-") && (c >= '1' && c <= '9')) {
+  } else if (!is_object_key_ && BufferEquals("-") && (c >= '1' && c <= '9')) {
     EmitRawOutput('-');
     EmitRawOutput(c);
     SetStateWithBuffer(State::kNumberDecimal, "");
-  } else if (BufferEquals("-") && c == '.') {
+  } else if (!is_object_key_ && BufferEquals("-") && c == '.') {
     EmitRawOutput("-0.");
     SetStateWithBuffer(State::kNumberDecimal, ".");
-  } else if (BufferEquals("+") && c == '0') {
+  } else if (!is_object_key_ && BufferEquals("+") && c == '0') {
     SetStateWithBuffer(State::kNumberBuffered, "0");
-  } else if (BufferEquals("+") && (c >= '1' && c <= '9')) {
+  } else if (!is_object_key_ && BufferEquals("+") && (c >= '1' && c <= '9')) {
     EmitRawOutput(c);
     SetStateWithBuffer(State::kNumberDecimal, "");
-  } else if (BufferEquals("+") && c == '.') {
+  } else if (!is_object_key_ && BufferEquals("+") && c == '.') {
     EmitRawOutput("0.");
     SetStateWithBuffer(State::kNumberDecimal, ".");
   } else if (!IsValidUnquotedStringNextCodePoint(c)) {
-- 
2.43.0


From 94871c8743330118e23daf4e367159e9ed8583b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:34 +0000
Subject: [PATCH 15/40] fix: salvage replaces an unpaired surrogate that is
 followed by an escape in place

---
 koladata/internal/op_utils/json_stream.cc | 14 +++++++++-----
 koladata/internal/op_utils/json_stream.h  |  1 +
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index cfb8651..c4cb68b 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -435,6 +435,7 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       // First character of escape sequence.
       if (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' ||
           c == 'n' || c == 'r' || c == 't') {
+        EmitJsonStringUnpairedSurrogate();
         EmitRawOutput('\\');
         EmitRawOutput(c);
         ClearBuffer();
@@ -445,7 +446,7 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         EmitJsonStringCodePoint('\v');
         ClearBuffer();
       } else if (c == '`' || c == '\'') {
-        EmitRawOutput(c);
+        EmitJsonStringCodePoint(c);
         ClearBuffer();
       } else if (c == 'u' || c == 'U') {
         AppendToBuffer(c);
@@ -927,9 +928,8 @@ void JsonSalvageStreamProcessor::EmitJsonStringCodePoint(
     return;
   }
 
-  if (json_string_utf16_first_surrogate_.has_value() && !U16_IS_TRAIL(*c)) {
-    json_string_utf16_first_surrogate_.reset();
-    EmitJsonStringCodePoint(kReplacementCharacter);
+  if (!U16_IS_TRAIL(*c)) {
+    EmitJsonStringUnpairedSurrogate();
   }
 
   if (c == '\b') {
@@ -988,11 +988,15 @@ void JsonSalvageStreamProcessor::EmitJsonStringCodePoint(
   }
 }
 
-void JsonSalvageStreamProcessor::EmitJsonStringEnd() {
+void JsonSalvageStreamProcessor::EmitJsonStringUnpairedSurrogate() {
   if (json_string_utf16_first_surrogate_.has_value()) {
     json_string_utf16_first_surrogate_.reset();
     EmitJsonStringCodePoint(kReplacementCharacter);
   }
+}
+
+void JsonSalvageStreamProcessor::EmitJsonStringEnd() {
+  EmitJsonStringUnpairedSurrogate();
   EmitRawOutput('"');
 }
 
diff --git a/koladata/internal/op_utils/json_stream.h b/koladata/internal/op_utils/json_stream.h
index 6369ce3..57f10b0 100644
--- a/koladata/internal/op_utils/json_stream.h
+++ b/koladata/internal/op_utils/json_stream.h
@@ -169,6 +169,7 @@ class JsonSalvageStreamProcessor {
 
   void EmitJsonStringStart();
   void EmitJsonStringCodePoint(std::optional<char32_t> c);
+  void EmitJsonStringUnpairedSurrogate();
   void EmitJsonStringEnd();
 
   void EmitRawOutput(std::string_view s);
-- 
2.43.0


From 259d09fdb0200e769ac454ed50942f5f59180304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:34 +0000
Subject: [PATCH 16/40] fix: salvage escapes the character after the backslash
 of an invalid escape

---
 koladata/internal/op_utils/json_stream.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index c4cb68b..4a5aa02 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -465,8 +465,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         EndString();
       } else {
         // Invalid escape "\?" -> "\\?".
-        EmitRawOutput("\\\\");
-        EmitRawOutput(c);
+        EmitJsonStringCodePoint('\\');
+        EmitJsonStringCodePoint(c);
         ClearBuffer();
       }
     } else if (BufferEquals("\\\r")) {
-- 
2.43.0


From 7343832704e24e250a22676bb4b916d4dc53bd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:34 +0000
Subject: [PATCH 17/40] fix: salvage recognizes escapes after quotes inside
 triple-quoted strings

---
 koladata/internal/op_utils/json_stream.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 4a5aa02..7fe313c 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -485,8 +485,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         AppendToBuffer('"');
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('"');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       } else {
         EndString();
       }
@@ -498,8 +498,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('"');
         EmitJsonStringCodePoint('"');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       }
     } else if (BufferEquals("'")) {
       // Maybe end of triple single quoted string.
@@ -508,8 +508,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
         AppendToBuffer('\'');
       } else if (c.has_value()) {
         EmitJsonStringCodePoint('\'');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       } else {
         EndString();
       }
@@ -521,8 +521,8 @@ bool JsonSalvageStreamProcessor::ProcessStringRules(std::optional<char32_t> c) {
       } else {
         EmitJsonStringCodePoint('\'');
         EmitJsonStringCodePoint('\'');
-        EmitJsonStringCodePoint(*c);
         ClearBuffer();
+        consumed_c = false;
       }
     } else if (BufferStartsWith("\\u")) {
       if (BufferEquals("\\u") && c == '{') {
-- 
2.43.0


From 2aaf8f3297f867d354ab313f1582be14be4a9ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:34 +0000
Subject: [PATCH 18/40] fix: salvage closes an object that ends within an empty
 backtick key

---
 koladata/internal/op_utils/json_stream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 7fe313c..8baccd3 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -311,6 +311,7 @@ bool JsonSalvageStreamProcessor::ProcessBaseRules(std::optional<char32_t> c) {
     }
   } else if (BufferEquals("``") && c == std::nullopt) {
     EmitRawOutput("\"\"");
+    EndValue();
   } else if (!is_object_key_ && BufferEquals("-") && c == '0') {
     EmitRawOutput('-');
     SetStateWithBuffer(State::kNumberBuffered, "0");
-- 
2.43.0


From c8fb3e6d74629ccf6c5a10feb4205cfc5a401e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 19/40] fix: keep the last character of an unquoted key that is
 followed by whitespace

---
 koladata/operators/json_stream_parser.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/koladata/operators/json_stream_parser.cc b/koladata/operators/json_stream_parser.cc
index b450931..13826a0 100644
--- a/koladata/operators/json_stream_parser.cc
+++ b/koladata/operators/json_stream_parser.cc
@@ -249,8 +249,12 @@ absl::Status JsonStreamParser::ProcessUnquotedName(char c) {
     path_.push_back(c);
     return absl::OkStatus();
   }
-  data_.back() = '"';
-  data_.push_back(c);
+  if (c != ':' && separator_policy_ == SeparatorPolicy::REMOVE) {
+    data_.push_back('"');  // `c` is a separator that was removed
+  } else {
+    data_.back() = '"';
+    data_.push_back(c);
+  }
   state_ = c == ':' ? EXPECT_VALUE : NAME_END;
   return absl::OkStatus();
 }
-- 
2.43.0


From 49f52d87e64e4e2cbeea451101bfc3f8a232b320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 20/40] fix: single-quoted literals with quotes inside become
 valid JSON

---
 koladata/operators/json_stream_parser.cc | 25 ++++++++++++++++++++++++
 koladata/operators/json_stream_parser.h  |  2 ++
 2 files changed, 27 insertions(+)

diff --git a/koladata/operators/json_stream_parser.cc b/koladata/operators/json_stream_parser.cc
index 13826a0..74f0e69 100644
--- a/koladata/operators/json_stream_parser.cc
+++ b/koladata/operators/json_stream_parser.cc
@@ -120,6 +120,20 @@ void JsonStreamParser::InsertCommaIfMissing() {
   }
 }
 
+// Called for a double quote inside of a single-quoted literal, which becomes a
+// double-quoted one.
+void JsonStreamParser::EscapeDoubleQuote() {
+  data_.back() = '\\';
+  data_.push_back('"');
+}
+
+// JSON has no escape sequence \', so it is replaced with \u0027. Note that the
+// backslash may have been consumed already.
+void JsonStreamParser::FixEscapedSingleQuote() {
+  data_.back() = 'u';
+  data_.append("0027");
+}
+
 absl::Status JsonStreamParser::ProcessExpectValue(char c) {
   if (absl::ascii_isspace(c)) {
     return absl::OkStatus();
@@ -233,12 +247,18 @@ absl::Status JsonStreamParser::ProcessName(char c) {
   } else if (c == '\\') {
     state_ = NAME_ESCAPE;
   } else {
+    if (c == '"') {
+      EscapeDoubleQuote();
+    }
     path_.push_back(c);
   }
   return absl::OkStatus();
 }
 
 absl::Status JsonStreamParser::ProcessNameEscape(char c) {
+  if (c == '\'' && allow_single_quotes_) {
+    FixEscapedSingleQuote();
+  }
   path_.push_back(c);
   state_ = NAME;
   return absl::OkStatus();
@@ -326,11 +346,16 @@ absl::Status JsonStreamParser::ProcessValueString(char c) {
     state_ = VALUE_END;
   } else if (c == '\\') {
     state_ = VALUE_STRING_ESCAPE;
+  } else if (c == '"') {
+    EscapeDoubleQuote();
   }
   return absl::OkStatus();
 }
 
 absl::Status JsonStreamParser::ProcessValueStringEscape(char c) {
+  if (c == '\'' && allow_single_quotes_) {
+    FixEscapedSingleQuote();
+  }
   state_ = VALUE_STRING;
   return absl::OkStatus();
 }
diff --git a/koladata/operators/json_stream_parser.h b/koladata/operators/json_stream_parser.h
index 49c5969..1b0c82e 100644
--- a/koladata/operators/json_stream_parser.h
+++ b/koladata/operators/json_stream_parser.h
@@ -191,6 +191,8 @@ class JsonStreamParser {
   absl::Status HandleValueEnd();
   char PreprocessSeparator(char c);
   void InsertCommaIfMissing();
+  void EscapeDoubleQuote();
+  void FixEscapedSingleQuote();
 
   std::string data_;
   size_t data_available_pos_ = 0;
-- 
2.43.0


From d848553241133c033e5c9ebdbb4f4075ba5ca387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:28 +0000
Subject: [PATCH 21/40] fix: escape special characters of invalid tokens when
 quoting them

---
 koladata/operators/json_stream_parser.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/koladata/operators/json_stream_parser.cc b/koladata/operators/json_stream_parser.cc
index 74f0e69..4f50351 100644
--- a/koladata/operators/json_stream_parser.cc
+++ b/koladata/operators/json_stream_parser.cc
@@ -21,7 +21,6 @@
 #include "arolla/util/status_macros_backport.h"
 #include "absl/strings/ascii.h"
 #include "absl/strings/numbers.h"
-#include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
 #include "absl/strings/string_view.h"
 
@@ -45,6 +44,22 @@ bool IsValidToken(absl::string_view s) {
   return s == "true" || s == "false" || s == "null" || IsNumber(s);
 }
 
+std::string QuoteToken(absl::string_view token) {
+  std::string res = "\"";
+  for (char c : token) {
+    if (c == '"' || c == '\\') {
+      res.push_back('\\');
+      res.push_back(c);
+    } else if (static_cast<unsigned char>(c) < 0x20) {
+      absl::StrAppendFormat(&res, "\\u%04x", static_cast<unsigned int>(c));
+    } else {
+      res.push_back(c);
+    }
+  }
+  res.push_back('"');
+  return res;
+}
+
 }  // namespace
 
 JsonStreamParser::JsonStreamParser(SeparatorPolicy p) : separator_policy_(p) {
@@ -308,7 +323,7 @@ absl::Status JsonStreamParser::ProcessValueToken(char c) {
         if (vbegin_fn_) {
           vbegin_fn_(path_, ValueType::STRING);
         }
-        std::string quoted = absl::StrCat("\"", token, "\"");
+        std::string quoted = QuoteToken(token);
         data_.resize(data_available_pos_);
         data_.append(quoted);
         data_available_pos_ = data_.size();
-- 
2.43.0


From 5fe96411c301f7a16ca33767d8cb58f6e235e75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:08 +0000
Subject: [PATCH 22/40] fix: cancelling filter_json or stream_string_value
 while it writes must not crash

---
 koladata/functor/parallel/stream_filter_json.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/koladata/functor/parallel/stream_filter_json.cc b/koladata/functor/parallel/stream_filter_json.cc
index bb06066..a498075 100644
--- a/koladata/functor/parallel/stream_filter_json.cc
+++ b/koladata/functor/parallel/stream_filter_json.cc
@@ -60,7 +60,7 @@ class StreamFilterJsonHooks final : public BasicRoutineHooks {
         [this](absl::string_view path, absl::string_view json) {
           if (path == field_to_extract_) {
             DataSlice ds_out = DataSlice::CreatePrimitive(arolla::Text(json));
-            writer_->Write(arolla::TypedRef::FromValue(ds_out));
+            writer_->TryWrite(arolla::TypedRef::FromValue(ds_out));
           }
         });
   }
@@ -206,7 +206,7 @@ class StreamStringFromJsonHooks final : public BasicRoutineHooks {
     if (!res.empty()) {
       DataSlice ds_out =
           DataSlice::CreatePrimitive(arolla::Text(std::move(res)));
-      writer_->Write(arolla::TypedRef::FromValue(ds_out));
+      writer_->TryWrite(arolla::TypedRef::FromValue(ds_out));
     }
     return absl::OkStatus();
   }
-- 
2.43.0


From 141df1811c544698b66a91c04e44601021780d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:08 +0000
Subject: [PATCH 23/40] fix: filter_json and stream_string_value tolerate
 missing chunks

---
 koladata/functor/parallel/BUILD               |  1 +
 .../functor/parallel/stream_filter_json.cc    | 34 +++++++++++++------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/koladata/functor/parallel/BUILD b/koladata/functor/parallel/BUILD
index 4414ca1..5063786 100644
--- a/koladata/functor/parallel/BUILD
+++ b/koladata/functor/parallel/BUILD
@@ -409,6 +409,7 @@ cc_library(
         ":stream",
         "//koladata:data_slice",
         "//koladata:data_slice_qtype",
+        "//koladata/internal:dtype",
         "//koladata/operators:json_stream_parser",
         "@com_google_absl//absl/base:nullability",
         "@com_google_absl//absl/status",
diff --git a/koladata/functor/parallel/stream_filter_json.cc b/koladata/functor/parallel/stream_filter_json.cc
index a498075..330f5c7 100644
--- a/koladata/functor/parallel/stream_filter_json.cc
+++ b/koladata/functor/parallel/stream_filter_json.cc
@@ -33,6 +33,7 @@
 #include "koladata/functor/parallel/basic_routine.h"
 #include "koladata/functor/parallel/executor.h"
 #include "koladata/functor/parallel/stream.h"
+#include "koladata/internal/dtype.h"
 #include "koladata/operators/json_stream_parser.h"
 
 namespace koladata::functor::parallel {
@@ -47,6 +48,19 @@ void ConfigureParser(ops::JsonStreamParser& parser) {
   parser.EnableQuotingInvalidTokens(true);
 }
 
+// Returns the text of a chunk; a missing chunk is the same as an empty one.
+absl::StatusOr<absl::string_view> GetChunk(const DataSlice& ds) {
+  if (ds.is_item()) {
+    if (ds.item().holds_value<arolla::Text>()) {
+      return ds.item().value<arolla::Text>().view();
+    }
+    if (!ds.item().has_value() && ds.GetSchemaImpl() == schema::kString) {
+      return absl::string_view();
+    }
+  }
+  return absl::InvalidArgumentError("string expected");
+}
+
 class StreamFilterJsonHooks final : public BasicRoutineHooks {
  public:
   StreamFilterJsonHooks(StreamPtr absl_nonnull input_stream,
@@ -82,13 +96,13 @@ class StreamFilterJsonHooks final : public BasicRoutineHooks {
       if (Interrupted()) {
         return nullptr;
       }
-      const auto& ds = item->UnsafeAs<DataSlice>();
-      if (!ds.is_item() || !ds.item().holds_value<arolla::Text>()) {
-        writer_->TryClose(absl::InvalidArgumentError("string expected"));
+      absl::StatusOr<absl::string_view> chunk =
+          GetChunk(item->UnsafeAs<DataSlice>());
+      if (!chunk.ok()) {
+        writer_->TryClose(std::move(chunk).status());
         return nullptr;
       }
-      const arolla::Text& data = ds.item().value<arolla::Text>();
-      if (absl::Status status = parser_.AddChunk(data); !status.ok()) {
+      if (absl::Status status = parser_.AddChunk(*chunk); !status.ok()) {
         writer_->TryClose(std::move(status));
         return nullptr;
       }
@@ -218,13 +232,13 @@ class StreamStringFromJsonHooks final : public BasicRoutineHooks {
       if (Interrupted()) {
         return nullptr;
       }
-      const auto& ds = item->UnsafeAs<DataSlice>();
-      if (!ds.is_item() || !ds.item().holds_value<arolla::Text>()) {
-        writer_->TryClose(absl::InvalidArgumentError("string expected"));
+      absl::StatusOr<absl::string_view> chunk =
+          GetChunk(item->UnsafeAs<DataSlice>());
+      if (!chunk.ok()) {
+        writer_->TryClose(std::move(chunk).status());
         return nullptr;
       }
-      const arolla::Text& data = ds.item().value<arolla::Text>();
-      if (absl::Status status = ProcessChunk(data);
+      if (absl::Status status = ProcessChunk(*chunk);
           !status.ok() || state_ == FINISHED) {
         writer_->TryClose(std::move(status));
         return nullptr;
-- 
2.43.0


From 62846e11ac61b249180abbae3e457ebcbd15f056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:08 +0000
Subject: [PATCH 24/40] fix: stream_string_value keeps what follows an invalid
 \uXXXX sequence

---
 koladata/functor/parallel/stream_filter_json.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/koladata/functor/parallel/stream_filter_json.cc b/koladata/functor/parallel/stream_filter_json.cc
index 330f5c7..a517040 100644
--- a/koladata/functor/parallel/stream_filter_json.cc
+++ b/koladata/functor/parallel/stream_filter_json.cc
@@ -168,7 +168,6 @@ class StreamStringFromJsonHooks final : public BasicRoutineHooks {
         // Note: we ignore invalid \uXXXX sequence and continue streaming.
         utf_code_.clear();
         state_ = STREAMING;
-        break;
       }
       switch (state_) {
         case START_STREAMING:
-- 
2.43.0


From 0b96e7d4621a47c679bc067ded7d4209cdd15b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:08 +0000
Subject: [PATCH 25/40] fix: stream_string_value replaces unpaired surrogates
 with U+FFFD

---
 .../functor/parallel/stream_filter_json.cc    | 44 ++++++++++++++-----
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/koladata/functor/parallel/stream_filter_json.cc b/koladata/functor/parallel/stream_filter_json.cc
index a517040..18e8fb7 100644
--- a/koladata/functor/parallel/stream_filter_json.cc
+++ b/koladata/functor/parallel/stream_filter_json.cc
@@ -15,6 +15,7 @@
 #include "koladata/functor/parallel/stream_filter_json.h"
 
 #include <memory>
+#include <optional>
 #include <string>
 #include <utility>
 
@@ -40,6 +41,8 @@ namespace koladata::functor::parallel {
 
 namespace {
 
+constexpr int kReplacementCharacter = 0xfffd;
+
 void ConfigureParser(ops::JsonStreamParser& parser) {
   parser.SetSeparatorPolicy(ops::JsonStreamParser::SeparatorPolicy::REMOVE);
   parser.AllowLinebreakInStrings(true);
@@ -179,10 +182,12 @@ class StreamStringFromJsonHooks final : public BasicRoutineHooks {
           break;
         case STREAMING:
           if (c == '"') {
+            AppendUnpairedSurrogate(res);
             state_ = FINISHED;
           } else if (c == '\\') {
             state_ = ESCAPE;
           } else {
+            AppendUnpairedSurrogate(res);
             res.push_back(c);
           }
           break;
@@ -192,23 +197,15 @@ class StreamStringFromJsonHooks final : public BasicRoutineHooks {
             utf_code_.clear();
             break;
           }
+          AppendUnpairedSurrogate(res);
           res.push_back(GetEscapedCharacter(c));
           state_ = STREAMING;
           break;
         case ESCAPE_UTF:
           utf_code_.push_back(c);
           if (utf_code_.size() >= 4) {
-            int code = std::stoi(utf_code_, nullptr, 16);
+            AppendUtf16(std::stoi(utf_code_, nullptr, 16), res);
             utf_code_.clear();
-            if (code >= 0xd800 && code < 0xdc00) {  // high surrogate
-              utf16_high_surrogate_ = code - 0xd800;
-              state_ = STREAMING;
-              break;
-            }
-            if (code >= 0xdc00 && code < 0xe000) {  // low surrogate
-              code = utf16_high_surrogate_ * 0x400 + (code - 0xdc00) + 0x10000;
-            }
-            EncodeUtf8(code, res);
             state_ = STREAMING;
           }
           break;
@@ -273,6 +270,31 @@ class StreamStringFromJsonHooks final : public BasicRoutineHooks {
     }
   }
 
+  // Appends a UTF-16 code unit. A high surrogate is kept until the low one.
+  void AppendUtf16(int code, std::string& res) {
+    const bool is_low_surrogate = code >= 0xdc00 && code < 0xe000;
+    if (is_low_surrogate && utf16_high_surrogate_.has_value()) {
+      code = *utf16_high_surrogate_ * 0x400 + (code - 0xdc00) + 0x10000;
+      utf16_high_surrogate_ = std::nullopt;
+      EncodeUtf8(code, res);
+      return;
+    }
+    AppendUnpairedSurrogate(res);
+    if (code >= 0xd800 && code < 0xdc00) {
+      utf16_high_surrogate_ = code - 0xd800;
+    } else {
+      EncodeUtf8(is_low_surrogate ? kReplacementCharacter : code, res);
+    }
+  }
+
+  // Replaces the pending high surrogate, for which there is no low one.
+  void AppendUnpairedSurrogate(std::string& res) {
+    if (utf16_high_surrogate_.has_value()) {
+      utf16_high_surrogate_ = std::nullopt;
+      EncodeUtf8(kReplacementCharacter, res);
+    }
+  }
+
   static void EncodeUtf8(int code, std::string& res) {
     if (code < 0x80) {
       res.push_back(code);
@@ -304,7 +326,7 @@ class StreamStringFromJsonHooks final : public BasicRoutineHooks {
     FINISHED
   } state_ = FILTERING;
   std::string utf_code_;
-  int utf16_high_surrogate_;
+  std::optional<int> utf16_high_surrogate_;
 };
 
 }  // namespace
-- 
2.43.0


From ee1dc020f34bd7a353c3424472b574951059c4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:08 +0000
Subject: [PATCH 26/40] fix: stream_string_value reports truncated input
 instead of appending a space

---
 koladata/functor/parallel/stream_filter_json.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/koladata/functor/parallel/stream_filter_json.cc b/koladata/functor/parallel/stream_filter_json.cc
index 18e8fb7..dccb074 100644
--- a/koladata/functor/parallel/stream_filter_json.cc
+++ b/koladata/functor/parallel/stream_filter_json.cc
@@ -161,7 +161,18 @@ class StreamStringFromJsonHooks final : public BasicRoutineHooks {
 
   absl::Status ProcessChunk(absl::string_view chunk) {
     RETURN_IF_ERROR(parser_.AddChunk(chunk));
-    chunk = parser_.ConsumeChunk();
+    return StreamParsedChunk();
+  }
+
+  absl::Status ProcessEnd() {
+    // Finalize may complete a value that has to be streamed.
+    absl::Status status = parser_.Finalize();
+    RETURN_IF_ERROR(StreamParsedChunk());
+    return status;
+  }
+
+  absl::Status StreamParsedChunk() {
+    absl::string_view chunk = parser_.ConsumeChunk();
     if (chunk.empty() || state_ == FILTERING) {
       return absl::OkStatus();
     }
@@ -243,7 +254,7 @@ class StreamStringFromJsonHooks final : public BasicRoutineHooks {
     }
     if (absl::Status* status = try_read_result.close_status()) {
       if (status->ok()) {
-        writer_->TryClose(ProcessChunk(" "));
+        writer_->TryClose(ProcessEnd());
       } else {
         writer_->TryClose(*status);
       }
-- 
2.43.0


From 8f2e6eadcd707b35d87aa017f264d0e6571d1afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:21 +0000
Subject: [PATCH 27/40] fix: get_object_key_values does not corrupt memory on
 unbalanced brackets

---
 koladata/internal/op_utils/json_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/json_stream.cc b/koladata/internal/op_utils/json_stream.cc
index 8baccd3..d40577b 100644
--- a/koladata/internal/op_utils/json_stream.cc
+++ b/koladata/internal/op_utils/json_stream.cc
@@ -1371,7 +1371,7 @@ JsonStreamProcessResult JsonExtractValuesStreamProcessor::Process(
           }
         }
 
-        if (!is_in_match_) {
+        if (!is_in_match_ && !container_path_stack_.empty()) {
           container_path_stack_.pop_back();
           is_object_key_ = false;
         }
-- 
2.43.0


From 826701d1dcb2a2047bcf300e5a1836cbb2cc9736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:13 +0000
Subject: [PATCH 28/40] fix: the last value wins for duplicated objects with
 values of different types in a dense source

---
 koladata/internal/dense_source.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/koladata/internal/dense_source.cc b/koladata/internal/dense_source.cc
index c13b547..d44f455 100644
--- a/koladata/internal/dense_source.cc
+++ b/koladata/internal/dense_source.cc
@@ -290,15 +290,22 @@ class MultitypeDenseSource : public DenseSource {
       return absl::OkStatus();
     }
 
+    absl::InlinedVector<uint8_t, 4> typeidx_map;
     values.VisitValues([&]<class T>(const DenseArray<T>& array) {
       SetImpl</*RemoveMissing=*/false>(objects, array);
+      typeidx_map.push_back(GetOrAddTypeIdx<T>());
     });
-    const uint8_t* val_typeidx = values.types_buffer().id_to_typeidx.data();
+    const uint8_t* val_id_to_tidx = values.types_buffer().id_to_typeidx.data();
+    // Types are assigned in the order of `objects`, so the last value is used
+    // if there are duplicates with values of different types.
     objects.ForEachPresent([&](int64_t val_offset, ObjectId id) {
-      if (obj_allocation_id_.Contains(id) &&
-          !TypesBuffer::is_present_type_idx(val_typeidx[val_offset])) {
-        types_buffer_.id_to_typeidx[id.Offset()] = TypesBuffer::kRemoved;
+      if (!obj_allocation_id_.Contains(id)) {
+        return;
       }
+      uint8_t val_tidx = val_id_to_tidx[val_offset];
+      types_buffer_.id_to_typeidx[id.Offset()] =
+          TypesBuffer::is_present_type_idx(val_tidx) ? typeidx_map[val_tidx]
+                                                     : TypesBuffer::kRemoved;
     });
 
     return absl::OkStatus();
@@ -431,8 +438,8 @@ class MultitypeDenseSource : public DenseSource {
           if constexpr (RemoveMissing) {
             types_buffer_.id_to_typeidx[offset] =
                 v.present ? typeidx : TypesBuffer::kRemoved;
-          } else if (v.present) {
-            types_buffer_.id_to_typeidx[offset] = typeidx;
+          } else if (!v.present) {
+            return;
           }
           if constexpr (!std::is_same_v<T, view_type_t<T>>) {
             dst_vals[offset] = v.present ? T(v.value) : T();
-- 
2.43.0


From eecc72093396b56401546b51a14f7becf5859de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:13 +0000
Subject: [PATCH 29/40] fix: replacing an inverted range of a list by nothing
 inserts nothing

---
 koladata/internal/data_bag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/internal/data_bag.cc b/koladata/internal/data_bag.cc
index f765aa5..3409b3b 100644
--- a/koladata/internal/data_bag.cc
+++ b/koladata/internal/data_bag.cc
@@ -2077,7 +2077,7 @@ int64_t DataBagImpl::RemoveAndReserveInList(DataList& list, ListRange range,
     } else if (size_delta > 0) {
       list.InsertMissing(to, size_delta);
     }
-  } else {
+  } else if (new_values_count > 0) {
     list.InsertMissing(from, new_values_count);
   }
   return from;
-- 
2.43.0


From e92bec0d8983f9eba0bd0167af4df178928de01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 30/40] fix: merging honours the schema conflict policy for
 schemas of big allocations

---
 koladata/internal/data_bag.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/koladata/internal/data_bag.cc b/koladata/internal/data_bag.cc
index 3409b3b..ee77d3f 100644
--- a/koladata/internal/data_bag.cc
+++ b/koladata/internal/data_bag.cc
@@ -3487,7 +3487,7 @@ absl::Status DataBagImpl::AddSmallAllocOverwritingUpdate(
 }
 
 absl::Status DataBagImpl::MergeBigAllocImpl(
-    const DataBagImpl& other, const MergeOptions& options,
+    const DataBagImpl& other, const MergeOptions& merge_options,
     absl::FunctionRef<SourceCollection&(AllocationId, absl::string_view)>
         get_this_collection) const {
   absl::flat_hash_set<SourceKey> used_keys;
@@ -3501,6 +3501,11 @@ absl::Status DataBagImpl::MergeBigAllocImpl(
         continue;
       }
       const auto& [alloc, attr_name] = source_key;
+      MergeOptions options = merge_options;
+      if (alloc.IsExplicitSchemasAlloc()) {
+        // Attributes of schemas from big allocations are stored in sources_.
+        options.data_conflict_policy = options.schema_conflict_policy;
+      }
       ConstDenseSourceArray other_dense_sources;
       ConstSparseSourceArray other_sparse_sources;
       // NOTE we are taking sources from the top level DataBagImpl.
-- 
2.43.0


From b4af5791d784b7dc546732c31b9ae9a9db4c250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:04 +0000
Subject: [PATCH 31/40] fix: merging a fork with sparse updates of a dense
 source does not fail an assertion

---
 koladata/internal/data_bag.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/koladata/internal/data_bag.cc b/koladata/internal/data_bag.cc
index ee77d3f..a1c9aef 100644
--- a/koladata/internal/data_bag.cc
+++ b/koladata/internal/data_bag.cc
@@ -3535,7 +3535,9 @@ absl::Status DataBagImpl::MergeBigAllocImpl(
                 other_source_collection_copy.mutable_dense_source;
             other_source_collection_copy.mutable_dense_source = nullptr;
           }
-          DCHECK(other_source_collection_copy.const_dense_source != nullptr);
+          // The dense source can also come from a parent of `other_db`.
+          DCHECK(other_source_collection_copy.const_dense_source != nullptr ||
+                 !other_sparse_sources.empty());
           // Merge sparse and dense sources into single mutable dense source.
           // We want to avoid references into data from a different DataBag.
           // In case single dense source is immutable, it is fine to share it
-- 
2.43.0


From dd8f4ae08ec6cef6a08debf852d3b313844a820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 32/40] fix: databag statistics count an overwritten attribute
 of a small allocation once

---
 koladata/internal/data_bag.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/koladata/internal/data_bag.cc b/koladata/internal/data_bag.cc
index a1c9aef..bf44c4f 100644
--- a/koladata/internal/data_bag.cc
+++ b/koladata/internal/data_bag.cc
@@ -4131,10 +4131,12 @@ absl::StatusOr<DataBagStatistics> DataBagImpl::GetStatistics() const {
     if (attr_index.with_small_allocs) {
       ConstSparseSourceArray sources;
       GetSmallAllocDataSources(attr_name, sources);
+      // Values from parent databags can be overwritten.
+      absl::flat_hash_set<internal::ObjectId> visited;
       for (const SparseSource* source : sources) {
         for (const auto& [obj, value] : source->GetAll()) {
           object_set.insert(obj);
-          if (value.has_value()) {
+          if (visited.insert(obj).second && value.has_value()) {
             ++value_count;
           }
         }
-- 
2.43.0


From 17d304d969fa638181397201f7a1241501d8f0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:20 +0000
Subject: [PATCH 33/40] fix: reversing a slice keeps the allocation ids of its
 objects

---
 koladata/internal/op_utils/reverse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/reverse.cc b/koladata/internal/op_utils/reverse.cc
index e9fc04c..00ed357 100644
--- a/koladata/internal/op_utils/reverse.cc
+++ b/koladata/internal/op_utils/reverse.cc
@@ -35,7 +35,7 @@ DataSliceImpl ReverseOp::operator()(
   }
   absl::Span<const int64_t> split_points =
       ds_shape.edges().back().edge_values().values.span();
-  SliceBuilder builder(ds_impl.size());
+  SliceBuilder builder(ds_impl.size(), ds_impl.allocation_ids());
   ds_impl.VisitValues([&]<class T>(const arolla::DenseArray<T>& values) {
     arolla::DenseArrayBuilder<T> values_builder(values.size());
     size_t split_point_id = 0;
-- 
2.43.0


From bd72a1743ab177fd612fc368e465c721633ff7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:52 +0000
Subject: [PATCH 34/40] fix: extracting objects with several schemas of an
 attribute does not treat a part of an allocation as all of it

---
 koladata/internal/op_utils/extract.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/koladata/internal/op_utils/extract.cc b/koladata/internal/op_utils/extract.cc
index c3ce99b..b5348d2 100644
--- a/koladata/internal/op_utils/extract.cc
+++ b/koladata/internal/op_utils/extract.cc
@@ -890,13 +890,16 @@ class CopyingProcessor {
               if (!status.ok()) {
                 return;
               }
+              // A group may be a part of an allocation even if the whole slice
+              // is a full one.
+              bool group_full_alloc = false;
               status = ProcessAttribute(
                   {.slice =
                        DataSliceImpl::Create(std::move(new_ds_grouped[idx])),
                    .schema = DataItem(schema::kObject),
                    .schema_source = SchemaSource::kDataDatabag,
                    .depth = depth},
-                  attr_name, DataItem(attr_schema), full_alloc);
+                  attr_name, DataItem(attr_schema), group_full_alloc);
             });
           } else {
             DCHECK(false);
-- 
2.43.0


From 6be61eebb1d8f7eceb742a575ad3f11b07dc2cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:52 +0000
Subject: [PATCH 35/40] fix: a sub-slice does not keep the types that have no
 values in it

---
 koladata/internal/data_slice.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/koladata/internal/data_slice.cc b/koladata/internal/data_slice.cc
index 315cdfe..3b1214c 100644
--- a/koladata/internal/data_slice.cc
+++ b/koladata/internal/data_slice.cc
@@ -211,6 +211,16 @@ DataSliceImpl DataSliceImpl::SubSlice(int64_t offset, int64_t size) const {
     impl->values.emplace_back(
         array.Slice(offset, size).ForceNoBitmapBitOffset());
   });
+  // Some of the types may have no values within the range.
+  RemoveEmptyValues(*impl);
+  if (has_types_buffer() && impl->values.size() != internal_->values.size()) {
+    impl->types_buffer.types.clear();
+    for (const auto& vals : impl->values) {
+      std::visit(
+          [&](const auto& arr) { AddToTypesBuffer(impl->types_buffer, arr); },
+          vals);
+    }
+  }
   return DataSliceImpl(std::move(impl));
 }
 
-- 
2.43.0


From ef9e24de0b9497378385e73fb0a0c1ca9e4d2caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 36/40] fix: an entity reached through a no-follow attribute is
 still extracted when reached through another one

---
 koladata/internal/op_utils/extract.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/koladata/internal/op_utils/extract.cc b/koladata/internal/op_utils/extract.cc
index b5348d2..9282c66 100644
--- a/koladata/internal/op_utils/extract.cc
+++ b/koladata/internal/op_utils/extract.cc
@@ -295,6 +295,12 @@ class CopyingProcessor {
     // TODO: Decide on the behavior, when we come to the same
     // object with the different schemas.
     if (slice.schema.holds_value<ObjectId>()) {
+      if (slice.schema.value<ObjectId>().IsNoFollowSchema()) {
+        // Not followed here, and not marked as visited: the same objects may
+        // also be reached in a way that is followed.
+        UpdateDepthAndAddToQueue(slice, push_front);
+        return absl::OkStatus();
+      }
       return VisitEntities(slice, push_front);
     } else if (slice.schema.holds_value<schema::DType>()) {
       if (slice.schema == schema::kObject || slice.schema == schema::kSchema) {
-- 
2.43.0


From 1fcde8eb566d6c16f6a302cb2930bc09b6266896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:12 +0000
Subject: [PATCH 37/40] fix: setting missing values of unknown type removes the
 attribute of a whole allocation

---
 koladata/data_slice.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/koladata/data_slice.cc b/koladata/data_slice.cc
index 8b3f0f7..df3f5c8 100644
--- a/koladata/data_slice.cc
+++ b/koladata/data_slice.cc
@@ -1737,8 +1737,11 @@ absl::Status SetAttrImpl(const DataSlice& obj, absl::string_view attr_name,
     RETURN_IF_ERROR(data_handler.ProcessSchema(obj, db_mutable_impl,
                                                /*fallbacks=*/{}));
   }
+  // NOTE: SetAttrFullAlloc ignores values that are empty and unknown, while
+  // SetAttr removes the attribute in this case.
   if (auto full_alloc = obj.GetFullAllocOrNone();
-      full_alloc.has_value() && !obj.is_item() && !full_alloc->IsSmall()) {
+      full_alloc.has_value() && !obj.is_item() && !full_alloc->IsSmall() &&
+      !data_handler.GetValues().slice().is_empty_and_unknown()) {
     return db_mutable_impl.SetAttrFullAlloc(
         *full_alloc, attr_name,
         data_handler.GetValues().slice().UnsetToRemoved());
-- 
2.43.0


From aa291c5298c118b2c36e789e8a61b996cab9f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:12 +0000
Subject: [PATCH 38/40] fix: setting missing values by a slice of attribute
 names removes the attributes

---
 koladata/data_slice.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/koladata/data_slice.cc b/koladata/data_slice.cc
index df3f5c8..87405d7 100644
--- a/koladata/data_slice.cc
+++ b/koladata/data_slice.cc
@@ -1818,13 +1818,16 @@ absl::Status DataSlice::SetAttr(const DataSlice& attr_name,
   absl::Status status = absl::OkStatus();
   RETURN_IF_ERROR(arolla::DenseArraysForEachPresent(
       [&](int64_t offset, internal::DataItem item, std::string_view attr_name,
-          internal::DataItem value) {
+          arolla::OptionalValue<internal::DataItem> value) {
         if (!status.ok()) {
           return;
         }
-        status = SetAttrForSingleItem(item, attr_name, value, overwrite_schema,
-                                      GetSchemaImpl(), values.GetSchemaImpl(),
-                                      GetBag());
+        // NOTE: missing values remove the attribute.
+        status = SetAttrForSingleItem(
+            item, attr_name,
+            value.present ? std::move(value.value) : internal::DataItem(),
+            overwrite_schema, GetSchemaImpl(), values.GetSchemaImpl(),
+            GetBag());
       },
       aligned_obj.AsDataItemDenseArray(),
       aligned_attr_name.values<arolla::Text>(),
-- 
2.43.0


From 73aa602221abb6af872ba9e74aa8ed9e2807ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:04 +0000
Subject: [PATCH 39/40] fix: setting and removing at a single index in an empty
 slice of lists does nothing

---
 koladata/data_slice.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/koladata/data_slice.cc b/koladata/data_slice.cc
index 87405d7..9be290a 100644
--- a/koladata/data_slice.cc
+++ b/koladata/data_slice.cc
@@ -2389,6 +2389,10 @@ absl::Status DataSlice::SetInList(const DataSlice& indices,
   }
   ASSIGN_OR_RETURN(auto expanded_indices,
                    BroadcastToShape(std::move(indices_int64), shape));
+  if (expanded_indices.present_count() == 0) {
+    // E.g. a single index for an empty slice of lists.
+    return absl::OkStatus();
+  }
   ASSIGN_OR_RETURN(auto expanded_values, BroadcastToShape(values, shape),
                    _.With([&](absl::Status status) {
                      return ListAssignmentError(std::move(status), shape.rank(),
@@ -2492,6 +2496,10 @@ absl::Status DataSlice::RemoveInList(const DataSlice& indices) const {
   }
   ASSIGN_OR_RETURN(auto expanded_indices,
                    BroadcastToShape(std::move(indices_int64), shape));
+  if (expanded_indices.present_count() == 0) {
+    // E.g. a single index for an empty slice of lists.
+    return absl::OkStatus();
+  }
   ASSIGN_OR_RETURN(internal::DataBagImpl & db_mutable_impl,
                    GetBag()->GetMutableImpl());
   RETURN_IF_ERROR(VerifyListSchemaValid(*this, db_mutable_impl))
-- 
2.43.0


From 605a465841ae65ff97643a7c3761b40a99156f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:04 +0000
Subject: [PATCH 40/40] fix: a tuple in a tuple is checked for bags that are
 not frozen

---
 koladata/check_frozen.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/koladata/check_frozen.cc b/koladata/check_frozen.cc
index 15bb8a1..72c4c96 100644
--- a/koladata/check_frozen.cc
+++ b/koladata/check_frozen.cc
@@ -57,7 +57,7 @@ absl::Status CheckFrozenCompoundValue(arolla::TypedRef value) {
   while (!stack.empty()) {
     arolla::TypedRef field = stack.top();
     stack.pop();
-    const int64_t field_count = value.GetFieldCount();
+    const int64_t field_count = field.GetFieldCount();
     DCHECK_GT(field_count, 0);
     for (int64_t i = 0; i < field_count; ++i) {
       auto sub_field = field.GetField(i);
-- 
2.43.0

