From 184853959f136a7e28d0e647ab9c60ccfd77ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:28 +0000
Subject: [PATCH 01/10] fix: apply null values and type changes when merging
 reloaded data

A nested container that became null in the resource kept its old content,
and a value replaced by an equal value of another type (1, True, 1.0) was
not updated.
---
 synced_collections/data_types/synced_dict.py | 12 ++++++++++--
 synced_collections/data_types/synced_list.py | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 484c951..94bff02 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -141,9 +141,17 @@ class SyncedDict(SyncedCollection, MutableMapping):
                             self._validate({key: new_value})
                         self._data[key] = self._from_base(new_value, parent=self)
                     else:
-                        if new_value == existing:
+                        if new_value is existing:
                             continue
-                        if _sc_resolver.get_type(existing) == "SYNCEDCOLLECTION":
+                        if _sc_resolver.get_type(existing) != "SYNCEDCOLLECTION":
+                            # Equal values of different types (e.g. 1 and True)
+                            # are not interchangeable.
+                            if (
+                                type(new_value) is type(existing)
+                                and new_value == existing
+                            ):
+                                continue
+                        elif new_value is not None:
                             try:
                                 existing._update(new_value)
                                 continue
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index e45eba8..febd9d9 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -143,9 +143,17 @@ class SyncedList(SyncedCollection, MutableSequence):
                 # inserting at the beginning will require reconverting all
                 # elements of the data.
                 for i in range(min(len(self), len(data))):
-                    if data[i] == self._data[i]:
+                    if data[i] is self._data[i]:
                         continue
-                    if _sc_resolver.get_type(self._data[i]) == "SYNCEDCOLLECTION":
+                    if _sc_resolver.get_type(self._data[i]) != "SYNCEDCOLLECTION":
+                        # Equal values of different types (e.g. 1 and True)
+                        # are not interchangeable.
+                        if (
+                            type(data[i]) is type(self._data[i])
+                            and data[i] == self._data[i]
+                        ):
+                            continue
+                    elif data[i] is not None:
                         try:
                             self._data[i]._update(data[i])
                             continue
-- 
2.43.0


From 8c5e2d5afcd10dabbb21492a2e4ad7fc2f9fae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:37 +0000
Subject: [PATCH 02/10] fix: compare a synced list with a plain list using the
 right operator

list < plain_list used the > operator.
---
 synced_collections/data_types/synced_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index febd9d9..d869634 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -254,7 +254,7 @@ class SyncedList(SyncedCollection, MutableSequence):
         if isinstance(other, type(self)):
             return self() < other()
         else:
-            return self() > other
+            return self() < other
 
     def __le__(self, other):
         if isinstance(other, type(self)):
-- 
2.43.0


From 2eaa7265e5ec4ee48bfea0845886d872958bdb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:02 +0000
Subject: [PATCH 03/10] fix: reject forbidden data in every collection type

The attribute-access list classes accepted nested keys with dots, and keys
of dicts inside lists were not checked by require_string_key or by ZarrList.
---
 synced_collections/backends/collection_json.py | 6 ++++++
 synced_collections/backends/collection_zarr.py | 2 ++
 synced_collections/validators.py               | 2 +-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index ddb009c..eaae42c 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -595,6 +595,8 @@ class JSONAttrList(JSONList):
     """A :class:`JSONList` whose dict-like children will be of type :class:`JSONAttrDict`."""
 
     _backend = __name__ + ".attr"  # type: ignore
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
 
 
 class BufferedJSONAttrDict(BufferedJSONDict, AttrDict):
@@ -611,6 +613,8 @@ class BufferedJSONAttrList(BufferedJSONList):
     """A :class:`BufferedJSONList` whose dict-like children will be of type :class:`BufferedJSONAttrDict`."""  # noqa: E501
 
     _backend = __name__ + ".buffered_attr"  # type: ignore
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
 
 
 class MemoryBufferedJSONAttrDict(MemoryBufferedJSONDict, AttrDict):
@@ -627,3 +631,5 @@ class MemoryBufferedJSONAttrList(MemoryBufferedJSONList):
     """A :class:`MemoryBufferedJSONList` whose dict-like children will be of type :class:`MemoryBufferedJSONAttrDict`."""  # noqa: E501
 
     _backend = __name__ + ".memory_buffered_attr"  # type: ignore
+    _validators = (no_dot_in_key,)
+    _all_validators = (json_attr_dict_validator,)
diff --git a/synced_collections/backends/collection_zarr.py b/synced_collections/backends/collection_zarr.py
index 678f2d9..61030e2 100644
--- a/synced_collections/backends/collection_zarr.py
+++ b/synced_collections/backends/collection_zarr.py
@@ -45,6 +45,8 @@ class ZarrCollection(SyncedCollection):
 
     _backend = __name__  # type: ignore
 
+    _validators = (require_string_key,)
+
     def __init__(self, group=None, name=None, codec=None, *args, **kwargs):
         if not ZARR:
             raise RuntimeError(
diff --git a/synced_collections/validators.py b/synced_collections/validators.py
index 95e15cc..6f33b02 100644
--- a/synced_collections/validators.py
+++ b/synced_collections/validators.py
@@ -90,7 +90,7 @@ def require_string_key(data):
                     f"Mapping keys must be str, not {type(key).__name__}"
                 )
             require_string_key(value)
-    elif switch_type == "NON_STR_SEQUENCE":
+    elif switch_type == "SEQUENCE":
         for value in data:
             require_string_key(value)
 
-- 
2.43.0


From e780b7057aeda46f3847e90b29dbdd30bb9e1d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:02 +0000
Subject: [PATCH 04/10] fix: make attribute access agree with item access

Deleting a missing key as an attribute raised KeyError. Three protected
names did not exist on the objects, so reading them fell through to the
data although writing them did not.
---
 synced_collections/backends/collection_json.py | 3 ---
 synced_collections/data_types/attr_dict.py     | 5 ++++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index eaae42c..52a3fee 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -238,10 +238,7 @@ _JSONDICT_PROTECTED_KEYS = frozenset(
     (
         # These are all protected keys that are inherited from data type classes.
         "_data",
-        "_name",
-        "_suspend_sync_",
         "_load",
-        "_sync",
         "_root",
         "_validators",
         "_all_validators",
diff --git a/synced_collections/data_types/attr_dict.py b/synced_collections/data_types/attr_dict.py
index 5e00e2a..8185631 100644
--- a/synced_collections/data_types/attr_dict.py
+++ b/synced_collections/data_types/attr_dict.py
@@ -62,4 +62,7 @@ class AttrDict:
         if key in self._PROTECTED_KEYS or key.startswith("__"):
             super().__delattr__(key)
         else:
-            self.__delitem__(key)
+            try:
+                self.__delitem__(key)
+            except KeyError as e:
+                raise AttributeError(e)
-- 
2.43.0


From 69d4639720a892d6a9ec24c2e028fda5f3deafb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:02 +0000
Subject: [PATCH 05/10] fix: cache the category of a type only if it is the
 same for all instances

Subclasses of blocklisted types and objects with a different __class__ were
classified like the first instance that was seen.
---
 synced_collections/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/synced_collections/utils.py b/synced_collections/utils.py
index f813570..79e62d7 100644
--- a/synced_collections/utils.py
+++ b/synced_collections/utils.py
@@ -65,7 +65,7 @@ class AbstractTypeResolver:
     def __init__(self, abstract_type_identifiers, cache_blocklist=None):
         self.abstract_type_identifiers = abstract_type_identifiers
         self.type_map = {}
-        self.cache_blocklist = cache_blocklist if cache_blocklist is not None else ()
+        self.cache_blocklist = tuple(cache_blocklist or ())
 
     def get_type(self, obj):
         """Get the type string corresponding to this data type.
@@ -85,14 +85,19 @@ class AbstractTypeResolver:
         """
         obj_type = type(obj)
         enum_type = None
+        # Only the category of objects that are not disguised as another type
+        # (e.g. proxies) can be inferred from their type.
+        cacheable = obj.__class__ is obj_type
         try:
+            if not cacheable:
+                raise KeyError(obj_type)
             enum_type = self.type_map[obj_type]
         except KeyError:
             for data_type, id_func in self.abstract_type_identifiers.items():
                 if id_func(obj):
                     enum_type = data_type
                     break
-            if obj_type not in self.cache_blocklist:
+            if cacheable and not issubclass(obj_type, self.cache_blocklist):
                 self.type_map[obj_type] = enum_type
 
         return enum_type
-- 
2.43.0


From ac28c2e0d37cf764c1f61f2d7ef092790653d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:28 +0000
Subject: [PATCH 06/10] fix: keep the lock of the old file when a collection
 changes its filename

Other objects bound to the old file failed with a KeyError afterwards.
---
 synced_collections/backends/collection_json.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index 52a3fee..a469b0f 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -9,6 +9,7 @@ import os
 import sys
 import uuid
 from collections.abc import Mapping, Sequence
+from threading import RLock
 from typing import Callable, FrozenSet
 from typing import Sequence as Sequence_t
 
@@ -218,16 +219,16 @@ class JSONCollection(SyncedCollection):
 
     @filename.setter
     def filename(self, value):
-        # When setting the filename we must also remap the locks.
+        # When setting the filename we must also provide the corresponding lock.
         with self._thread_lock:
-            if type(self)._threading_support_is_active:
-                old_lock_id = self._lock_id
+            if type(self)._supports_threading:
+                # Other objects may still be using the lock of the old file, so
+                # it is kept.
+                with type(self)._cls_lock:
+                    type(self)._locks.setdefault(value, RLock())
 
             self._filename = value
 
-            if type(self)._threading_support_is_active:
-                type(self)._locks[self._lock_id] = type(self)._locks.pop(old_lock_id)
-
     @property
     def _lock_id(self):
         return self._filename
-- 
2.43.0


From 68579d63fd546a93f3302f72f08130115ea9ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:38 +0000
Subject: [PATCH 07/10] fix: release all locks when an operation fails and do
 not save its result

The locks stayed acquired if loading the data failed. An operation that
raised, such as deleting a missing key, still wrote to the resource.
---
 .../buffers/file_buffered_collection.py        |  6 +++++-
 .../data_types/synced_collection.py            | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 415c5da..6be6d71 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -63,7 +63,11 @@ class _BufferedLoadAndSave(_LoadAndSave):
 
     def __enter__(self):
         self._collection._buffer_lock.__enter__()
-        super().__enter__()
+        try:
+            super().__enter__()
+        except BaseException:
+            self._collection._buffer_lock.__exit__(None, None, None)
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 5e074ad..2fdbfdc 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -40,12 +40,24 @@ class _LoadAndSave:
         self._collection = collection
 
     def __enter__(self):
-        self._collection._thread_lock.__enter__()
-        self._collection._load()
+        lock = self._collection._thread_lock
+        lock.__enter__()
+        while lock is not self._collection._thread_lock:
+            # The collection was associated with another resource in the meantime.
+            lock.__exit__(None, None, None)
+            lock = self._collection._thread_lock
+            lock.__enter__()
+        try:
+            self._collection._load()
+        except BaseException:
+            lock.__exit__(None, None, None)
+            raise
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-            self._collection._save()
+            # An operation that failed has not changed any data.
+            if exc_type is None:
+                self._collection._save()
         finally:
             self._collection._thread_lock.__exit__(exc_type, exc_val, exc_tb)
 
-- 
2.43.0


From 14d69bdbcb03cd8be2c4b4b383e705f4bdce8e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:42 +0000
Subject: [PATCH 08/10] fix: run every operation as one step on the current
 data

- Reads hold the lock while they load and read, because loading updates
  the data that concurrent writers work on. Iterators use a copy.
- clear() and reset() of a nested collection load the data first, modify it
  in place and use the lock of the root collection.
- pop() and reverse() of lists are single operations.
- update() and reset() validate all their data before they change anything,
  and update() accepts the keys 'self' and 'other'.
- Arguments are copied before any lock is acquired, so an operation can use
  the collection that it modifies as an argument.
---
 .../backends/collection_json.py               |  2 +
 .../buffers/file_buffered_collection.py       |  5 +
 .../data_types/synced_collection.py           | 94 ++++++++++++++-----
 synced_collections/data_types/synced_dict.py  | 49 +++++-----
 synced_collections/data_types/synced_list.py  | 36 ++++---
 5 files changed, 129 insertions(+), 57 deletions(-)

diff --git a/synced_collections/backends/collection_json.py b/synced_collections/backends/collection_json.py
index a469b0f..d36089b 100644
--- a/synced_collections/backends/collection_json.py
+++ b/synced_collections/backends/collection_json.py
@@ -244,6 +244,8 @@ _JSONDICT_PROTECTED_KEYS = frozenset(
         "_validators",
         "_all_validators",
         "_load_and_save",
+        "_load_only",
+        "_overwrite_and_save",
         "_suspend_sync",
         "_supports_threading",
         "_LoadSaveType",
diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 6be6d71..83a3354 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -61,6 +61,11 @@ class _BufferedLoadAndSave(_LoadAndSave):
     acquire the buffer lock in addition to the default behavior.
     """
 
+    def _must_load(self):
+        """Check whether the data has to be loaded when entering the context."""
+        # In buffered mode the current data is in the buffer.
+        return super()._must_load() or self._collection._is_buffered
+
     def __enter__(self):
         self._collection._buffer_lock.__enter__()
         try:
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index 2fdbfdc..b87b9ee 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -4,7 +4,7 @@
 """Implement the SyncedCollection class."""
 from abc import abstractmethod
 from collections import defaultdict
-from collections.abc import Collection
+from collections.abc import Collection, Mapping, Sequence
 from inspect import isabstract
 from threading import RLock
 from typing import Any, DefaultDict, List
@@ -26,6 +26,35 @@ _collection_resolver = AbstractTypeResolver(
 )
 
 
+def _snapshot(data):
+    """Copy data recursively into built-in containers.
+
+    Arguments of an operation may be (or contain) synced collections, including
+    the one being modified. They have to be read before the operation starts so
+    that it neither observes its own effects nor acquires locks while holding
+    the ones of another collection.
+
+    Parameters
+    ----------
+    data : Any
+        The data to copy.
+
+    Returns
+    -------
+    Any
+        The equivalent `dict` or `list` if data is a mapping or a non-string
+        sequence, otherwise the unchanged data.
+
+    """
+    if isinstance(data, SyncedCollection):
+        return data()
+    elif isinstance(data, Mapping):
+        return {key: _snapshot(value) for key, value in data.items()}
+    elif isinstance(data, Sequence) and not isinstance(data, str):
+        return [_snapshot(value) for value in data]
+    return data
+
+
 class _LoadAndSave:
     """A context manager for :class:`SyncedCollection` to wrap saving and loading.
 
@@ -34,10 +63,27 @@ class _LoadAndSave:
     other aspects of the synchronization, particularly the acquisition of thread
     locks. This class abstracts this concept, making it easy for subclasses to
     customize the behavior if needed (for instance, to introduce additional locks).
+
+    Parameters
+    ----------
+    collection : SyncedCollection
+        The root collection to load and save.
+    load : bool
+        Whether to load the data when entering the context. Operations that
+        replace all data of the root do not have to (Default value = True).
+    save : bool
+        Whether to save the data when exiting the context. Read operations must
+        not (Default value = True).
     """
 
-    def __init__(self, collection):
+    def __init__(self, collection, load=True, save=True):
         self._collection = collection
+        self._load = load
+        self._save = save
+
+    def _must_load(self):
+        """Check whether the data has to be loaded when entering the context."""
+        return self._load
 
     def __enter__(self):
         lock = self._collection._thread_lock
@@ -48,7 +94,8 @@ class _LoadAndSave:
             lock = self._collection._thread_lock
             lock.__enter__()
         try:
-            self._collection._load()
+            if self._must_load():
+                self._collection._load()
         except BaseException:
             lock.__exit__(None, None, None)
             raise
@@ -56,7 +103,7 @@ class _LoadAndSave:
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
             # An operation that failed has not changed any data.
-            if exc_type is None:
+            if self._save and exc_type is None:
                 self._collection._save()
         finally:
             self._collection._thread_lock.__exit__(exc_type, exc_val, exc_tb)
@@ -151,10 +198,11 @@ class SyncedCollection(Collection):
     Whether or not :class:`SyncedCollection` objects are thread-safe depends on the
     implementation of the backend. Thread-safety of SyncedCollection objects
     is predicated on backends providing an atomic write operation. All concrete
-    collection types use mutexes to guard against concurrent write operations,
-    while allowing read operations to happen freely. The validity of this mode
-    of access depends on the write operations of a SyncedCollection being
-    atomic, specifically the `:meth:`~._save_to_resource` method. Whether or not
+    collection types use mutexes to guard against concurrent operations. Read
+    operations must acquire them too because they update the in-memory data. The
+    validity of this mode of access depends on the write operations of a
+    SyncedCollection being atomic, specifically the
+    :meth:`~._save_to_resource` method. Whether or not
     a particular subclass of :class:`SyncedCollection` is thread-safe should be
     indicated by that subclass setting the ``_supports_threading`` class variable
     to ``True``. This variable is set to ``False`` by :class:`SyncedCollection`,
@@ -195,10 +243,15 @@ class SyncedCollection(Collection):
             self._root = root
             self._suspend_sync = root._suspend_sync
             self._load_and_save = root._load_and_save
+            self._load_only = root._load_only
+            # The data of the rest of the tree must be preserved.
+            self._overwrite_and_save = root._load_and_save
         else:
             self._root = None
             self._suspend_sync = _CounterContext()
             self._load_and_save = self._LoadSaveType(self)
+            self._load_only = self._LoadSaveType(self, save=False)
+            self._overwrite_and_save = self._LoadSaveType(self, load=False)
 
         if self._supports_threading:
             with self._cls_lock:
@@ -484,20 +537,20 @@ class SyncedCollection(Collection):
     # all data structures and regardless of backend.
 
     def __getitem__(self, key):
-        self._load()
-        return self._data[key]
+        with self._load_only:
+            return self._data[key]
 
     def __delitem__(self, key):
         with self._load_and_save:
             del self._data[key]
 
     def __iter__(self):
-        self._load()
-        return iter(self._data)
+        with self._load_only:
+            return iter(list(self._data))
 
     def __len__(self):
-        self._load()
-        return len(self._data)
+        with self._load_only:
+            return len(self._data)
 
     def __call__(self):
         """Get an equivalent but unsynced object of the base data type.
@@ -508,20 +561,19 @@ class SyncedCollection(Collection):
             An equivalent unsynced collection satisfying :meth:`is_base_type`.
 
         """
-        self._load()
-        return self._to_base()
+        with self._load_only:
+            return self._to_base()
 
     def __eq__(self, other):
-        self._load()
         if isinstance(other, type(self)):
             return self() == other()
         else:
             return self() == other
 
     def __repr__(self):
-        self._load()
-        return repr(self._data)
+        with self._load_only:
+            return repr(self._to_base())
 
     def __str__(self):
-        self._load()
-        return str(self._data)
+        with self._load_only:
+            return str(self._to_base())
diff --git a/synced_collections/data_types/synced_dict.py b/synced_collections/data_types/synced_dict.py
index 94bff02..6e64eda 100644
--- a/synced_collections/data_types/synced_dict.py
+++ b/synced_collections/data_types/synced_dict.py
@@ -11,7 +11,7 @@ give a dict-like API to a synchronized data structure.
 from collections.abc import Mapping, MutableMapping
 
 from ..utils import AbstractTypeResolver
-from .synced_collection import SyncedCollection, _sc_resolver
+from .synced_collection import SyncedCollection, _sc_resolver, _snapshot
 
 # Identifies mappings, which are the base type for this class.
 _mapping_resolver = AbstractTypeResolver(
@@ -179,6 +179,7 @@ class SyncedDict(SyncedCollection, MutableMapping):
             )
 
     def __setitem__(self, key, value):
+        value = _snapshot(value)
         self._validate({key: value})
         with self._load_and_save, self._suspend_sync:
             self._data[key] = self._from_base(value, parent=self)
@@ -198,9 +199,10 @@ class SyncedDict(SyncedCollection, MutableMapping):
 
         """
         if _mapping_resolver.get_type(data) == "MAPPING":
-            self._update(data)
-            with self._thread_lock:
-                self._save()
+            data = _snapshot(data)
+            self._validate(data)
+            with self._overwrite_and_save:
+                self._update(data)
         else:
             raise ValueError(
                 "Unsupported type: {}. The data must be a mapping or None.".format(
@@ -209,20 +211,20 @@ class SyncedDict(SyncedCollection, MutableMapping):
             )
 
     def keys(self):  # noqa: D102
-        self._load()
-        return self._data.keys()
+        with self._load_only:
+            return self._to_base().keys()
 
     def values(self):  # noqa: D102
-        self._load()
-        return self._to_base().values()
+        with self._load_only:
+            return self._to_base().values()
 
     def items(self):  # noqa: D102
-        self._load()
-        return self._to_base().items()
+        with self._load_only:
+            return self._to_base().items()
 
     def get(self, key, default=None):  # noqa: D102
-        self._load()
-        return self._data.get(key, default)
+        with self._load_only:
+            return self._data.get(key, default)
 
     def pop(self, key, default=None):  # noqa: D102
         with self._load_and_save:
@@ -235,24 +237,23 @@ class SyncedDict(SyncedCollection, MutableMapping):
         return ret
 
     def clear(self):  # noqa: D102
-        self._data = {}
-        with self._thread_lock:
-            self._save()
-
-    def update(self, other=None, **kwargs):  # noqa: D102
-        if other is not None:
-            # Convert sequence of key, value pairs to dict before validation
-            if _mapping_resolver.get_type(other) != "MAPPING":
-                other = dict(other)
-        else:
-            other = {}
+        with self._overwrite_and_save:
+            self._data.clear()
+
+    def update(self, other=(), /, **kwargs):  # noqa: D102
+        # Convert sequence of key, value pairs to dict before validation
+        if _mapping_resolver.get_type(other) != "MAPPING":
+            other = dict(other)
 
+        other = _snapshot({**other, **kwargs})
+        self._validate(other)
         with self._load_and_save:
             # The order here is important to ensure that the promised sequence of
             # overrides is obeyed: kwargs > other > existing data.
-            self._update({**self._data, **other, **kwargs})
+            self._update({**self._data, **other})
 
     def setdefault(self, key, default=None):  # noqa: D102
+        default = _snapshot(default)
         with self._load_and_save:
             if key in self._data:
                 ret = self._data[key]
diff --git a/synced_collections/data_types/synced_list.py b/synced_collections/data_types/synced_list.py
index d869634..5971c2a 100644
--- a/synced_collections/data_types/synced_list.py
+++ b/synced_collections/data_types/synced_list.py
@@ -16,7 +16,7 @@ from ..numpy_utils import (
     _numpy_cache_blocklist,
 )
 from ..utils import AbstractTypeResolver
-from .synced_collection import SyncedCollection, _sc_resolver
+from .synced_collection import SyncedCollection, _sc_resolver, _snapshot
 
 # Identifies sequences, which are the base type for this class.
 _sequence_resolver = AbstractTypeResolver(
@@ -164,7 +164,7 @@ class SyncedList(SyncedCollection, MutableSequence):
                     self._data[i] = self._from_base(data[i], parent=self)
 
                 if len(self._data) > len(data):
-                    self._data = self._data[: len(data)]
+                    del self._data[len(data) :]
                 else:
                     new_data = data[len(self) :]
                     if not _validate:
@@ -193,9 +193,10 @@ class SyncedList(SyncedCollection, MutableSequence):
         """
         data = _convert_numpy(data)
         if _sequence_resolver.get_type(data) == "SEQUENCE":
-            self._update(data)
-            with self._thread_lock:
-                self._save()
+            data = _snapshot(data)
+            self._validate(data)
+            with self._overwrite_and_save:
+                self._update(data)
         else:
             raise ValueError(
                 "Unsupported type: {}. The data must be a non-string sequence or None.".format(
@@ -204,17 +205,18 @@ class SyncedList(SyncedCollection, MutableSequence):
             )
 
     def __setitem__(self, key, value):
+        value = _snapshot(value)
         self._validate(value)
         with self._load_and_save, self._suspend_sync:
             self._data[key] = self._from_base(data=value, parent=self)
 
     def __reversed__(self):
-        self._load()
-        return reversed(self._data)
+        with self._load_only:
+            return reversed(list(self._data))
 
     def __iadd__(self, iterable):
         # Convert input to a list so that iterators work as well as iterables.
-        iterable_data = list(iterable)
+        iterable_data = _snapshot(list(iterable))
         self._validate(iterable_data)
         with self._load_and_save, self._suspend_sync:
             self._data += [
@@ -223,18 +225,20 @@ class SyncedList(SyncedCollection, MutableSequence):
         return self
 
     def insert(self, index, item):  # noqa: D102
+        item = _snapshot(item)
         self._validate(item)
         with self._load_and_save, self._suspend_sync:
             self._data.insert(index, self._from_base(data=item, parent=self))
 
     def append(self, item):  # noqa: D102
+        item = _snapshot(item)
         self._validate(item)
         with self._load_and_save, self._suspend_sync:
             self._data.append(self._from_base(data=item, parent=self))
 
     def extend(self, iterable):  # noqa: D102
         # Convert iterable to a list to ensure generators are exhausted only once
-        iterable_data = list(iterable)
+        iterable_data = _snapshot(list(iterable))
         self._validate(iterable_data)
         with self._load_and_save, self._suspend_sync:
             self._data.extend(
@@ -242,13 +246,21 @@ class SyncedList(SyncedCollection, MutableSequence):
             )
 
     def remove(self, value):  # noqa: D102
+        value = _snapshot(value)
         with self._load_and_save, self._suspend_sync:
             self._data.remove(self._from_base(data=value, parent=self))
 
     def clear(self):  # noqa: D102
-        self._data = []
-        with self._thread_lock:
-            self._save()
+        with self._overwrite_and_save:
+            self._data.clear()
+
+    def pop(self, index=-1):  # noqa: D102
+        with self._load_and_save:
+            return self._data.pop(index)
+
+    def reverse(self):  # noqa: D102
+        with self._load_and_save:
+            self._data.reverse()
 
     def __lt__(self, other):
         if isinstance(other, type(self)):
-- 
2.43.0


From 1e7980cd28ee70c5e3b66a864b7fc1ce1b233761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:28 +0000
Subject: [PATCH 09/10] fix: keep the buffer consistent across objects, threads
 and failed flushes

Flush and load of a buffered file now run under the buffer lock.
Objects sharing a file share one in-memory copy, and the copy is handed back when the entry leaves the buffer.
A failed flush no longer loses other collections or the configured buffer capacity.
---
 .../buffers/file_buffered_collection.py       |  46 ++++----
 .../buffers/memory_buffered_collection.py     | 103 ++++++++++++------
 .../serialized_file_buffered_collection.py    |  12 +-
 .../data_types/synced_collection.py           |  16 ++-
 4 files changed, 110 insertions(+), 67 deletions(-)

diff --git a/synced_collections/buffers/file_buffered_collection.py b/synced_collections/buffers/file_buffered_collection.py
index 83a3354..1324ba7 100644
--- a/synced_collections/buffers/file_buffered_collection.py
+++ b/synced_collections/buffers/file_buffered_collection.py
@@ -39,19 +39,28 @@ class _FileBufferedContext(_CounterFuncContext):
         return self
 
     def __enter__(self):
-        super().__enter__()
-        if self._buffer_capacity is not None:
-            self._original_buffer_capacitys.append(self._cls.get_buffer_capacity())
-            self._cls.set_buffer_capacity(self._buffer_capacity)
-        else:
-            self._original_buffer_capacitys.append(None)
-        self._buffer_capacity = None
+        with self._cls._BUFFER_LOCK:
+            original_buffer_capacity = None
+            if self._buffer_capacity is not None:
+                original_buffer_capacity = self._cls.get_buffer_capacity()
+                new_buffer_capacity, self._buffer_capacity = self._buffer_capacity, None
+                try:
+                    self._cls.set_buffer_capacity(new_buffer_capacity)
+                except BaseException:
+                    # The context is not entered.
+                    self._cls.set_buffer_capacity(original_buffer_capacity)
+                    raise
+            self._original_buffer_capacitys.append(original_buffer_capacity)
+            super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        super().__exit__(exc_type, exc_val, exc_tb)
-        original_buffer_capacity = self._original_buffer_capacitys.pop()
-        if original_buffer_capacity is not None:
-            self._cls.set_buffer_capacity(original_buffer_capacity)
+        with self._cls._BUFFER_LOCK:
+            original_buffer_capacity = self._original_buffer_capacitys.pop()
+            try:
+                super().__exit__(exc_type, exc_val, exc_tb)
+            finally:
+                if original_buffer_capacity is not None:
+                    self._cls.set_buffer_capacity(original_buffer_capacity)
 
 
 class _BufferedLoadAndSave(_LoadAndSave):
@@ -223,8 +232,8 @@ class FileBufferedCollection(BufferedCollection):
             buffering implementation.
 
         """
-        cls._BUFFER_CAPACITY = new_capacity
         with cls._BUFFER_LOCK:
+            cls._BUFFER_CAPACITY = new_capacity
             if new_capacity < cls._CURRENT_BUFFER_SIZE:
                 cls._flush_buffer(force=True)
 
@@ -268,8 +277,7 @@ class FileBufferedCollection(BufferedCollection):
                     self._update(data)
                 self._initialize_data_in_buffer()
 
-        # This storage can be safely updated every time on every thread.
-        type(self)._buffered_collections[id(self)] = self
+            type(self)._buffered_collections[id(self)] = self
 
     @abstractmethod
     def _initialize_data_in_buffer(self):
@@ -318,9 +326,8 @@ class FileBufferedCollection(BufferedCollection):
         # still buffered (if buffered contexts are nested).
         remaining_collections = {}
         while True:
-            # This is the only part that needs to be locked; once items are
-            # removed from the buffer they can be safely handled on separate
-            # threads.
+            # The callers of this method hold the buffer lock because other
+            # threads may otherwise access collections that are being flushed.
             with cls._BUFFER_LOCK:
                 try:
                     (
@@ -350,9 +357,8 @@ class FileBufferedCollection(BufferedCollection):
                 collection._flush(force=force)
             except (OSError, MetadataError) as err:
                 issues[collection._filename] = err
-        if not issues:
-            cls._buffered_collections = remaining_collections
-        else:
+        cls._buffered_collections = remaining_collections
+        if issues:
             raise BufferedError(issues)
 
     @classmethod
diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 43f33c8..340f6f6 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -12,6 +12,7 @@ so modifying one such collection results in modifying all of them, thereby
 removing any need for more complicated synchronization protocols.
 """
 
+from .. import SyncedCollection
 from ..errors import MetadataError
 from .file_buffered_collection import FileBufferedCollection
 
@@ -103,41 +104,39 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         """
         # Different files in the buffer can be safely flushed simultaneously,
         # but a given file can only be flushed on one thread at once.
-        if not self._is_buffered or force:
-            try:
-                cached_data = type(self)._buffer[self._filename]
-            except KeyError:
-                # If we got to this point, it means that another collection
-                # pointing to the same underlying resource flushed the buffer.
-                # If so, then the data in this instance is still pointing to
-                # that object's data store. If this was a force flush, then
-                # the data store is still the cached data, so we're fine. If
-                # this wasn't a force flush, then we have to reload this
-                # object's data so that it will stop sharing data with the
-                # other instance.
-                if not force:
-                    self._data.clear()
-                    self._update(self._load_from_resource())
-            else:
+        with self._buffer_lock:
+            if not self._is_buffered or force:
+                try:
+                    cached_data = type(self)._buffer[self._filename]
+                except KeyError:
+                    # There are valid reasons for nothing to be in the cache (the
+                    # object was never actually accessed while buffered, another
+                    # collection pointing to the same file was flushed, etc).
+                    return
+
                 # If the contents have not been changed since the initial read,
                 # we don't need to rewrite it.
+                flushed = False
                 try:
                     # Validate that the file hasn't been changed by
                     # something else.
                     if cached_data["modified"]:
                         if cached_data["metadata"] != self._get_file_metadata():
                             raise MetadataError(self._filename, cached_data["contents"])
+                        self._share_data(cached_data)
                         self._save_to_resource()
+                    flushed = True
                 finally:
                     # Whether or not an error was raised, the cache must be
                     # cleared to ensure a valid final buffer state, unless
-                    # we're force flushing in which case we never delete, but
-                    # take note that the data is no longer modified relative to
-                    # its representation on disk.
+                    # we're force flushing in which case we only delete after an
+                    # error, and otherwise take note that the data is no longer
+                    # modified relative to its representation on disk.
                     if cached_data["modified"]:
                         type(self)._CURRENT_BUFFER_SIZE -= 1
-                    if not force:
+                    if not (force and flushed):
                         del type(self)._buffer[self._filename]
+                        self._unshare_data(cached_data)
                     else:
                         # Have to update the metadata on a force flush because
                         # we could modify this item again later, leading to
@@ -146,17 +145,44 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
                         # metadata after the current flush.
                         cached_data["metadata"] = self._get_file_metadata()
                         cached_data["modified"] = False
-        else:
-            # If this object is still buffered _and_ this wasn't a force flush,
-            # that implies a nesting of buffered contexts in which another
-            # collection pointing to the same data flushed the buffer. This
-            # object's data will still be pointing to that one, though, so the
-            # safest choice is to reinitialize its data from scratch.
-            with self._suspend_sync:
-                self._data = {
-                    key: self._from_base(data=value, parent=self)
-                    for key, value in self._to_base().items()
-                }
+
+    def _share_data(self, cached_data):
+        """Use the data in the buffer until it is flushed.
+
+        Parameters
+        ----------
+        cached_data : dict
+            The entry for the associated file in the buffer.
+
+        """
+        if self._data is not cached_data["contents"]:
+            cached_data["sharing"][id(self)] = (self, self._data)
+            self._data = cached_data["contents"]
+
+    @staticmethod
+    def _unshare_data(cached_data):
+        """Stop using the data in the buffer.
+
+        The collection that stored the data in the buffer keeps it, including
+        any nested collections that were added by other collections.
+
+        Parameters
+        ----------
+        cached_data : dict
+            The entry for the associated file in the buffer.
+
+        """
+
+        def set_root(data, root):
+            for value in data.values() if isinstance(data, dict) else data:
+                if isinstance(value, SyncedCollection):
+                    value._set_root(root)
+                    set_root(value._data, root)
+
+        if cached_data["sharing"]:
+            for collection, data in cached_data["sharing"].values():
+                collection._data = data
+            set_root(cached_data["contents"], cached_data["owner"])
 
     def _load(self):
         """Load data from the backend but buffer if needed.
@@ -181,8 +207,6 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         See :meth:`~._initialize_data_in_buffer` for details on the data stored
         in the buffer and the integrity checks performed.
         """
-        type(self)._buffered_collections[id(self)] = self
-
         # Since one object could write to the buffer and trigger a flush while
         # another object was found in the buffer and attempts to proceed
         # normally, we have to serialize this whole block. In theory we might
@@ -193,6 +217,8 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
         # dicts are thread-safe because of the GIL. However, it's best not to
         # depend on the thread-safety of built-in containers.
         with self._buffer_lock:
+            type(self)._buffered_collections[id(self)] = self
+
             if self._filename in type(self)._buffer:
                 # Always track all instances pointing to the same data.
 
@@ -223,10 +249,11 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
             underlying file.
 
         """
-        super()._load_from_buffer()
+        with self._buffer_lock:
+            super()._load_from_buffer()
 
-        # Set local data to the version in the buffer.
-        self._data = type(self)._buffer[self._filename]["contents"]
+            # Set local data to the version in the buffer.
+            self._share_data(type(self)._buffer[self._filename])
 
     def _initialize_data_in_buffer(self, modified=False):
         """Create the initial entry for the data in the cache.
@@ -235,6 +262,8 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
             - The metadata provided by :meth:`~._get_file_metadata`. Used to
               check if a file has been modified on disk since it was loaded
               into the buffer.
+            - This collection, and the other collections that use the data in
+              the buffer along with their own data.
             - A flag indicating whether any operation that saves to the buffer
               has occurred, e.g. a ``__setitem__`` call. This flag is used to
               determine what collections need to be saved to disk when
@@ -252,6 +281,8 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
             "contents": self._data,
             "metadata": metadata,
             "modified": modified,
+            "owner": self,
+            "sharing": {},
         }
 
     @classmethod
diff --git a/synced_collections/buffers/serialized_file_buffered_collection.py b/synced_collections/buffers/serialized_file_buffered_collection.py
index f818760..7deb848 100644
--- a/synced_collections/buffers/serialized_file_buffered_collection.py
+++ b/synced_collections/buffers/serialized_file_buffered_collection.py
@@ -109,7 +109,9 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
                     # multiple collections pointing to the same file, etc).
                     return
                 else:
-                    blob = self._encode(self._data)
+                    # All collections associated with this file store their
+                    # changes in the buffer.
+                    blob = cached_data["contents"]
 
                     # If the contents have not been changed since the initial read,
                     # we don't need to rewrite it.
@@ -196,8 +198,6 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
         See :meth:`~._initialize_data_in_buffer` for details on the data stored
         in the buffer and the integrity checks performed.
         """
-        type(self)._buffered_collections[id(self)] = self
-
         # Since one object could write to the buffer and trigger a flush while
         # another object was found in the buffer and attempts to proceed
         # normally, we have to serialize this whole block. In theory we might
@@ -208,6 +208,8 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
         # dicts are thread-safe because of the GIL. However, it's best not to
         # depend on the thread-safety of built-in containers.
         with self._buffer_lock:
+            type(self)._buffered_collections[id(self)] = self
+
             if self._filename in type(self)._buffer:
                 # Always track all instances pointing to the same data.
                 blob = self._encode(self._data)
@@ -256,8 +258,8 @@ class SerializedFileBufferedCollection(FileBufferedCollection):
             # another thread.
             blob = type(self)._buffer[self._filename]["contents"]
 
-        if type(self)._CURRENT_BUFFER_SIZE > type(self)._BUFFER_CAPACITY:
-            type(self)._flush_buffer(force=True)
+            if type(self)._CURRENT_BUFFER_SIZE > type(self)._BUFFER_CAPACITY:
+                type(self)._flush_buffer(force=True)
         return self._decode(blob)
 
     def _initialize_data_in_buffer(self):
diff --git a/synced_collections/data_types/synced_collection.py b/synced_collections/data_types/synced_collection.py
index b87b9ee..a1a06d4 100644
--- a/synced_collections/data_types/synced_collection.py
+++ b/synced_collections/data_types/synced_collection.py
@@ -240,12 +240,7 @@ class SyncedCollection(Collection):
 
         if parent is not None:
             root = parent._root if parent._root is not None else parent
-            self._root = root
-            self._suspend_sync = root._suspend_sync
-            self._load_and_save = root._load_and_save
-            self._load_only = root._load_only
-            # The data of the rest of the tree must be preserved.
-            self._overwrite_and_save = root._load_and_save
+            self._set_root(root)
         else:
             self._root = None
             self._suspend_sync = _CounterContext()
@@ -258,6 +253,15 @@ class SyncedCollection(Collection):
                 if self._lock_id not in self._locks:
                     self._locks[self._lock_id] = RLock()
 
+    def _set_root(self, root):
+        """Synchronize this nested collection using the provided root collection."""
+        self._root = root
+        self._suspend_sync = root._suspend_sync
+        self._load_and_save = root._load_and_save
+        self._load_only = root._load_only
+        # The data of the rest of the tree must be preserved.
+        self._overwrite_and_save = root._load_and_save
+
     @classmethod
     def _register_validators(cls):
         """Register all inherited validators to this class.
-- 
2.43.0


From d3f02c1df81c17f72a082c40606c404c01d0ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:01 +0000
Subject: [PATCH 10/10] fix: keep the recorded metadata of unmodified files on
 forced flushes

A forced flush of the shared memory buffer refreshed the recorded file
metadata of files that were only read. When such a file had been changed by
an outside writer, a later buffered modification of the stale copy was
written over the outside change without an error.
---
 synced_collections/buffers/memory_buffered_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synced_collections/buffers/memory_buffered_collection.py b/synced_collections/buffers/memory_buffered_collection.py
index 340f6f6..f01f97a 100644
--- a/synced_collections/buffers/memory_buffered_collection.py
+++ b/synced_collections/buffers/memory_buffered_collection.py
@@ -137,7 +137,7 @@ class SharedMemoryFileBufferedCollection(FileBufferedCollection):
                     if not (force and flushed):
                         del type(self)._buffer[self._filename]
                         self._unshare_data(cached_data)
-                    else:
+                    elif cached_data["modified"]:
                         # Have to update the metadata on a force flush because
                         # we could modify this item again later, leading to
                         # another (possibly forced) flush afterwards that will
-- 
2.43.0

