From 9bae12d5c9511b5602a4739ce94e3b25e85b0501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 01/48] fix: BTree delete kept wrong counts, corrupted degree-2
 trees, lost min/max and failed on old nodes

---
 durus/btree.py | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 1b51ac2..cc3d274 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -207,7 +207,9 @@ class BNode(PersistentObject):
         """
         def is_big(node):
             # Precondition for recursively calling node.delete(key).
-            return node and len(node.items) >= node.minimum_degree
+            # (Do not use the truth value of the node: that is its __len__.)
+            return (node is not None and
+                    len(node.items) >= node.minimum_degree)
         p = self.get_position(key)
         matches = p < len(self.items) and self.items[p][0] == key
         if self.is_leaf():
@@ -220,8 +222,11 @@ class BNode(PersistentObject):
                 raise KeyError(key)
         else:
             node = self.nodes[p]
-            lower_sibling = p > 0 and self.nodes[p - 1]
-            upper_sibling = p < len(self.nodes) - 1 and self.nodes[p + 1]
+            lower_sibling = upper_sibling = None
+            if p > 0:
+                lower_sibling = self.nodes[p - 1]
+            if p < len(self.nodes) - 1:
+                upper_sibling = self.nodes[p + 1]
             if matches:
                 # Case 2.
                 if is_big(node):
@@ -238,15 +243,16 @@ class BNode(PersistentObject):
                     self.items[p] = extreme
                 else:
                     # Case 2c.
-                    extreme = upper_sibling.get_min_item()
-                    upper_sibling.delete(extreme[0])
-                    node.items = node.items + [extreme] + upper_sibling.items
+                    node.items = (
+                        node.items + [self.items[p]] + upper_sibling.items
+                    )
                     if not node.is_leaf():
                         node.nodes = node.nodes + upper_sibling.nodes
-                    node._count += upper_sibling._count
-                    self._count -= 1
+                    node._count += upper_sibling._count + 1
                     del self.items[p]
                     del self.nodes[p + 1]
+                    node.delete(key)
+                    self._count -= 1
                 self._p_note_change()
             else:
                 if not is_big(node):
@@ -258,8 +264,11 @@ class BNode(PersistentObject):
                         del lower_sibling.items[-1]
                         lower_sibling._count -= 1
                         if not node.is_leaf():
-                            node.nodes.insert(0, lower_sibling.nodes[-1])
+                            moved = lower_sibling.nodes[-1]
+                            node.nodes.insert(0, moved)
                             del lower_sibling.nodes[-1]
+                            node._count += moved._count
+                            lower_sibling._count -= moved._count
                         lower_sibling._p_note_change()
                     elif is_big(upper_sibling):
                         # Case 3a2: Shift an item from upper_sibling.
@@ -269,10 +278,13 @@ class BNode(PersistentObject):
                         del upper_sibling.items[0]
                         upper_sibling._count -= 1
                         if not node.is_leaf():
-                            node.nodes.append(upper_sibling.nodes[0])
+                            moved = upper_sibling.nodes[0]
+                            node.nodes.append(moved)
                             del upper_sibling.nodes[0]
+                            node._count += moved._count
+                            upper_sibling._count -= moved._count
                         upper_sibling._p_note_change()
-                    elif lower_sibling:
+                    elif lower_sibling is not None:
                         # Case 3b1: Merge with lower_sibling
                         node.items = (
                             lower_sibling.items
@@ -459,6 +471,9 @@ class BTree(PersistentObject, collections.abc.MutableMapping):
         return item[1]
 
     def __delitem__(self, key):
+        if self.root.search(key) is None:
+            # Don't let BNode.delete() rearrange nodes for a missing key.
+            raise KeyError(key)
         self.root.delete(key)
 
     def clear(self):
-- 
2.43.0


From 5a1878f32b4c38ff9cc0898bcdf143a113d78fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 02/48] fix: PersistentSet.difference_update(self) raised
 RuntimeError half way

---
 durus/persistent_set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/persistent_set.py b/durus/persistent_set.py
index 96b7686..2ca07fe 100644
--- a/durus/persistent_set.py
+++ b/durus/persistent_set.py
@@ -158,6 +158,8 @@ class PersistentSet (PersistentObject, collections.abc.MutableSet):
 
     def difference_update(self, other):
         self._p_note_change()
+        if isinstance(other, PersistentSet):
+            other = other.s
         return self.s.difference_update(other)
 
     def intersection(self, *others):
-- 
2.43.0


From 800d9c3431531ffc9837e81a6e8703b2793f3fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 03/48] fix: SqliteStorage gave out an oid that was already in
 use after it was reopened

---
 durus/sqlite_storage.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 03f1998..f4fb508 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -84,14 +84,15 @@ class SqliteStorage(Storage):
 
     def _get_last_oid(self):
         """() -> int
-        Return the highest OID in the database as integer.
+        Return the first unused OID (one more than the highest OID in the
+        database) as integer.
         """
         c = self._conn.cursor()
         c.execute('SELECT max(id) FROM objects')
         v = c.fetchone()
-        if v is None:
+        if v is None or v[0] is None:
             return 0
-        return v[0]
+        return v[0] + 1
 
     def load(self, oid):
         """(str) -> str
@@ -259,3 +260,4 @@ class SqliteStorage(Storage):
             for oid, record in items:
                 yield record
         self._store_records(gen_recs(oid_records))
+        self._last_oid = self._get_last_oid()
-- 
2.43.0


From dec6958788aba62596803e4482b5f6db32bbb4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 04/48] fix: SqliteStorage.gen_oid_record() without a start oid
 always failed

---
 durus/sqlite_storage.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index f4fb508..56d4752 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -14,7 +14,7 @@ import collections
 from durus.logger import log, is_logging
 from durus.serialize import pack_record, unpack_record, split_oids
 from durus.storage import Storage
-from durus.utils import int8_to_str, str_to_int8, iteritems, as_bytes
+from durus.utils import int8_to_str, str_to_int8, as_bytes
 import durus.connection
 
 
@@ -147,13 +147,14 @@ class SqliteStorage(Storage):
 
     def _gen_records(self):
         c = self._conn.cursor()
-        c.execute('SELECT (id, data, refs) FROM objects ORDER BY id')
+        c.execute('SELECT id, data, refs FROM objects ORDER BY id')
         for oid, data, refs in c.fetchall():
-            yield int8_to_str(oid), pack_record(oid, data, refs)
+            oid = int8_to_str(oid)
+            yield oid, pack_record(oid, data, refs)
 
     def gen_oid_record(self, start_oid=None, **other):
         if start_oid is None:
-            for item in iteritems(self._gen_records()):
+            for item in self._gen_records():
                 yield item
         else:
             todo = [start_oid]
-- 
2.43.0


From 86d3aa1027b1faa882367f64024b31c6732bf6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 05/48] fix: FileStorage2 stored the records of a failed commit
 with the next commit

---
 durus/file_storage2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 63e4500..9cf2bf4 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -134,7 +134,7 @@ class FileStorage2(Storage):
         return self._read_block()
 
     def begin(self):
-        pass
+        self.pending_records.clear()
 
     def store(self, oid, record):
         """Add a record during a commit."""
-- 
2.43.0


From d2bb0315fa19a913468ec7a11448db0793fd626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 06/48] fix: after a commit failed for another reason than a
 conflict, its new objects were never stored

---
 durus/connection.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 9045761..abf65aa 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -261,24 +261,28 @@ class Connection (ConnectionBase):
             assert not self.invalid_oids, "still conflicted: missing abort()"
             self.storage.begin()
             new_objects = {}
-            for oid, changed_object in iteritems(self.changed):
-                writer = ObjectWriter(self)
-                try:
-                    for obj in writer.gen_new_objects(changed_object):
-                        oid = obj._p_oid
-                        if oid in new_objects:
-                            continue
-                        elif oid not in self.changed:
-                            new_objects[oid] = obj
-                            self.cache[oid] = obj
-                        data, refs = writer.get_state(obj)
-                        self.storage.store(oid, pack_record(oid, data, refs))
-                        obj._p_set_status_saved()
-                finally:
-                    writer.close()
             try:
+                for oid, changed_object in iteritems(self.changed):
+                    writer = ObjectWriter(self)
+                    try:
+                        for obj in writer.gen_new_objects(changed_object):
+                            oid = obj._p_oid
+                            if oid in new_objects:
+                                continue
+                            elif oid not in self.changed:
+                                new_objects[oid] = obj
+                                self.cache[oid] = obj
+                            data, refs = writer.get_state(obj)
+                            self.storage.store(
+                                oid, pack_record(oid, data, refs))
+                            obj._p_set_status_saved()
+                    finally:
+                        for obj in writer.objects_found:
+                            new_objects[obj._p_oid] = obj
+                        writer.close()
                 self.storage.end(self._handle_invalidations)
-            except ConflictError:
+            except:
+                # Nothing was stored, so the new objects are still new.
                 for oid, obj in iteritems(new_objects):
                     obj._p_oid = None
                     del self.cache[oid]
-- 
2.43.0


From e1e71229153c7cf1fbfb7e7b448dec5e79225e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 07/48] fix: a conflict on an object changed without being read
 raised AssertionError

---
 durus/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index abf65aa..1863635 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -303,11 +303,11 @@ class Connection (ConnectionBase):
             obj = self.cache.get(oid)
             if obj is None:
                 continue
-            if obj._p_serial == self.transaction_serial:
+            if (obj._p_serial == self.transaction_serial or
+                oid in self.changed):
                 conflicts.append(oid)
                 self.invalid_oids.add(oid)
             elif not obj._p_is_ghost():
-                assert oid not in self.changed
                 obj._p_set_status_ghost()
         if conflicts:
             if read_oid is None:
-- 
2.43.0


From 865996cc81de971caaceadbb0ef95c4424ec683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 08/48] fix: SqliteStorage left part of a failed commit to be
 stored by the next one

---
 durus/sqlite_storage.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 56d4752..1cc0fac 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -117,14 +117,21 @@ class SqliteStorage(Storage):
         def gen_items(records):
             for record in records:
                 oid, data, refdata = unpack_record(record)
+                stored.append(oid)
                 yield str_to_int8(oid), as_bytes(data), as_bytes(refdata)
-                if self.pack_extra is not None:
-                    # ensure object and refs are marked alive and not removed
-                    self.pack_extra.append(oid)
+        stored = []
         c = self._conn.cursor()
-        c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
-                      ' VALUES (?, ?, ?)', gen_items(records))
-        self._commit()
+        try:
+            c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
+                          ' VALUES (?, ?, ?)', gen_items(records))
+            self._commit()
+        except:
+            # Don't let a later commit include part of this one.
+            self._conn.rollback()
+            raise
+        if self.pack_extra is not None:
+            # ensure objects and refs are marked alive and not removed
+            self.pack_extra.extend(stored)
 
     def end(self, handle_invalidations=None):
         self._store_records(self.pending_records)
-- 
2.43.0


From 117f5796575b4dbf9d3d41a3d47758655b173681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 09/48] fix: SqliteStorage pack could remove objects linked
 again meanwhile and reported no removed oids

---
 durus/sqlite_storage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 1cc0fac..6675360 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -244,10 +244,11 @@ class SqliteStorage(Storage):
             for oid in self._list_all_oids():
                 if oid not in alive:
                     dead.add(oid)
-            self.pack_extra = None
-            # safe to yield now, we have finished identifying dead objects
-            yield None
+            # Don't yield before the dead objects are removed: a commit could
+            # make one of them reachable again.
             self._delete(dead)
+            self.invalid.update(dead)
+            self.pack_extra = None
             yield "finished %s, %d live objects, %d removed" % (
                     datetime.now(), len(alive), len(dead))
         return packer()
-- 
2.43.0


From 7223df4c2431e6e1dedf4c677843b837f0cfa83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 10/48] fix: IntSet.add() failed for small sets

---
 durus/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/utils.py b/durus/utils.py
index ff84210..4b61cfa 100644
--- a/durus/utils.py
+++ b/durus/utils.py
@@ -521,7 +521,7 @@ class IntSet (object):
 
     def add(self, n):
         if n >= self.bit_array.get_size():
-            self.bit_array.set_size(int(n * 1.2))
+            self.bit_array.set_size(int(n * 1.2) + 1)
         self.bit_array[n] = 1
 
     def __contains__(self, n):
-- 
2.43.0


From 3783669bbf541e28e59fa0eb12ba921b8d338982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 11/48] fix: the C extension crashed on attribute names with
 surrogates

---
 durus/_persistent.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index c61a3ff..ba0b0de 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -170,7 +170,9 @@ pb_getattro(PersistentBaseObject *self, PyObject *name)
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
 		return NULL;
     }
-	if (load_triggering_name(sname)) {
+	if (sname == NULL)
+		PyErr_Clear(); /* a name that UTF-8 cannot encode */
+	if (sname == NULL || load_triggering_name(sname)) {
 		if (!pb_load(self))
 			return NULL;
 		if (!pb_note_access(self))
@@ -189,7 +191,9 @@ pb_setattro(PersistentBaseObject *self, PyObject *name, PyObject *value)
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
         return -1;
 	}
-	if (load_triggering_name(sname)) {
+	if (sname == NULL)
+		PyErr_Clear(); /* a name that UTF-8 cannot encode */
+	if (sname == NULL || load_triggering_name(sname)) {
 		if (self->p_status != UNSAVED) {
 			if (!call_method((PyObject *)self, "_p_note_change", NULL))
 				return -1;
-- 
2.43.0


From d3c1885014180abdb1bf243fdc8dd4770277ad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 12/48] fix: the umask stayed changed after a Unix socket could
 not be bound

---
 durus/storage_server.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 44804bf..affc34d 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -166,8 +166,16 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
         return result
 
     def bind_socket(self, s):
-        if self.umask is not None:
+        if self.umask is None:
+            self._bind_socket(s)
+        else:
             old_umask = umask(self.umask)
+            try:
+                self._bind_socket(s)
+            finally:
+                umask(old_umask)
+
+    def _bind_socket(self, s):
         try:
             s.bind(self.filename)
         except socket.error:
@@ -200,8 +208,6 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
                 gid = getgrnam(self.group).gr_gid
         if self.owner is not None or self.group is not None:
             chown(self.filename, uid, gid)
-        if self.umask is not None:
-            umask(old_umask)
 
     def close(self, s):
         s.close()
-- 
2.43.0


From 58777fa4dad2b001b2ef1cb949d2055bb5855991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 13/48] fix: a shelf file cut inside the last record of a
 transaction was accepted as complete

---
 durus/shelf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/durus/shelf.py b/durus/shelf.py
index e1416b9..8e1d7e9 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -298,6 +298,11 @@ def read_transaction_offsets(file, repair=False):
     try:
         transaction_length = read_int8(file)
         transaction_end = transaction_start + 8 + transaction_length
+        position = file.tell()
+        file.seek(0, 2) # seek end
+        if transaction_end > file.tell():
+            raise ShortRead # The end of the transaction is missing.
+        file.seek(position)
         transaction_offsets = {}
         while file.tell() < transaction_end:
             position = file.tell()
-- 
2.43.0


From 99a24baa507cf0366092c525c100e6b5d22100ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 14/48] fix: part of a shelf transaction could be read as a
 complete one after a crash

---
 durus/shelf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index 8e1d7e9..ba9edc4 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -195,10 +195,12 @@ class Shelf (object):
         """
         self.file.seek_end()
         start = self.file.tell()
-        write_int8(self.file, 0)
         result = []
         index = {}
         try:
+            # Until all of the transaction is written, its length is one that
+            # no file can hold, so that it is recognized as incomplete.
+            write_int8(self.file, 2**64 - 1)
             for name, value in name_value_sequence:
                 new_position = self.file.tell()
                 old_position = self.get_position(name)
@@ -207,15 +209,15 @@ class Shelf (object):
                 write_int8(self.file, len(name) + len(value))
                 write(self.file, name)
                 write(self.file, value)
+            end = self.file.tell()
+            self.file.seek(start)
+            write_int8(self.file, end - start - 8)
+            self.file.seek(end)
         except:
             # Revert before raising.
             self.file.seek(start)
             self.file.truncate()
             raise
-        end = self.file.tell()
-        self.file.seek(start)
-        write_int8(self.file, end - start - 8)
-        self.file.seek(end)
         self.memory_index.update(index)
         return result
 
-- 
2.43.0


From 2221c13ba36fb6965cd4d38544e6395115f1eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 15/48] fix: FileStorage acknowledged commits that were not
 forced to the disk

---
 durus/file_storage.py | 3 ++-
 durus/shelf.py        | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 5fed0ca..a505424 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -78,7 +78,8 @@ class FileStorage (Storage):
             raise ValueError("oid %r is a surprise" % oid)
 
     def end(self, handle_invalidations=None):
-        self.shelf.store(iteritems(self.pending_records))
+        self.shelf.store(iteritems(self.pending_records),
+            sync=not self.shelf.get_file().is_temporary())
         if is_logging(20):
             shelf_file = self.shelf.get_file()
             shelf_file.seek_end()
diff --git a/durus/shelf.py b/durus/shelf.py
index ba9edc4..05414da 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -187,9 +187,10 @@ class Shelf (object):
             self.unused_name_generator = generate_unused_names()
         return next(self.unused_name_generator)
 
-    def store(self, name_value_sequence):
-        """([(str, str)]) -> [(str, int|None, int)]
+    def store(self, name_value_sequence, sync=False):
+        """([(str, str)], boolean) -> [(str, int|None, int)]
         Record all of the items in the sequence.
+        If sync is True, force them to the disk.
         Return a list of triples, each giving a name, an old position (or None
         if this is a new name), and a new position.
         """
@@ -213,6 +214,9 @@ class Shelf (object):
             self.file.seek(start)
             write_int8(self.file, end - start - 8)
             self.file.seek(end)
+            if sync:
+                self.file.flush()
+                self.file.fsync()
         except:
             # Revert before raising.
             self.file.seek(start)
-- 
2.43.0


From 4514adfe3a515cacc7826309373ba173b29103e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 16/48] fix: a damaged shelf file stayed locked after it was
 refused

---
 durus/shelf.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index 05414da..ac08d66 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -6,7 +6,6 @@ from durus.file import File
 from durus.utils import int8_to_str, str_to_int8, read_int8_str, IntArray
 from durus.utils import iteritems, next, as_bytes
 from durus.utils import read, read_int8, write, write_int8, ShortRead, xrange
-import sys
 
 
 class Shelf (object):
@@ -326,12 +325,10 @@ def read_transaction_offsets(file, repair=False):
                 file.seek(transaction_start)
                 file.truncate()
             else:
-                e = sys.exc_info()[1]
-                e.args = repr(dict(
+                raise ShortRead(repr(dict(
                     transaction_start=transaction_start,
                     transaction_end = transaction_end,
-                    position=position))
-                raise
+                    position=position)))
         return None
 
 
-- 
2.43.0


From 614f322ed51a0643a1be767f3b6132ebaf08f3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 17/48] fix: after a failed write the rest of the data stayed
 in a buffer and broke later reads and commits

---
 durus/file.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/durus/file.py b/durus/file.py
index 8b941b6..53b92c6 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -113,9 +113,17 @@ class File (object):
 
     def write(self, s):
         self.obtain_lock()
-        self.file.write(s)
-        # This flush helps the file knows where it ends.
-        self.file.flush()
+        # Write directly: if this fails, no part of s may stay in a buffer,
+        # where it would make later operations fail or be written later.
+        position = self.file.tell()
+        self.file.seek(0, 2) # This forgets what has been read ahead.
+        fd = self.file.fileno()
+        os.lseek(fd, position, 0)
+        while s:
+            n = os.write(fd, s)
+            position += n
+            s = s[n:]
+        self.file.seek(position)
 
     def truncate(self):
         self.obtain_lock()
-- 
2.43.0


From 7cd1df52e51d92ef847ccf936e065c54ca5516d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 18/48] fix: FileStorage2 left part of a failed commit in the
 file, which made later commits unreadable

---
 durus/file_storage2.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 9cf2bf4..971d2f9 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -148,11 +148,19 @@ class FileStorage2(Storage):
         """Complete a commit.
         """
         index = {}
-        for z in self._write_transaction(
-            self.fp, self._generate_pending_records(), index):
-            pass
-        self.fp.flush()
-        self.fp.fsync()
+        self.fp.seek(0, 2)
+        start = self.fp.tell()
+        try:
+            for z in self._write_transaction(
+                self.fp, self._generate_pending_records(), index):
+                pass
+            self.fp.flush()
+            self.fp.fsync()
+        except:
+            # Revert before raising.
+            self.fp.seek(start)
+            self.fp.truncate()
+            raise
         if is_logging(20):
             log(20, "Transaction at [%s] end=%s" % (datetime.now(),
                                                     self.fp.tell()))
-- 
2.43.0


From 8de5dd4544b865aba0792e7fe3150b454e59be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 19/48] fix: a crash while a pack replaced the file left no
 file with its name, and it was not locked for a moment

The packed file is now renamed over the old one in one step, which the .prepack name was linked to before, and stays open and locked.
---
 durus/file.py          | 36 +++++++++++++++++++++++++++++-------
 durus/file_storage.py  |  7 +++----
 durus/file_storage2.py |  8 +++-----
 3 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/durus/file.py b/durus/file.py
index 53b92c6..5c29997 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -30,10 +30,11 @@ class File (object):
                 self.file = open(name, 'w+b')
         if readonly:
             assert self.is_readonly()
+        self.name = self.file.name
         self.has_lock = False
 
     def get_name(self):
-        return self.file.name
+        return self.name
 
     def is_temporary(self):
         return isinstance(self.file, _TemporaryFileWrapper)
@@ -70,12 +71,33 @@ class File (object):
             return
         assert not self.is_temporary()
         self.obtain_lock()
-        self.close()
-        if exists(name):
-            os.unlink(name)
-        os.rename(old_name, name)
-        self.file = open(name, 'r+b')
-        self.obtain_lock()
+        if os.name == 'nt':
+            self.close()
+            if exists(name):
+                os.unlink(name)
+            os.rename(old_name, name)
+            self.file = open(name, 'r+b')
+            self.obtain_lock()
+        else:
+            # This replaces any file that has the name already, in one step,
+            # and this file stays open and locked.
+            os.rename(old_name, name)
+        self.name = name
+
+    def replace(self, other, backup_name):
+        """(File, str)
+        Take over the name of the other file, which remains available under
+        the backup_name.
+        """
+        name = other.get_name()
+        if hasattr(os, 'link') and os.name != 'nt':
+            # There is a complete file with the name at any time.
+            if exists(backup_name):
+                os.unlink(backup_name)
+            os.link(name, backup_name)
+        else:
+            other.rename(backup_name)
+        self.rename(name)
 
     def obtain_lock(self):
         """
diff --git a/durus/file_storage.py b/durus/file_storage.py
index a505424..d87c0b5 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -162,12 +162,11 @@ class FileStorage (Storage):
                 shelf.store(self.gen_oid_record(start_oid=oid, seen=seen))
             file.flush()
             file.fsync()
-            if not self.shelf.get_file().is_temporary():
-                self.shelf.get_file().rename(file_path + '.prepack')
-                self.shelf.get_file().close()
-            shelf.get_file().rename(file_path)
+            old_file = self.shelf.get_file()
+            file.replace(old_file, file_path + '.prepack')
             self.shelf = shelf
             self.pack_extra = None
+            old_file.close()
             yield "finished %s" % datetime.now()
         return packer()
 
diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 971d2f9..1e0655b 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -251,12 +251,10 @@ class FileStorage2(Storage):
         self._write_index(packed, index)
         packed.flush()
         packed.fsync()
-        if self.fp.is_temporary():
-            self.fp.close()
-        else:
-            self.fp.rename(prepack_name)
-        packed.rename(name)
+        old_file = self.fp
+        packed.replace(old_file, prepack_name)
         self.fp = packed
+        old_file.close()
         for oid in self.index:
             if oid not in index:
                 self.invalid.add(oid)
-- 
2.43.0


From 1989a3df57d695c6b8f627247b6242c5eb0b40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 20/48] fix: FileStorage pack reported too few or too many
 removed oids, and after a failed pack none was possible any more

---
 durus/file_storage.py   | 27 +++++++++++++++++----------
 durus/file_storage2.py  | 15 ++++++++++++---
 durus/sqlite_storage.py | 19 ++++++++++++++-----
 3 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index d87c0b5..d0707ef 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -133,12 +133,12 @@ class FileStorage (Storage):
             self.shelf.get_file().is_temporary() or
             self.shelf.get_file().is_readonly()):
             return (x for x in []) # Don't pack.
-        self.pack_extra = set()
         file_path = self.shelf.get_file().get_name()
         file = File(file_path + '.pack')
         file.truncate() # obtains lock and clears.
         assert file.tell() == 0
-        def packer():
+        self.pack_extra = set()
+        def generate_steps():
             yield "started %s" % datetime.now()
             seen = IntSet()
             items = self.gen_oid_record(start_oid=int8_to_str(0), seen=seen)
@@ -148,13 +148,12 @@ class FileStorage (Storage):
             file.fsync()
             shelf = Shelf(file)
             yield "base written %s" % datetime.now()
-            # Invalidate oids that have been removed.
-            for hole in shelf.get_offset_map().gen_holes():
-                yield hole
-                oid = int8_to_str(hole)
-                if self.shelf.get_position(oid) is not None:
-                    assert shelf.get_position(oid) is None
-                    self.invalid.add(oid)
+            # Find oids that will be removed, unless they are committed again.
+            removed = set()
+            for oid in self.shelf:
+                if str_to_int8(oid) not in seen:
+                    removed.add(oid)
+                yield oid
             yield "invalidations identified %s" % datetime.now()
             for oid in self.pack_extra:
                 seen.discard(str_to_int8(oid))
@@ -165,8 +164,16 @@ class FileStorage (Storage):
             old_file = self.shelf.get_file()
             file.replace(old_file, file_path + '.prepack')
             self.shelf = shelf
-            self.pack_extra = None
+            self.invalid.update(oid for oid in removed if oid not in shelf)
             old_file.close()
+        def packer():
+            try:
+                for step in generate_steps():
+                    yield step
+            finally:
+                self.pack_extra = None
+                if self.shelf.get_file() is not file:
+                    file.close() # The pack was not completed.
             yield "finished %s" % datetime.now()
         return packer()
 
diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 1e0655b..0b36bd7 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -209,7 +209,17 @@ class FileStorage2(Storage):
         name = self.fp.get_name()
         prepack_name = name + '.prepack'
         pack_name = name + '.pack'
-        packed = File(pack_name)
+        packed = None
+        try:
+            packed = File(pack_name)
+            for step in self._gen_pack_steps(packed, prepack_name):
+                yield step
+        finally:
+            self.pack_extra = None
+            if packed is not None and self.fp is not packed:
+                packed.close() # The pack was not completed.
+
+    def _gen_pack_steps(self, packed, prepack_name):
         if len(packed) > 0:
             # packed contains data left from an incomplete pack attempt.
             packed.seek(0)
@@ -254,12 +264,11 @@ class FileStorage2(Storage):
         old_file = self.fp
         packed.replace(old_file, prepack_name)
         self.fp = packed
-        old_file.close()
         for oid in self.index:
             if oid not in index:
                 self.invalid.add(oid)
         self.index = index
-        self.pack_extra = None
+        old_file.close()
 
     def get_packer(self):
         """Return an incremental packer (a generator).  Each time next() is
diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 6675360..7d5c74c 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -202,9 +202,13 @@ class SqliteStorage(Storage):
             for oid in oids:
                 yield (str_to_int8(oid),)
         c = self._conn.cursor()
-        c.executemany('DELETE FROM objects WHERE id = ?', gen_ids())
-        self._commit()
-
+        try:
+            c.executemany('DELETE FROM objects WHERE id = ?', gen_ids())
+            self._commit()
+        except:
+            # Don't let a later commit include part of this.
+            self._conn.rollback()
+            raise
 
     def get_packer(self):
         if (self.pending_records or
@@ -214,7 +218,7 @@ class SqliteStorage(Storage):
             return [x for x in []] # Don't pack.
         self.pack_extra = []
         alive = set() # will contain OIDs of all reachable from root
-        def packer():
+        def generate_steps():
             yield "started %s" % datetime.now()
             n = 0
             # find all reachable objects.  Note that when we yield, new
@@ -248,9 +252,14 @@ class SqliteStorage(Storage):
             # make one of them reachable again.
             self._delete(dead)
             self.invalid.update(dead)
-            self.pack_extra = None
             yield "finished %s, %d live objects, %d removed" % (
                     datetime.now(), len(alive), len(dead))
+        def packer():
+            try:
+                for step in generate_steps():
+                    yield step
+            finally:
+                self.pack_extra = None
         return packer()
 
     def pack(self):
-- 
2.43.0


From 22407d7add33e109c22150c631126c5aa6a53b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 21/48] fix: a conflict in bulk_load left responses unread, and
 every later request of the client got wrong answers

---
 durus/client_storage.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/durus/client_storage.py b/durus/client_storage.py
index dc14845..ad49593 100644
--- a/durus/client_storage.py
+++ b/durus/client_storage.py
@@ -12,6 +12,7 @@ from durus.storage_server import STATUS_OKAY, STATUS_KEYERROR, STATUS_INVALID
 from durus.utils import int4_to_str, read, write, join_bytes, write_all
 from durus.utils import read_int4, write_int4, write_int4_str, iteritems
 from durus.utils import as_bytes
+import sys
 
 
 class ClientStorage (Storage):
@@ -125,7 +126,16 @@ class ClientStorage (Storage):
         num_oids, remainder = divmod(len(oid_str), 8)
         assert remainder == 0, remainder
         write_all(self.s, 'B', int4_to_str(num_oids), oid_str)
-        records = [self._get_load_response(oid) for oid in oids]
+        records = []
+        error = None
+        for oid in oids:
+            # Read all of the responses, even if there is an error.
+            try:
+                records.append(self._get_load_response(oid))
+            except (ReadConflictError, DurusKeyError):
+                error = error or sys.exc_info()[1]
+        if error is not None:
+            raise error
         for record in records:
             yield record
 
-- 
2.43.0


From af19368f9e162369efee82c3b76329436a58de9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:43 +0000
Subject: [PATCH 22/48] fix: iterating over a ByteArray or BitArray went wrong
 when it was read meanwhile

---
 durus/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/durus/utils.py b/durus/utils.py
index 4b61cfa..d9df755 100644
--- a/durus/utils.py
+++ b/durus/utils.py
@@ -241,11 +241,9 @@ class ByteArray (object):
         return self.size
 
     def __iter__(self):
-        self.file.seek(self.start)
+        # Other uses of the file may come between.
         for j in xrange(self.size):
-            byte = read(self.file, 1)
-            assert len(byte) == 1
-            yield byte
+            yield self[j]
 
 all_bytes = [pack("B", x) for x in range(256)]
 
-- 
2.43.0


From 5232ad1b4994ca4bb4e680cd482caf00643af27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 23/48] fix: get_state_pickle returned leftover bytes after the
 state

When the decompressed state is shorter than the compressed one, the end of
the compressed bytes followed it.
---
 durus/serialize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/durus/serialize.py b/durus/serialize.py
index 4fdc4be..4fd09b3 100644
--- a/durus/serialize.py
+++ b/durus/serialize.py
@@ -188,6 +188,7 @@ class ObjectReader (object):
                 pass # let the unpickler try anyway.
             else:
                 s.write(decompressed)
+                s.truncate()
                 s.seek(position)
         if load:
             return unpickler.load()
-- 
2.43.0


From 21d180062c4f7872d1418cb96a9fed30bfa7454d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 24/48] fix: the C extension crashed on an object whose
 _p_connection was deleted

It raises AttributeError now, as the Python base classes do.
---
 durus/_persistent.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index ba0b0de..7b5010d 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -152,6 +152,10 @@ pb_note_access(PersistentBaseObject *self)
 {
 	ConnectionBaseObject *connection;
 	connection = (ConnectionBaseObject *)self->p_connection;
+	if (connection == NULL) {
+		PyErr_SetString(PyExc_AttributeError, "_p_connection");
+		return 0; /* the attribute was deleted */
+	}
 	if (self->p_connection != Py_None &&
 	    self->p_serial != connection->transaction_serial) {
 		return call_method(
-- 
2.43.0


From ba0efd16f73249cd1f0094dd987b9759dd3ec8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:25 +0000
Subject: [PATCH 25/48] fix: a crawler that was suspended over a commit or
 abort loaded outdated states

---
 durus/connection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/durus/connection.py b/durus/connection.py
index 1863635..7400306 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -161,12 +161,18 @@ class Connection (ConnectionBase):
         """
         oid_record_sequence = self.storage.gen_oid_record(
             start_oid=start_oid, batch_size=batch_size)
+        serial = self.transaction_serial
         for oid, record in oid_record_sequence:
             obj = self.cache.get(oid)
             if obj is not None and not obj._p_is_ghost():
                 yield obj
             else:
-                record_oid, data, refdata = unpack_record(record)
+                if serial == self.transaction_serial:
+                    record_oid, data, refdata = unpack_record(record)
+                else:
+                    # A transaction ended during the crawl, so the record may
+                    # be outdated.
+                    data = self.get_stored_pickle(oid)
                 if obj is None:
                     klass = loads(data)
                     obj = self.cache.get_instance(oid, klass, self)
-- 
2.43.0


From 75bc794044b77e8b1718e07c3f23865296f87d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 26/48] fix: two openers of a new storage file could truncate
 each other's data

---
 durus/file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/durus/file.py b/durus/file.py
index 5c29997..6045ac4 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -27,7 +27,9 @@ class File (object):
             else:
                 if readonly:
                     raise OSError('No "%s" found.' % name)
-                self.file = open(name, 'w+b')
+                # Don't truncate what somebody else just created.
+                open(name, 'ab').close()
+                self.file = open(name, 'r+b')
         if readonly:
             assert self.is_readonly()
         self.name = self.file.name
-- 
2.43.0


From 8e77c62e202e70836e1309bc3edb61839187a11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 27/48] fix: a storage opened while another one was packing
 could lock the replaced file and lose its commits

---
 durus/file.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/durus/file.py b/durus/file.py
index 6045ac4..0e640dc 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -120,8 +120,19 @@ class File (object):
                     raise IOError("Unable to obtain lock")
             else:
                 fcntl.flock(self.file, fcntl.LOCK_EX | fcntl.LOCK_NB)
+                if not self.is_temporary() and not self._has_its_name():
+                    # Another file took the name before we had the lock.
+                    fcntl.flock(self.file, fcntl.LOCK_UN)
+                    raise IOError('"%s" has been replaced' % self.name)
             self.has_lock = True
 
+    def _has_its_name(self):
+        try:
+            current = os.stat(self.name)
+        except OSError:
+            return False
+        return os.path.samestat(current, os.fstat(self.file.fileno()))
+
     def release_lock(self):
         """
         Make sure that we do not retain an exclusive lock on self.file.
-- 
2.43.0


From 579bbd71d59be6e1eba997a00434ab324e82a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 28/48] fix: a stopping server could remove the socket of the
 server that replaced it

---
 durus/storage_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index affc34d..83fe200 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -210,9 +210,10 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
             chown(self.filename, uid, gid)
 
     def close(self, s):
-        s.close()
+        # As long as s is open, no other server replaces its socket.
         if exists(self.filename):
             unlink(self.filename)
+        s.close()
 
 
 class InheritedSocket(SocketAddress):
-- 
2.43.0


From 43eed6c308b9f58e2a8d06e892d7b1ca208a15a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:32 +0000
Subject: [PATCH 29/48] fix: of two servers starting at once, one could remove
 the socket of the other

---
 durus/storage_server.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 83fe200..cfa6dda 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -19,6 +19,7 @@ import sys
 
 import os
 if os.name != 'nt':
+   import fcntl
    from grp import getgrnam, getgrgid
    from os import unlink, stat, chown, geteuid, getegid, umask, getpid
    from pwd import getpwnam, getpwuid
@@ -165,6 +166,16 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
                group)
         return result
 
+    def get_listening_socket(self):
+        # Only one server at a time may look for a stale socket and replace
+        # it, until it listens, because others take its socket for stale.
+        directory = os.open(os.path.dirname(self.filename) or '.', os.O_RDONLY)
+        try:
+            fcntl.flock(directory, fcntl.LOCK_EX)
+            return UnixAbstractAddress.get_listening_socket(self)
+        finally:
+            os.close(directory)
+
     def bind_socket(self, s):
         if self.umask is None:
             self._bind_socket(s)
-- 
2.43.0


From 162d779e42709c9d341e9c758dac4d12d8529226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:39 +0000
Subject: [PATCH 30/48] fix: db_renumber failed when the root is not a
 PersistentDict

---
 bin/db_renumber.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bin/db_renumber.py b/bin/db_renumber.py
index 16625cf..6d5112a 100755
--- a/bin/db_renumber.py
+++ b/bin/db_renumber.py
@@ -29,10 +29,12 @@ def main(old_file, new_file):
     connection = Connection(sys.argv[1])
     tmpfile = TemporaryFile()
     print("pickling from " + old_file)
-    dump(connection.get_root().__getstate__(), tmpfile, 2)
-    connection = None
+    root = connection.get_root()
+    dump(root.__getstate__(), tmpfile, 2)
+    root_class = root.__class__
+    root = connection = None
     tmpfile.seek(0)
-    connection2 = Connection(sys.argv[2])
+    connection2 = Connection(sys.argv[2], root_class=root_class)
     print("unpickling")
     connection2.get_root().__setstate__(load(tmpfile))
     connection2.get_root()._p_note_change()
-- 
2.43.0


From 3efd483be17f55ba219573ceae315b90a454d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:09 +0000
Subject: [PATCH 31/48] fix: db_renumber duplicated the root when another
 object refers to it

---
 bin/db_renumber.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bin/db_renumber.py b/bin/db_renumber.py
index 6d5112a..419b6ed 100755
--- a/bin/db_renumber.py
+++ b/bin/db_renumber.py
@@ -11,9 +11,9 @@ from tempfile import TemporaryFile
 import sys
 
 if sys.version < "3":
-    from cPickle import dump, load
+    from cPickle import Pickler, Unpickler
 else:
-    from pickle import dump, load
+    from pickle import Pickler, Unpickler
 
 def usage():
     print("%s <old-file-storage> <new-file-storage>" % sys.argv[0])
@@ -30,14 +30,20 @@ def main(old_file, new_file):
     tmpfile = TemporaryFile()
     print("pickling from " + old_file)
     root = connection.get_root()
-    dump(root.__getstate__(), tmpfile, 2)
+    pickler = Pickler(tmpfile, 2)
+    # References to the root must stay references to the (new) root.
+    pickler.persistent_id = lambda x: x is root and 'root' or None
+    pickler.dump(root.__getstate__())
     root_class = root.__class__
-    root = connection = None
+    root = connection = pickler = None
     tmpfile.seek(0)
     connection2 = Connection(sys.argv[2], root_class=root_class)
     print("unpickling")
-    connection2.get_root().__setstate__(load(tmpfile))
-    connection2.get_root()._p_note_change()
+    root2 = connection2.get_root()
+    unpickler = Unpickler(tmpfile)
+    unpickler.persistent_load = lambda x: root2
+    root2.__setstate__(unpickler.load())
+    root2._p_note_change()
     print("commit to " + new_file)
     connection2.commit()
     print("pack")
-- 
2.43.0


From 41ad36b7dbd59bc20c0dfdb3310aabf29ab1420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:01 +0000
Subject: [PATCH 32/48] fix: a commit was not reported to the other clients if
 its own client was gone

---
 durus/storage_server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index cfa6dda..2e2fc84 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -434,12 +434,13 @@ class StorageServer (object):
             self._report_load_record()
             log(20, 'Committed %3s objects %s bytes at %s',
                 len(oids), len(tdata), datetime.now())
-            write(s, STATUS_OKAY)
             client.unused_oids -= oid_set
             for c in self.clients:
                 if c is not client:
                     c.invalid.update(oids)
             self.bytes_since_pack += len(tdata) + 8
+            # This may fail, but the commit is done.
+            write(s, STATUS_OKAY)
 
     def _report_load_record(self):
         if self.load_record and is_logging(5):
-- 
2.43.0


From 0baee3566dc864cf4bfc860dfa2c2f76935cf883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:01 +0000
Subject: [PATCH 33/48] fix: a malformed request stopped the server

---
 durus/storage_server.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 2e2fc84..f687ec4 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -300,8 +300,8 @@ class StorageServer (object):
                         # command from client
                         try:
                             self.handle(s)
-                        except (ClientError, socket.error, socket.timeout,
-                            IOError):
+                        except Exception:
+                            # Whatever it is, the other clients go on.
                             exc = sys.exc_info()[1]
                             log(10, '%s', ''.join(map(str, exc.args)))
                             self.sockets.remove(s)
@@ -410,6 +410,8 @@ class StorageServer (object):
         while i < len(tdata):
             rlen = str_to_int4(tdata[i:i+4])
             i += 4
+            if not 8 <= rlen <= len(tdata) - i:
+                raise ClientError("malformed commit data")
             oid = tdata[i:i+8]
             record = tdata[i+8:i+rlen]
             i += rlen
@@ -419,7 +421,6 @@ class StorageServer (object):
                     str_to_int8(oid), rlen, class_name)
             self.storage.store(oid, record)
             oids.append(oid)
-        assert i == len(tdata)
         oid_set = set(oids)
         for other_client in self.clients:
             if other_client is not client:
-- 
2.43.0


From a42ae76c20f12754b5ccb7e120bf6639844348a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:01 +0000
Subject: [PATCH 34/48] fix: a rejected commit left its records pending in the
 server's storage

---
 durus/storage_server.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index f687ec4..c090097 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -404,7 +404,7 @@ class StorageServer (object):
             return # client decided not to commit (e.g. conflict)
         logging_debug = is_logging(10)
         logging_debug and log(10, 'Committing %s bytes', len(tdata))
-        self.storage.begin()
+        records = []
         i = 0
         oids = []
         while i < len(tdata):
@@ -419,18 +419,24 @@ class StorageServer (object):
                 class_name = extract_class_name(record)
                 log(10, '  oid=%-6s rlen=%-6s %s',
                     str_to_int8(oid), rlen, class_name)
-            self.storage.store(oid, record)
+            records.append((oid, record))
             oids.append(oid)
         oid_set = set(oids)
         for other_client in self.clients:
             if other_client is not client:
                 if oid_set.intersection(other_client.unused_oids):
                     raise ClientError("invalid oid: %r" % oid)
+        self.storage.begin()
         try:
+            for oid, record in records:
+                self.storage.store(oid, record)
             self.storage.end(handle_invalidations=self._handle_invalidations)
         except ConflictError:
             log(20, 'Conflict during commit')
             write(s, STATUS_INVALID)
+        except Exception:
+            self.storage.begin() # Leave nothing pending.
+            raise
         else:
             self._report_load_record()
             log(20, 'Committed %3s objects %s bytes at %s',
-- 
2.43.0


From 9d30e5c49a8cac9ea06918c0b92606581a60e613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:01 +0000
Subject: [PATCH 35/48] fix: an error in an incremental pack stopped the server

---
 durus/storage_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index c090097..b4a1c81 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -321,6 +321,10 @@ class StorageServer (object):
                         log(20, 'gc at %s' % datetime.now())
                         self.packer = None # done packing
                         self.bytes_since_pack = 0 # reset
+                    except Exception:
+                        log(40, 'gc failed: %r', sys.exc_info()[1])
+                        self.packer = None
+                        self.bytes_since_pack = 0 # try again later
         finally:
             self.address.close(sock)
 
-- 
2.43.0


From a506c0c20f62d0c3feadc4160e8a9cddb4879e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:01 +0000
Subject: [PATCH 36/48] fix: a client that was gone before it was accepted
 could stop the server

---
 durus/storage_server.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index b4a1c81..6f660e3 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -292,8 +292,17 @@ class StorageServer (object):
                 for s in r:
                     if s is sock:
                         # new connection
-                        conn, addr = s.accept()
-                        self.address.set_connection_options(conn)
+                        try:
+                            conn, addr = s.accept()
+                        except socket.error:
+                            log(10, 'accept: %s', sys.exc_info()[1])
+                            continue # That client is gone.
+                        try:
+                            self.address.set_connection_options(conn)
+                        except socket.error:
+                            log(10, 'accept: %s', sys.exc_info()[1])
+                            conn.close()
+                            continue # That client is gone.
                         self.clients.append(_Client(conn, addr))
                         self.sockets.append(conn)
                     else:
-- 
2.43.0


From c8236e0d77332b10e1d75ad17fc9237c3bf8cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:42 +0000
Subject: [PATCH 37/48] fix: values in private slots, or a slot named by a
 string, were never stored

---
 durus/persistent.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/durus/persistent.py b/durus/persistent.py
index 17aabb6..1877ee0 100644
--- a/durus/persistent.py
+++ b/durus/persistent.py
@@ -141,7 +141,15 @@ class PersistentObject (PersistentBase):
         """
         for klass in self.__class__.__mro__:
             if klass is not PersistentBase:
-                for name in getattr(klass, '__slots__', []):
+                slots = klass.__dict__.get('__slots__', [])
+                if isinstance(slots, str):
+                    slots = [slots]
+                for name in slots:
+                    if name.startswith('__') and not name.endswith('__'):
+                        # The name of a private slot is mangled.
+                        klass_name = klass.__name__.lstrip('_')
+                        if klass_name:
+                            name = '_%s%s' % (klass_name, name)
                     if (name not in ('__weakref__', '__dict__') and
                         _hasattribute(self, name)):
                         yield name
-- 
2.43.0


From 5d23b6c1d3330fc8cccd1573b8c24b4995cf33ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:42 +0000
Subject: [PATCH 38/48] fix: PersistentSet.difference(_update) took only one
 argument

---
 durus/persistent_set.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/durus/persistent_set.py b/durus/persistent_set.py
index 2ca07fe..1bf0045 100644
--- a/durus/persistent_set.py
+++ b/durus/persistent_set.py
@@ -153,14 +153,14 @@ class PersistentSet (PersistentObject, collections.abc.MutableSet):
         self._p_note_change()
         self.s.remove(item)
 
-    def difference(self, other):
-        return self.__class__(self.s.difference(other))
+    def difference(self, *others):
+        return self.__class__(self.s.difference(*others))
 
-    def difference_update(self, other):
+    def difference_update(self, *others):
         self._p_note_change()
-        if isinstance(other, PersistentSet):
-            other = other.s
-        return self.s.difference_update(other)
+        others = [other.s if isinstance(other, PersistentSet)
+                  else other for other in others]
+        return self.s.difference_update(*others)
 
     def intersection(self, *others):
         return self.__class__(self.s.intersection(*others))
-- 
2.43.0


From b72b73c92168746aa1b21c0fd56b2b5aca387f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:11 +0000
Subject: [PATCH 39/48] fix: a DurusKeyError could not be printed

---
 durus/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/error.py b/durus/error.py
index 30632b8..e5d59cb 100644
--- a/durus/error.py
+++ b/durus/error.py
@@ -11,7 +11,7 @@ class DurusKeyError (KeyError, DurusError):
     """Key not found in database."""
 
     def __str__(self):
-        first_oid = self.oids[0]
+        first_oid = self.args and self.args[0]
         return str(first_oid and str_to_int8(first_oid))
 
 
-- 
2.43.0


From 73125ee0ed7d9c7c2b98b2b7ecc0fc00ef4620d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:11 +0000
Subject: [PATCH 40/48] fix: logging the classes of odd records failed after a
 commit

---
 durus/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/serialize.py b/durus/serialize.py
index 4fd09b3..49ebccf 100644
--- a/durus/serialize.py
+++ b/durus/serialize.py
@@ -51,8 +51,8 @@ def extract_class_name(record):
     try:
         oid, state, refs = unpack_record(record)
         return state.split(NEWLINE, 2)[1]
-    except IndexError:
-        return "?"
+    except (IndexError, struct.error):
+        return as_bytes("?")
 
 if sys.version < "3":
     def method(a, b):
-- 
2.43.0


From f8f3c5ba0436109b605e9151b5de30836a38edaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:11 +0000
Subject: [PATCH 41/48] fix: a storage made from records could not be used
 until it was reopened

---
 durus/file_storage2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 0b36bd7..0b678c2 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -355,3 +355,6 @@ class FileStorage2(Storage):
         self._write_index(self.fp, index)
         self.fp.flush()
         self.fp.fsync()
+        self.index = index
+        for oid in index:
+            self.oid = max(self.oid, str_to_int8(oid))
-- 
2.43.0


From f3210663e9a5030e6757769630d8cbfbba1bf2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:11 +0000
Subject: [PATCH 42/48] fix: packing needed a file system with hard links

---
 durus/file.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/durus/file.py b/durus/file.py
index 0e640dc..913f8bb 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -2,7 +2,9 @@
 $URL$
 $Id$
 """
+import errno
 import os, os.path
+import sys
 from os.path import exists
 from tempfile import NamedTemporaryFile, _TemporaryFileWrapper
 if os.name == 'nt':
@@ -10,6 +12,9 @@ if os.name == 'nt':
 else:
     import fcntl
 
+# What os.link() fails with when the file system has no links.
+NO_LINKS = (errno.EPERM, errno.ENOSYS, errno.EOPNOTSUPP, errno.EMLINK)
+
 class File (object):
     """
     A file wrapper that smooths over some platform-specific
@@ -96,7 +101,12 @@ class File (object):
             # There is a complete file with the name at any time.
             if exists(backup_name):
                 os.unlink(backup_name)
-            os.link(name, backup_name)
+            try:
+                os.link(name, backup_name)
+            except OSError:
+                if sys.exc_info()[1].errno not in NO_LINKS:
+                    raise
+                other.rename(backup_name)
         else:
             other.rename(backup_name)
         self.rename(name)
-- 
2.43.0


From d31bb9952d8c65af96ff82377173484ab2c8e47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:11 +0000
Subject: [PATCH 43/48] fix: the startup file of the interactive client was
 never run

---
 durus/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/durus/__main__.py b/durus/__main__.py
index 509b16d..90e36c6 100644
--- a/durus/__main__.py
+++ b/durus/__main__.py
@@ -62,7 +62,9 @@ def interactive_client(file, address, cache_size, readonly, repair,
         vars(console_module), os.path.expanduser("~/.durushistory"))
     console = InteractiveConsole(vars(console_module))
     if startup:
-        console.runsource('execfile("%s")' % os.path.expanduser(startup))
+        path = os.path.expanduser(startup)
+        console.runsource(
+            'exec(compile(open(%r).read(), %r, "exec"))' % (path, path))
     help = ('    connection -> the Connection\n'
             '    root       -> the root instance')
     console.interact('Durus %s\n%s' % (description, help))
-- 
2.43.0


From 13c557f7a7da6139c7215d90cac5a63cedf8950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:11 +0000
Subject: [PATCH 44/48] fix: an object removed by a pack raised KeyError with
 some storages

---
 durus/connection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 7400306..69d28a7 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -3,7 +3,6 @@ $URL$
 $Id$
 """
 from durus.error import ConflictError, WriteConflictError, ReadConflictError
-from durus.error import DurusKeyError
 from durus.logger import log
 from durus.persistent import ConnectionBase
 from durus.persistent_dict import PersistentDict
@@ -193,7 +192,7 @@ class Connection (ConnectionBase):
         oid = obj._p_oid
         try:
             pickle = self.get_stored_pickle(oid)
-        except DurusKeyError:
+        except KeyError:
             # We have a ghost but cannot find the state for it.  This can
             # happen if the object was removed from the storage as a result
             # of packing.
-- 
2.43.0


From 83988e87c108979ebe372a1c77df75eb25cf8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:18 +0000
Subject: [PATCH 45/48] fix: the name of an inherited abstract socket could not
 be shown

---
 durus/storage_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 6f660e3..13a27c1 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -232,9 +232,9 @@ class InheritedSocket(SocketAddress):
         self.name = sock.getsockname()
 
     def __str__(self):
-        if isinstance(self.name, bytes) and '\0' in self.name:
+        if isinstance(self.name, bytes) and as_bytes('\0') in self.name:
             # Linux extension, abstract namespace
-            path = self.name.replace('\0', '@')
+            path = self.name.replace(as_bytes('\0'), as_bytes('@'))
             try:
                 path = path.decode(sys.getfilesystemencoding())
             except:
-- 
2.43.0


From 24cb1d7be5b3a9446292935b23a62f0583623f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:18 +0000
Subject: [PATCH 46/48] fix: a pack that could not be started automatically
 stopped the server

---
 durus/storage_server.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 13a27c1..73a6a5a 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -318,7 +318,11 @@ class StorageServer (object):
                             s.close()
                 if (self.packer is None and
                     0 < self.gcbytes <= self.bytes_since_pack):
-                    self.packer = self.storage.get_packer()
+                    try:
+                        self.packer = self.storage.get_packer()
+                    except Exception:
+                        log(40, 'gc failed: %r', sys.exc_info()[1])
+                        self.bytes_since_pack = 0 # try again later
                     if self.packer is not None:
                         log(20, 'gc started at %s' % datetime.now())
                 if not r and self.packer is not None:
-- 
2.43.0


From c8ed4daa7c7cd10f2f52f88031cc6a02398b87e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:21 +0000
Subject: [PATCH 47/48] fix: creating the root of an empty database works if
 its oid was already handed out

A second client of an empty database, or a second attempt after a failed
one, got an AssertionError from Connection().  Now the root is created, or
WriteConflictError tells that another client is just creating it.
---
 durus/connection.py     | 5 +++--
 durus/storage_server.py | 8 +++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 69d28a7..0b56ba4 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -63,8 +63,9 @@ class Connection (ConnectionBase):
         self.cache = Cache(cache_size)
         self.root = self.get(ROOT_OID)
         if self.root is None:
-            new_oid = self.new_oid()
-            assert ROOT_OID == new_oid
+            # This is ROOT_OID, unless it was already handed out for another
+            # connection, which failed or is just creating the same root.
+            self.new_oid()
             self.root = self.get_cache().get_instance(
                 ROOT_OID, root_class or PersistentDict, self)
             self.root._p_set_status_saved()
diff --git a/durus/storage_server.py b/durus/storage_server.py
index 73a6a5a..92b782f 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -3,6 +3,7 @@ $URL$
 $Id$
 """
 from datetime import datetime
+from durus.connection import ROOT_OID
 from durus.error import ReadConflictError, ConflictError
 from durus.logger import log, is_logging
 from durus.serialize import extract_class_name, split_oids
@@ -441,7 +442,12 @@ class StorageServer (object):
         oid_set = set(oids)
         for other_client in self.clients:
             if other_client is not client:
-                if oid_set.intersection(other_client.unused_oids):
+                reserved = oid_set.intersection(other_client.unused_oids)
+                if reserved:
+                    if reserved == set([ROOT_OID]):
+                        # Another client is just creating the same root.
+                        write(s, STATUS_INVALID)
+                        return
                     raise ClientError("invalid oid: %r" % oid)
         self.storage.begin()
         try:
-- 
2.43.0


From fa524bbf976f303c4acb90bdef6d2fa33295160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:17 +0000
Subject: [PATCH 48/48] fix: pack the file that was opened, also after the
 working directory changed

With a relative file name and another working directory, a pack failed or
replaced another database of the same name.
---
 durus/file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/durus/file.py b/durus/file.py
index 913f8bb..0b1f526 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -37,7 +37,8 @@ class File (object):
                 self.file = open(name, 'r+b')
         if readonly:
             assert self.is_readonly()
-        self.name = self.file.name
+        # It stays the same file when the working directory changes.
+        self.name = os.path.abspath(self.file.name)
         self.has_lock = False
 
     def get_name(self):
@@ -73,6 +74,7 @@ class File (object):
         return self.stat().st_size
 
     def rename(self, name):
+        name = os.path.abspath(name)
         old_name = self.get_name()
         if name == old_name:
             return
-- 
2.43.0

