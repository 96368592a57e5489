"""Writes /verif/properties.jsonl.  Kept so the list is easy to review and edit."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A BTree is a sorted mapping after every operation history",
  "After any sequence of BTree insertions, overwrites, deletions (of present and absent keys), clears, updates and degree changes, the tree holds exactly the key/value pairs a sorted dictionary would, and len, truth value, membership, get, setdefault, min/max, forward, backward and range iteration with every open/closed end agree with it. Deleting an absent key raises KeyError and changes nothing. The tree stays balanced: every leaf is at the same depth and no node other than the root has fewer than t-1 or more than 2t-1 items.",
  ["inputs", "histories"],
  "every history of insert/delete over the reachable tree shapes, for several minimum degrees, every key present or absent, every range query",
  "The unit tests insert and delete a few random sequences with one degree and look at length and order; the delete cases (borrow left/right, merge, root collapse, internal replacement) combine in shapes the samples never reach, and counts are cached per node.",
  ["durus/btree.py"],
  [("CLRS insert/split and delete cases", "BNode.insert_item, split_child, delete"), ("cached item counts", "BNode._count"), ("range iteration", "BTree.items_from/items_backward_from/items_range")],
  [("items/nodes", "sorted items and children of a node", "BNode"), ("_count", "number of items below a node", "BNode")],
  ["BTree public methods"])

prop("C02", "BTree contents survive commit, abort and reopening exactly",
  "For any history of BTree insertions, overwrites, deletions and clears interleaved with commits, aborts and reopening, a fresh connection sees exactly the mapping as of the last commit and an abort restores exactly that mapping in the mutating connection. The same holds for trees stored by older versions whose nodes carry no stored item count, for which length and all operations work and give correct answers.",
  ["histories", "inputs"],
  "every mutation applied to every reachable small stored tree shape, followed by commit/abort and inspection from a second connection, with and without stored counts",
  "The tests commit a BTree only after bulk inserts; a node mutated in place without being noted as changed looks right in memory and is lost only on reload, and depends on which rebalancing case ran.",
  ["durus/btree.py", "durus/persistent.py", "durus/connection.py"],
  [("change notes in each rebalancing branch", "BNode.*: _p_note_change and attribute assignment"), ("old-format counts", "_NullCount, BTree.__len__")],
  [("items/nodes lists", "mutable lists that need explicit change notes", "BNode")],
  ["a second Connection on the same storage"])

prop("C03", "PersistentDict, PersistentList and PersistentSet behave as the builtins",
  "Every sequence of operations on a PersistentDict, PersistentList or PersistentSet yields the same results, the same contents and the same kind of error as the same operations on dict, list or set. Operations that combine two containers (comparisons of sets and dicts aside, which need two persistent operands) give the same answer whether the other operand is persistent or builtin, including the container itself, and non-mutating operations leave both operands unchanged and never share mutable state with their result.",
  ["inputs", "histories"],
  "every operation sequence up to a depth over small value domains, with every operand kind",
  "Tests call each method once or twice on hand-picked values; argument-kind branches, aliasing (x += x, x[a:b] = x), negative/out-of-range indexes and result sharing are barely sampled.",
  ["durus/persistent_dict.py", "durus/persistent_list.py", "durus/persistent_set.py"],
  [("delegation to a wrapped builtin", "data / s attribute of each class")],
  [("data, s", "the wrapped builtin container", "PersistentDict.data, PersistentList.data, PersistentSet.s")],
  ["public container methods"])

prop("C04", "Every mutation of a stored object is saved by commit and undone by abort",
  "For a stored, ghost or loaded persistent object of any kind (PersistentDict, PersistentList, PersistentSet, BTree, Persistent with attributes or slots), any mutating operation followed by commit is visible to a new connection, and followed by abort leaves the object exactly as last committed. What commit stores is always exactly what the object showed in memory, also when the mutation raised, and an object that was only read is not written by commit.",
  ["inputs", "histories"],
  "every mutating and reading operation of every persistent class, from ghost and from loaded state, alone and in pairs across commit/abort",
  "Tests check a handful of mutators through a connection; each mutator has its own change note and forgetting or misplacing one loses data only in the particular state (ghost, saved) where nothing else noted the change.",
  ["durus/persistent.py", "durus/_persistent.c", "durus/persistent_dict.py", "durus/persistent_list.py", "durus/persistent_set.py", "durus/btree.py", "durus/connection.py"],
  [("change notification", "_p_note_change calls, PersistentBase.__setattr__/__delattr__"), ("abort ghosts changed objects", "Connection.abort")],
  [("_p_status", "unsaved/saved/ghost state machine", "PersistentBase")],
  ["second Connection, storage records"])

prop("C05", "Commit and abort are atomic state changes of the whole object graph",
  "For every history of creating, linking, unlinking, modifying, reading, committing, aborting and reopening objects through one connection, the objects reachable from the root always equal a reference model in which commit saves the whole graph and abort restores the last saved graph. This includes new objects reachable only through other new objects, cycles and sharing, objects moved between parents, any cache size, and objects whose commit happened long after creation. It holds on every storage back-end.",
  ["histories", "configurations"],
  "every operation sequence up to a depth over a small object universe, for cache sizes and storages",
  "Tests cover single steps (one commit, one abort); the interplay of new-object registration, abort of new objects, ghosting and reload needs multi-step histories.",
  ["durus/connection.py", "durus/serialize.py", "durus/persistent.py", "durus/_persistent.c"],
  [("reachability driven store of new objects", "ObjectWriter._persistent_id/gen_new_objects"), ("abort and commit", "Connection.commit/abort")],
  [("changed", "objects to store on commit", "Connection.changed"), ("_p_oid/_p_connection", "assignment to a stored identity", "PersistentBase")],
  ["public object attributes, reopened storage"])

prop("C06", "A failed commit stores nothing and can be aborted or retried",
  "If commit raises for any reason (a write conflict, an object that cannot be pickled, a reference to another connection's object, an I/O error while storing) then nothing of that transaction becomes visible to a new connection, then or as part of a later commit. After abort, all stored objects show their last committed state and objects that were new in the failed transaction are again free: they can be attached and committed, and are then stored completely. This includes the first commit, which creates the root of an empty database.",
  ["fault_sequences", "histories"],
  "every failure kind at every object position of every small transaction, followed by abort, modification and retry, on every storage",
  "Tests make one commit fail with one conflict; leaks appear only when some objects were already pickled or stored before the failing one, or when a later commit follows.",
  ["durus/connection.py", "durus/file_storage.py", "durus/file_storage2.py", "durus/sqlite_storage.py", "durus/storage.py", "durus/client_storage.py"],
  [("clear pending records at begin", "Storage.begin of each back-end"), ("new object rollback", "Connection.commit except clause")],
  [("pending_records", "records of the commit underway", "each storage"), ("new_objects", "objects given an oid in this commit", "Connection.commit")],
  ["new connection on the same storage"])

prop("C07", "Committed transactions of concurrent clients are serializable",
  "For clients of one storage server, whatever the interleaving of their reads, writes, commits, aborts and disconnects, the set of transactions whose commit succeeded is equivalent to running them one after the other in commit order, each having read the state left by its predecessors. In particular no update is lost: a commit whose transaction read or overwrote an object changed by another client since the transaction first accessed it fails with a conflict error.",
  ["schedules", "programs"],
  "every interleaving, at the granularity of server requests, of small transaction programs of two and three clients",
  "The tests run one or two fixed interleavings; lost updates need a specific order of load, invalidation and commit.",
  ["durus/connection.py", "durus/client_storage.py", "durus/storage_server.py", "durus/persistent.py"],
  [("per-client invalidation sets", "StorageServer handle_C/handle_S, _Client.invalid"), ("access tracking by transaction serial", "Connection.note_access/_handle_invalidations")],
  [("_Client.invalid", "oids changed since this client last synced", "StorageServer"), ("_p_serial", "transaction in which an object was last accessed", "PersistentBase")],
  ["values read and committed by clients"])

prop("C08", "All reads within one transaction come from one committed snapshot",
  "Between two consecutive commits/aborts of a client, until a conflict error ends the transaction, all values it manages to read (from its cache, by loading ghosts, by bulk load or crawling) belong to one single committed state of the database together with its own changes; where that is impossible the read raises a conflict error instead of returning mixed state. Immediately after commit or abort the client sees a state at least as recent as that moment.",
  ["schedules", "programs"],
  "every interleaving of a multi-object reader with writers committing, for every cached/ghost split of the objects",
  "Tests check a single ReadConflictError; mixed snapshots depend on which objects were cached, ghosted or reloaded between the two halves of another client's transaction.",
  ["durus/connection.py", "durus/storage_server.py", "durus/client_storage.py"],
  [("refuse to serve records in the client's invalid set", "StorageServer._send_load_response"), ("conflict check on read", "Connection.get_stored_pickle/_handle_invalidations"), ("invalidation at sync", "Connection._sync")],
  [("invalid_oids", "oids known obsolete but accessed", "Connection")],
  ["values read by the client"])

prop("C09", "Conflicts are recoverable and only raised for real overlaps",
  "After any conflict error, abort brings the client to the current committed state, and repeating the transaction with no interference succeeds. A client whose transaction did not access any object that others changed since its last commit or abort gets no write conflict. A conflict never disturbs the other clients or the server. Clients that open an empty database at the same time all get the same root, or a conflict error after which connecting again works, even if one of them dies in the middle.",
  ["schedules", "programs"],
  "every interleaving of small client programs, with retry after each conflict",
  "Tests abort after one conflict in one schedule; stale flags or leftover protocol state show only in the next transaction.",
  ["durus/connection.py", "durus/client_storage.py", "durus/storage_server.py"],
  [("abort clears invalid oids and re-syncs", "Connection.abort/_sync"), ("commit handshake with zero-length data on conflict", "ClientStorage.end, StorageServer.handle_C")],
  [("oid_pool/transaction_new_oids", "oids returned to the pool on conflict", "ClientStorage")],
  ["exceptions seen by clients, later transactions"])

prop("C10", "An object identifier is never given to two live objects",
  "No oid handed out for a new object, by any storage, to any client, in any order of allocation, commit, conflict, disconnect, pack and restart, equals the oid of an object in the database, of an object another client still holds un-notified of its removal, or of an oid handed out and still unused elsewhere. The first oid of an empty storage is the root's (a server's database has its root before two clients use it), and oid 0 is never handed out again once the root exists.",
  ["histories", "schedules"],
  "every sequence up to a depth of allocate, store, pack, sync, reopen on every storage, and of client allocation, commit, conflict and disconnect on the server",
  "Tests allocate a few oids in a row; reuse needs a pack that freed oids, a restart, a conflict that returned oids or stale clients.",
  ["durus/shelf.py", "durus/file_storage.py", "durus/file_storage2.py", "durus/sqlite_storage.py", "durus/client_storage.py", "durus/storage_server.py"],
  [("holes in the offset map", "Shelf.next_name"), ("exclusion of allocated and invalid oids", "FileStorage.new_oid, StorageServer._new_oids"), ("client oid pool", "ClientStorage.new_oid/end")],
  [("allocated_unused_oids", "handed out, not yet stored", "FileStorage"), ("unused_oids", "per-client handed out oids", "StorageServer")],
  ["new_oid results"])

prop("C11", "FileStorage: a crash at any point loses nothing acknowledged",
  "If the process or machine dies at any moment while a FileStorage is committing, then reopening the file with repair yields exactly the state after some prefix of the commits that includes every commit that had returned: never part of a transaction, and never anything else. The reopened storage is fully usable: it accepts new commits, which are again durable.",
  ["crash_points", "histories"],
  "every prefix of the file-system operations of every small commit history, every torn length of the last write, and every loss of writes not yet forced to disk",
  "No test crashes a commit; the one repair test appends a fixed piece of garbage.",
  ["durus/shelf.py", "durus/file_storage.py", "durus/file.py"],
  [("append with length placeholder, then patch", "Shelf.store"), ("recovery scan", "read_transaction_offsets"), ("force to disk", "FileStorage.end")],
  [("transaction length", "marks a transaction complete", "Shelf file")],
  ["files on disk, reopened storage"])

prop("C12", "FileStorage2: a crash at any point loses nothing acknowledged",
  "If the process or machine dies at any moment while a FileStorage2 is committing, then reopening the file with repair yields exactly the state after some prefix of the commits that includes every commit that had returned: never part of a transaction, and never anything else. The reopened storage is fully usable: it accepts new commits, which are again durable.",
  ["crash_points", "histories"],
  "every prefix of the file-system operations of every small commit history, every torn length of the last write, and every loss of writes not yet forced to disk",
  "No test crashes a commit; repair is tried on one fixed truncation.",
  ["durus/file_storage2.py", "durus/file.py"],
  [("transaction terminator", "FileStorage2._write_transaction"), ("recovery scan", "FileStorage2._build_index"), ("fsync before acknowledging", "FileStorage2.end")],
  [("index", "oid to file offset", "FileStorage2.index")],
  ["files on disk, reopened storage"])

prop("C13", "SqliteStorage: a crash at any point loses nothing acknowledged",
  "If the process or machine dies at any moment while a SqliteStorage is committing or packing, reopening it yields exactly the state after some prefix of the commits that includes every commit that had returned. The reopened storage accepts new commits that do not disturb existing objects.",
  ["crash_points", "histories"],
  "every prefix of the file-system operations (database and journal) of every small commit history, with torn and unsynced writes",
  "No test crashes an SqliteStorage; atomicity depends on all records of a commit being in one SQL transaction that is committed before returning.",
  ["durus/sqlite_storage.py"],
  [("one SQL transaction per commit", "SqliteStorage._store_records/_commit")],
  [("_last_oid", "next oid after reopening", "SqliteStorage")],
  ["files on disk, reopened storage"])

prop("C14", "Packing keeps exactly the live objects, whatever commits run meanwhile",
  "Packing a storage, in one go or incrementally interleaved with any commits and loads, preserves the current record of every object reachable from the root, including objects created, modified, linked or unlinked while it runs. After a pack with nothing interleaved only reachable objects remain, objects that were removed are reported to every client as invalid, a pack may be repeated, and the result is the same when the storage is closed and opened again.",
  ["schedules", "histories"],
  "every interleaving of pack steps with small commit programs, over small object graphs, on every storage that packs, directly and through the server",
  "The tests pack with one fixed interleaving; an object is lost only when a link changes between particular pack steps.",
  ["durus/file_storage.py", "durus/file_storage2.py", "durus/sqlite_storage.py", "durus/storage_server.py", "durus/shelf.py"],
  [("objects committed during the pack are re-traversed", "pack_extra in each packer"), ("removed oids invalidated", "invalid set in each storage"), ("incremental driving", "StorageServer.serve")],
  [("pack_extra", "oids committed since the pack began", "each storage"), ("seen/index/alive", "objects already copied", "each packer")],
  ["storage contents after pack and reopen"])

prop("C15", "A crash or error during a pack loses nothing acknowledged",
  "If the process or machine dies, or a file operation fails, at any moment of a pack (including the final replacement of the file), the data file under its normal name opens, with repair at most, and contains every acknowledged commit, including those made during the pack. After such an error in a running process the storage continues to work, later commits are durable, and a later pack completes.",
  ["crash_points", "fault_sequences"],
  "every prefix of the file-system operations of a pack with interleaved commits, torn and unsynced writes included, and an injected error at every operation",
  "No test crashes or fails a pack; the rename sequence has windows that exist for microseconds.",
  ["durus/file_storage.py", "durus/file_storage2.py", "durus/file.py"],
  [("write .pack, rename over", "FileStorage packer, FileStorage2._packer, File.rename")],
  [(".pack/.prepack files", "new and old generations", "file system")],
  ["files on disk, reopened storage"])

prop("C16", "A storage file has one writer at a time; readonly opening never writes",
  "While a file storage is open for writing, through commits, packs and failed attempts, no other writable open of the same file succeeds, in this or another process, and the failed attempt changes nothing; after close the file can be opened again. A storage opened readonly never modifies any file, never blocks or is blocked by a writer, and refuses commits and packs, and a readonly open of a missing file fails without creating it.",
  ["histories", "schedules"],
  "every sequence up to a depth of open (writable, readonly, missing), commit, pack, close by two openers",
  "Tests try one locked open; packing swaps the file and its lock, and a hole there exists only between two calls.",
  ["durus/file.py", "durus/file_storage.py", "durus/file_storage2.py", "durus/shelf.py"],
  [("flock held from open to close and re-obtained on rename", "File.obtain_lock/rename")],
  [("has_lock", "exclusive lock state", "File")],
  ["open results, file bytes"])

prop("C17", "All storages implement the same map from oid to latest record",
  "For every sequence of allocating oids, storing records, ending or abandoning transactions, loading, bulk loading, iterating all records or from a start oid, syncing and reopening, every storage (memory, file, file2, sqlite, and client/server over any of them) gives the answers of a plain map from oid to the record last stored in a completed transaction. Loading a missing oid raises KeyError, loads see nothing of a transaction not ended, and iteration from a start oid yields every reachable record exactly once.",
  ["histories", "configurations"],
  "every operation sequence up to a depth over a few oids and records, on every storage",
  "Each storage has a separate handful of example tests; several methods (full iteration, reopening) are not exercised on some storages at all.",
  ["durus/storage.py", "durus/file_storage.py", "durus/file_storage2.py", "durus/sqlite_storage.py", "durus/client_storage.py", "durus/storage_server.py", "durus/shelf.py"],
  [("index of latest record", "Shelf.memory_index and OffsetMap, FileStorage2.index, objects table"), ("transaction buffering", "begin/store/end")],
  [("index", "position of latest record by oid", "each storage")],
  ["Storage interface"])

prop("C18", "Serialization preserves the object graph and lists exact references",
  "Committing any graph of persistent and plain objects and reading it through a fresh connection yields an isomorphic graph: same values, same sharing and cycles, same classes. The reference list in every stored record names exactly the other persistent objects its state refers to, each once and never itself, independent of what was pickled before it in the same or an earlier commit. A record holds the state and nothing else.",
  ["inputs", "histories"],
  "every graph up to a size over persistent classes and plain containers, every root order, compressed and uncompressed, below and above the pickler reset size",
  "Tests pickle a couple of objects; reference lists are only used by packing, so a missing or stale entry is invisible until data disappears.",
  ["durus/serialize.py", "durus/connection.py", "durus/persistent.py"],
  [("persistent_id hook collects references", "ObjectWriter._persistent_id/get_state"), ("pickler reuse", "ObjectWriter._setup_pickler/clear_memo")],
  [("refs", "references found in the current object", "ObjectWriter")],
  ["stored records, reloaded graph"])

prop("C19", "The server survives any client failure and any chunking of its streams",
  "Whatever bytes a client sends (except the quit command) and at whatever byte of a request or response its connection breaks, the server keeps serving the other clients; no partially received or malformed commit is applied, and a commit is either fully applied, and then reported to all other clients, or not at all. How requests and responses are split into packets never changes their meaning, on the server or in the client.",
  ["fault_sequences", "inputs"],
  "a disconnect at every byte position of every request and response, every two-way split of every message, unknown commands and malformed requests, with a bystander client",
  "Tests use well-behaved loopback sockets that deliver whole messages.",
  ["durus/storage_server.py", "durus/client_storage.py", "durus/utils.py"],
  [("exact reads and full writes", "utils.read/write"), ("drop the failing client", "StorageServer.serve exception handling"), ("commit data read completely before begin", "StorageServer.handle_C")],
  [("sockets/clients", "live connections", "StorageServer")],
  ["bystander client's view, stored records"])

prop("C20", "The C and Python implementations of persistence behave identically",
  "For every sequence of attribute reads, writes, deletions, state changes, ghosting, pickling and class/slot variations, the C extension and the pure Python base classes give the same results, the same exceptions, the same object status and the same notifications to the connection. Neither crashes the interpreter on any attribute name or value.",
  ["inputs", "programs"],
  "every operation sequence up to a depth over a small alphabet of operations and attribute names, run on both implementations in lock step",
  "The test suite runs with whichever implementation is built; the two are never compared.",
  ["durus/_persistent.c", "durus/persistent.py"],
  [("attribute access hooks", "pb_getattro/pb_setattro, PersistentBase.__getattribute__/__setattr__")],
  [("_p_status, _p_serial", "status and access serial", "PersistentBase")],
  ["attribute values, exceptions, load/access/change notifications"])

prop("C21", "A copy of the file taken at any moment is a usable earlier state",
  "Copying the data file of a FileStorage or FileStorage2 while commits are running, or cutting a copy to any shorter length at or beyond the end of its initial part, gives a file that opens with repair and contains exactly the state after some prefix of the commits; cut exactly at a transaction boundary it opens without repair. No commit ever changes bytes of earlier transactions.",
  ["crash_points", "histories"],
  "every byte length of the file after every commit of small histories, before and after a pack",
  "The documentation promises online backup and point-in-time recovery; the tests never open a copy.",
  ["durus/shelf.py", "durus/file_storage2.py"],
  [("append-only log", "Shelf.store, FileStorage2._write_transaction"), ("recovery scan", "read_transaction_offsets, FileStorage2._build_index")],
  [("file tail", "last transaction", "data file")],
  ["copies of the data file"])

prop("C22", "The on-disk index structures behave as plain sets, arrays and maps",
  "Shelf, its offset map, and the byte, bit, word, integer arrays and integer sets underneath behave, for every sequence of their operations (integer sets: non-negative members; integer arrays: values up to the declared maximum) and every size, as a dictionary, list or set would, including growth, iteration interleaved with reads, and reopening from the file. Reading or writing an index that is not in range raises IndexError and changes nothing. A shelf's unused-name sequence yields every unused name once, in no case a used one.",
  ["inputs", "histories"],
  "every operation sequence up to a depth, every size over the byte and word boundaries",
  "Tests use one size per structure; word widths and boundaries change behaviour at particular sizes.",
  ["durus/utils.py", "durus/shelf.py"],
  [("packed arrays over a file", "ByteArray, BitArray, WordArray, IntArray, IntSet, OffsetMap")],
  [("holes list", "linked list of unused slots", "OffsetMap")],
  ["public methods"])

prop("C23", "A computed attribute never shows a value older than its last invalidation",
  "After any client invalidates a ComputedAttribute and commits, every other client recomputes the value on its first access after its next commit or abort, and aborting an invalidation restores correct behaviour. Between invalidations the value is computed at most once per client while it stays in the cache, and computing it never marks the object as changed.",
  ["schedules", "histories"],
  "every interleaving of get, invalidate, commit, abort on two clients sharing the attribute and the data it is computed from",
  "One test exercises one sequence on one connection pair.",
  ["durus/persistent.py", "durus/connection.py"],
  [("invalidate marks unsaved so that others are notified", "ComputedAttribute.invalidate"), ("ghosting drops the value", "PersistentObject._p_set_status_ghost")],
  [("value", "cached value slot", "ComputedAttribute")],
  ["values returned by get, number of computations"])

prop("C24", "The cache is transparent and keeps one instance per object",
  "Through one connection, an oid always maps to the same instance while that instance is alive, and whatever the cache size, access pattern, garbage collection and shrinking, reads and commits give the same results as with an unlimited cache; modified objects and objects in use in the current transaction are never ghosted. Commits and aborts reduce the cache to its target size once the excess objects are no longer used or referenced by the application, and while the cache stays below its target an object that was accessed is not loaded again unless it was invalidated or its changes were aborted.",
  ["histories", "configurations"],
  "every access/modify/drop/commit/abort sequence up to a depth, for every small cache size",
  "Tests look at one shrink with fixed sizes; identity breaks only for particular death/reload orders of weak references.",
  ["durus/connection.py", "durus/serialize.py"],
  [("weak references with delayed removal", "ObjectDictionary"), ("least-recently-used ghosting", "Cache.shrink/_build_heap"), ("hard references", "ReferenceContainer")],
  [("objects/recent_objects", "weak and hard references", "Cache")],
  ["object identity, values, cache count"])

prop("C25", "Traversal and maintenance helpers visit exactly the right objects",
  "For every object graph and batch size, the crawler yields each object reachable from the start exactly once with its current state, and the census, class listing, referrer listing, reference index, instance generator and touch-every-reference helpers agree with the actual stored graph. None of them disturbs uncommitted changes or marks objects changed that it should not.",
  ["inputs", "configurations"],
  "every small graph, start, batch size, cached/ghost/modified state, on every storage",
  "Tests run each helper on one graph with the default batch size.",
  ["durus/storage.py", "durus/connection.py", "durus/file_storage.py", "durus/file_storage2.py", "durus/sqlite_storage.py"],
  [("breadth-first batches", "Storage.gen_oid_record"), ("reuse of cached instances", "Connection.get_crawler")],
  [("seen/todo", "traversal frontier", "Storage.gen_oid_record")],
  ["helper results"])

prop("C26", "The conversion scripts preserve the object graph",
  "Running the renumbering script on any valid database produces a new file whose object graph is isomorphic to the old one, with the same root class, and whose oids are dense from zero (apart from those of objects that the root's constructor creates), and leaves the original unchanged. The Python 2 to 3 converter produces a new file with an isomorphic graph, with the strings of Python 2 records as text, and leaves the original unchanged, on every file format it accepts.",
  ["inputs", "configurations"],
  "every small object graph, with holes in the oid range and garbage objects",
  "The scripts have no tests.",
  ["bin/db_renumber.py", "bin/db_to_py3k.py"],
  [("pickle the graph through new connections", "bin/db_renumber.py main"), ("crawl and re-store", "bin/db_to_py3k.py main")],
  [], ["output files"])

prop("C27", "A server takes over a stale socket but never a live one",
  "Starting a server on a Unix socket path succeeds when nothing or only a stale socket is there, and fails without disturbing anything when a live server listens on it or the path is an ordinary file with content. Ownership, group and mode requests are applied to the new socket, the process umask is unchanged afterwards whether or not the bind succeeds, and closing removes the path.",
  ["histories", "configurations"],
  "every initial state of the path, every combination of options, every failure point",
  "One test binds one fresh path.",
  ["durus/storage_server.py"],
  [("probe before unlink", "UnixDomainSocketAddress.bind_socket"), ("cleanup", "UnixDomainSocketAddress.close")],
  [("umask", "process umask during bind", "UnixDomainSocketAddress.bind_socket")],
  ["file system, umask, connectability"])

prop("C28", "A file is always opened with the storage that wrote it",
  "For every storage format and file content, the format is recognised from the file itself, opening through the command-line helper or the default classes yields the same objects as the class that wrote it, and a file of another or unknown format is refused without being modified. A missing file creates a new default storage, and explicitly naming a storage class overrides the detection.",
  ["inputs", "configurations"],
  "every format times every opener times readonly/repair, plus every proper prefix of each magic header",
  "No test opens a file of one format with the class of another.",
  ["durus/__main__.py", "durus/file_storage.py", "durus/file_storage2.py", "durus/sqlite_storage.py", "durus/shelf.py"],
  [("magic detection", "get_storage_class/get_storage, has_format")],
  [], ["opened class, file bytes"])

prop("C29", "Damage is reported, not hidden; only repair truncates",
  "Opening a FileStorage or FileStorage2 file whose tail is damaged (cut anywhere inside the last transactions) without repair raises an error and leaves every byte unchanged; opening it with repair truncates exactly to the end of the last complete transaction and changes no byte before that. Opening an undamaged file, with or without repair, changes nothing.",
  ["crash_points", "inputs"],
  "every cut position of files with several transactions, with and without repair, readonly and writable",
  "One test appends one fixed piece of garbage.",
  ["durus/shelf.py", "durus/file_storage2.py"],
  [("recovery scan with repair flag", "read_transaction_offsets, FileStorage2._build_index")],
  [], ["file bytes before and after opening"])

prop("C30", "An I/O error during a commit leaves the storage at the previous state",
  "If any file operation of a commit fails (disk full, short write, failed flush) the commit raises, the running process continues to see exactly the previous state, and after a restart the file holds that same state. A later commit in the same process succeeds once the condition is gone, is durable, and contains only its own changes.",
  ["fault_sequences", "histories"],
  "an error, or a partial write, at every file operation of every commit of small histories, followed by continued use and by restart",
  "No test injects an I/O error.",
  ["durus/shelf.py", "durus/file_storage.py", "durus/file_storage2.py", "durus/sqlite_storage.py"],
  [("revert on exception", "Shelf.store"), ("pending records cleared at begin", "Storage.begin")],
  [("pending_records", "records of the failed commit", "each storage")],
  ["running and reopened storage"])

prop("C31", "A pack of a running server does not disturb its clients",
  "While a server packs, on request or because gcbytes bytes were committed, its clients continue as if it did not: a transaction of a reader sees one consistent snapshot, a commit or load conflicts only after another client's commit to the same objects, and commits placed before, between and after any of the pack's steps are kept. When the pack is done nothing reachable is missing, a further pack removes every unreachable record, and the file holds the same when it is opened again. A pack that cannot be started or fails leaves the server serving its clients, loses nothing, and a later pack succeeds. An automatic pack starts once gcbytes bytes were committed since the last one, and never when gcbytes is 0.",
  ["schedules", "fault_sequences", "histories"],
  "every sequence, up to a depth, of writer transactions, reader steps, pack requests and single pack steps on the real server, and every placement of two transactions among the steps of a pack, for each storage and gcbytes",
  "The tests pack a storage nobody else uses; the server's incremental pack runs between client commands, so what it does depends on where the commits fall among its steps.",
  ["durus/storage_server.py", "durus/client_storage.py", "durus/file_storage.py", "durus/file_storage2.py", "durus/sqlite_storage.py"],
  [("incremental pack between commands", "StorageServer.serve, handle_P, get_packer"), ("automatic pack", "StorageServer.handle_C: bytes_since_pack, gcbytes"), ("invalidation of removed objects", "_report_load_record, unused_oids, sync")],
  [("packer", "generator of the pack in progress", "StorageServer"), ("bytes_since_pack", "bytes committed since the last pack", "StorageServer")],
  ["client connections, storage file"])

prop("C32", "The durus command does what its options ask and nothing else",
  "Each form of the durus command acts exactly on what its options name. A server serves the given file to every client: what a client commits is seen by the others and is in the file after the server is stopped, by the stop command or an interrupt, which leaves the address free. With --readonly no byte of the file changes and commits are refused; without --repair a damaged file is refused and unchanged; --gcbytes, --storage-class, the address, owner, group and umask take effect. The interactive client gives access to the root of the named file or server, runs the startup file first, keeps only what was committed, and writes nothing with --readonly. The pack command removes exactly the unreachable records. A wrong command line ends with a failure status and touches no file.",
  ["configurations", "histories"],
  "every combination of command, file state and options with a scripted sequence of client actions",
  "The tests do not run the commands; the options reach the storages and the server through several layers of defaults.",
  ["durus/__main__.py", "durus/storage_server.py"],
  [("option handling", "run_durus_main, client_main, pack_storage_main"), ("start and stop", "start_durus, stop_durus, StorageServer.handle_Q"), ("interactive client", "interactive_client")],
  [], ["exit status, files, sockets, clients of the running server"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
