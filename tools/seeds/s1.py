import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mk

mk('C14-a', 'C14', [('durus/file_storage.py', '''            self.pack_extra.update(self.pending_records)
''', '''            self.pack_extra.update(self.allocated_unused_oids.intersection(self.pending_records))
''')], '''
from durus.file_storage import FileStorage
from durus.connection import Connection
from durus.persistent import Persistent
f = os.path.join(D, 'x')
s = FileStorage(f)
c = Connection(s)
r = c.get_root()
for i in range(5):
    r[i] = Persistent(); r[i].v = 0
c.commit()
packer = s.get_packer()
n = 0
for step in packer:
    n += 1
    if n > 2: break
for i in range(5): r[i].v = 1
c.commit()
for step in packer: pass
c2 = Connection(s)
for i in range(5): assert c2.get_root()[i].v == 1, i
s.close()
s = FileStorage(f)
for i in range(5): assert Connection(s).get_root()[i].v == 1, i
''', 'a commit that only modifies existing objects while a pack is running and has already copied them',
'the modification is lost when the pack completes')

mk('C10-a', 'C10', [('durus/storage_server.py', '''        client.invalid.clear()
        tdata = read_int4_str(s)
''', '''        client.invalid.clear()
        client.unused_oids.clear()
        tdata = read_int4_str(s)
'''), ('durus/file_storage.py', '''            if name in self.allocated_unused_oids:
                continue
''', '''            if name in self.pending_records:
                continue
''')], '''
from durus.file_storage import FileStorage
from durus.connection import Connection
from durus.persistent import Persistent
f = os.path.join(D, 'x')
s = FileStorage(f)
c = Connection(s)
r = c.get_root()
r['a'] = Persistent(); c.commit()
first = [s.new_oid() for i in range(3)]
for step in s.get_packer(): pass
second = [s.new_oid() for i in range(3)]
assert not set(first) & set(second), (first, second)
''', 'an oid handed out and not used before a pack completes, and another allocated after it',
'after the pack the new shelf hands the same oid out again')


START = 'import subprocess, time\nfrom durus.client_storage import ClientStorage\nfrom durus.connection import Connection\nfrom durus.persistent import Persistent\nfrom durus.error import ConflictError, ReadConflictError, WriteConflictError\nsock = os.path.join(D, \'s\')\np = subprocess.Popen([sys.executable, \'-c\', "from durus.storage_server import StorageServer; from durus.storage import MemoryStorage; StorageServer(MemoryStorage(), address=%r).serve()" % sock])\ntry:\n    for i in range(200):\n        if os.path.exists(sock): break\n        time.sleep(.05)\n    time.sleep(.3)\n'
END = '\nfinally:\n    p.kill(); p.wait()\n'

mk('C02-a', 'C02', [('durus/btree.py', '''                            node.nodes = lower_sibling.nodes + node.nodes
''', '''                            lower_sibling.nodes.extend(node.nodes)
                            node.nodes = lower_sibling.nodes
''')], '''
from durus.file_storage import FileStorage
from durus.connection import Connection
from durus.btree import BTree, BNode
f = os.path.join(D, 'x')
bad = []
for n in range(8, 40):
    if os.path.exists(f): os.unlink(f)
    s = FileStorage(f)
    c = Connection(s)
    t = c.get_root()['t'] = BTree(BNode)
    for i in range(n): t[i] = i
    c.commit()
    for k in range(n):
        want = list(t.items())
        del t[k]
        c.abort()
        got = list(t.items())
        if want != got: bad.append((n, k))
    s.close()
assert not bad, bad[:5]
''', 'a tree of three or more levels, a deletion that merges an internal node with its lower sibling, then abort while the sibling is in memory',
'after the abort the sibling keeps the child nodes of the other')

mk('C08-a', 'C08', [('durus/storage_server.py', '''        for oid in oids:
            self._send_load_response(s, oid)
''', '''        client = self._find_client(s)
        invalid = client.invalid
        if not invalid.intersection(oids[:1]):
            client.invalid = set() # checked for the whole batch
        for oid in oids:
            self._send_load_response(s, oid)
        client.invalid = invalid
''')], START + '''
    a = Connection(ClientStorage(address=sock))
    r = a.get_root()
    for k in 'xyz':
        r[k] = Persistent(); r[k].v = 0
    a.commit()
    b = Connection(ClientStorage(address=sock))
    x = b.get_root()['z']
    b.abort()
    first = x.v
    for k in 'yz': r[k].v = 1
    a.commit()
    try:
        seen = [o.v for o in b.get_crawler() if o is not b.get_root() and o is not b.get_root()['x']]
    except ReadConflictError:
        seen = []
    assert len(set(seen + [first])) == 1, (first, seen)
''' + END, 'a crawl in a transaction that has read one object, after another client changed it and others in the same commit',
'the crawl returns new states together with an old one')

mk('C09-a', 'C09', [('durus/connection.py', '''        for oid, obj in iteritems(self.changed):
            obj._p_set_status_ghost()
        self.changed.clear()
        self._sync()
        self.shrink_cache()
        self.transaction_serial += 1
''', '''        if self.changed:
            self.transaction_serial += 1
        for oid, obj in iteritems(self.changed):
            obj._p_set_status_ghost()
        self.changed.clear()
        self._sync()
        self.shrink_cache()
''')], START + '''
    a = Connection(ClientStorage(address=sock))
    r = a.get_root()
    for k in 'xy':
        r[k] = Persistent(); r[k].v = 0
    a.commit()
    b = Connection(ClientStorage(address=sock))
    x = b.get_root()['x']
    y = b.get_root()['y']
    y.v
    x.v
    b.abort()
    r['y'].v = 1
    a.commit()
    x.v = 1
    b.commit()         # y was not touched since the abort
''' + END, 'an object read before an abort of a transaction without changes, changed by another client after it, and a commit that does not touch it',
'a write conflict although nothing the transaction accessed was changed')

mk('C08-b', 'C08', [('durus/connection.py', '''        conflicts = []
        for oid in oids:
            obj = self.cache.get(oid)
''', '''        conflicts = []
        if read_oid is not None and read_oid in oids:
            oids = [read_oid] # the others are found when they are read
        for oid in oids:
            obj = self.cache.get(oid)
''')], START + '''
    a = Connection(ClientStorage(address=sock))
    r = a.get_root()
    for k in 'xy':
        r[k] = Persistent(); r[k].v = 0
    a.commit()
    b = Connection(ClientStorage(address=sock))
    x = b.get_root()['x']
    y = b.get_root()['y']
    b.abort()
    first = x.v
    for k in 'xy': r[k].v = 1
    a.commit()
    try:
        second = y.v
    except ReadConflictError:
        pass
    else:
        assert first == second, (first, second)
''' + END, 'an object read, another client changing it and a ghost in one commit, then loading the ghost',
'a read of new state after old state was read in the same transaction')

