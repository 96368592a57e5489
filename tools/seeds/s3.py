import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mk
exec(open('/verif/tools/seeds/common.py').read())

mk('C03-a', 'C03', [('durus/persistent_set.py', '''            self.s -= other.s
''', '''            for item in other.s:
                self.s.discard(item)
''')], '''
from durus.persistent_set import PersistentSet
s = PersistentSet([1, 2, 3])
s -= PersistentSet([3])
assert sorted(s) == [1, 2]
s -= s
assert len(s) == 0
''', 'a set that is subtracted from itself in place', 'RuntimeError, and one item is gone')

mk('C05-a', 'C05', [('durus/serialize.py', '''        self._setup_pickler()
        self.objects_found = []
        self.refs = set() # populated by _persistent_id()
''', '''        self.refs = set() # populated by _persistent_id()
        self._setup_pickler()
'''), ('durus/serialize.py', '''        self.sio = BytesIO()
        self.pickler =''', '''        self.sio = BytesIO()
        self.objects_found = [] # populated by _persistent_id()
        self.pickler =''')], '''
from durus.storage import MemoryStorage
from durus.connection import Connection
from durus.persistent import Persistent
class P(Persistent): pass
import random
r = random.Random(1)
s = MemoryStorage()
c = Connection(s)
x = P()
c.get_root()['x'] = x
for i in range(8):
    x.data = r.randbytes(6000)
    x.next = P()
    x = x.next
c.commit()
x = Connection(s).get_root()['x']
for i in range(8):
    len(x.data)
    x = x.next
    x._p_oid, x.__dict__
    Connection(s)[x._p_oid]._p_oid
''', 'a commit of a chain of new objects with more than 20000 bytes', 'the rest of the chain is not stored')

mk('C06-a', 'C06', [('durus/connection.py', '''                self.storage.end(self._handle_invalidations)
''', '''                changed, self.changed = self.changed, {}
                self.storage.end(self._handle_invalidations)
'''), ('durus/connection.py', '''            self.changed.clear()
        self.shrink_cache()
''', '''        self.shrink_cache()
''')], '''
from durus.file_storage import FileStorage
from durus.connection import Connection
s = FileStorage(D + '/x')
c = Connection(s)
r = c.get_root()
r['a'] = 1
c.commit()
write = s.shelf.file.write
def bad(data):
    raise IOError('disk full')
r['a'] = 2
s.shelf.file.write = bad
try:
    c.commit()
except IOError:
    pass
else:
    assert 0
s.shelf.file.write = write
c.abort()
assert r['a'] == 1, r['a']
''', 'an I/O error of the commit, followed by abort', 'the failed changes stay visible in this connection')

mk('C10-b', 'C10', [('durus/shelf.py', '''                for j in self.offset_map.gen_holes():
                    name = int8_to_str(j)
                    if name not in self.memory_index:
                        yield name
''', '''                for j in self.offset_map.gen_holes():
                    yield int8_to_str(j)
''')], '''
from durus.file_storage import FileStorage
from durus.connection import Connection
from durus.persistent import Persistent
class P(Persistent): pass
s = FileStorage(D + '/x')
c = Connection(s)
r = c.get_root()
for k in 'abcd':
    r[k] = P()
c.commit()
del r['a']; del r['c']
c.commit()
c.pack()
c.commit()
s.close()
for k in 'efgh':
    s = FileStorage(D + '/x')
    c = Connection(s)
    r = c.get_root()
    x = r[k] = P()
    c.commit()
    assert [i for i in r if r[i]._p_oid == x._p_oid] == [k]
    s.close()
''', 'a pack that leaves a hole, which a new object then gets, reopening, another new object', 'the other one gets the same oid')

mk('C11-a', 'C11', [('durus/file.py', '''    def write(self, s):
        self.obtain_lock()
''', '''    unsynced = 0 # bytes written since fsync()

    def write(self, s):
        self.obtain_lock()
        self.unsynced += len(s)
'''), ('durus/file.py', '''        self.file.flush()

''', '''        self.file.flush()
        self.unsynced = 0

'''), ('durus/file.py', '''        if hasattr(os, 'fsync'):
            os.fsync(self.file)
''', '''        if self.unsynced:
            os.fsync(self.file)
            self.unsynced = 0
''')], '''
from durus.file_storage import FileStorage
from durus.connection import Connection
s = FileStorage(D + '/x')
c = Connection(s)
c.get_root()['a'] = os.urandom(1000)
c.commit()
synced = []
fsync = os.fsync
def note(fd):
    fsync(fd)
    synced.append(os.stat(D + '/x').st_size)
os.fsync = note
if hasattr(os, 'fdatasync'):
    os.fdatasync = note
c.get_root()['a'] = 2
c.commit()
assert synced and synced[-1] == os.stat(D + '/x').st_size
''', 'a power failure after a commit (flush() clears the count that fsync() looks at)', 'the acknowledged transaction is lost')

mk('C13-a', 'C13', [('durus/sqlite_storage.py', '''            self._conn = sqlite3.connect(filename)
            self._last_oid = self._get_last_oid()
''', '''            # (The transactions are already grouped by executemany().)
            self._conn = sqlite3.connect(filename, isolation_level=None)
            self._last_oid = self._get_last_oid()
''')], '''
import durus.sqlite_storage as q
from durus.connection import Connection
from durus.serialize import unpack_record
def open_():
    s = q.SqliteStorage(D + '/x')
    return s, Connection(s)
s, c = open_()
r = c.get_root()
r['a'] = type(r)(v=1)
r['b'] = type(r)(v=1)
c.commit()
s.close()
for n in range(1, 4):
    pid = os.fork()
    if pid == 0:
        s, c = open_()
        r = c.get_root()
        r['a']['v'] = r['b']['v'] = 1 + n
        count = [0]
        def unpack(record):
            count[0] += 1
            if count[0] > n: os._exit(0)
            return unpack_record(record)
        q.unpack_record = unpack
        c.commit()
        os._exit(0)
    os.waitpid(pid, 0)
    s, c = open_()
    r = c.get_root()
    assert r['a']['v'] == r['b']['v'], n
    s.close()
''', 'a crash in the middle of a commit to a database that was opened again', 'part of the transaction is stored')

mk('C21-a', 'C21', [('durus/file_storage2.py', '''            oids = {}
            transaction_offset = self.fp.tell()
''', '''            oids = self.index
            transaction_offset = self.fp.tell()
'''), ('durus/file_storage2.py', '''                self.index.update(oids)
                oids.clear()
''', '''''')], '''
from durus.file_storage2 import FileStorage2
from durus.connection import Connection
name = D + '/x'
s = FileStorage2(name)
c = Connection(s)
r = c.get_root()
r['a'] = type(r)(v=1)
r['b'] = type(r)(v=1)
c.commit()
s.close()
start = os.path.getsize(name)
s = FileStorage2(name)
c = Connection(s)
r = c.get_root()
r['a']['v'] = r['b']['v'] = 2
c.commit()
s.close()
data = open(name, 'rb').read()
for n in range(start, len(data)):
    open(D + '/y', 'wb').write(data[:n])
    s = FileStorage2(D + '/y', repair=True)
    r = Connection(s).get_root()
    assert r['a']['v'] == r['b']['v'] == 1, n
    s.close()
''', 'opening with repair a copy that ends in a transaction with more than one object', 'objects of the removed transaction are looked for beyond the end of the file')

mk('C24-a', 'C24', [('durus/connection.py', '''            if obj._p_is_saved():
                obj._p_set_status_ghost()
                num_ghosted += 1
''', '''            if not obj._p_is_ghost():
                obj._p_set_status_ghost()
                num_ghosted += 1
''')], '''
from durus.storage import MemoryStorage
from durus.connection import Connection
from durus.persistent import Persistent
class P(Persistent): pass
s = MemoryStorage()
c = Connection(s, cache_size=1)
r = c.get_root()
for i in range(5):
    r[i] = P()
    r[i].v = 0
c.commit()
objs = [r[i] for i in range(5)]
c.commit()
for o in objs: o.v
c.abort()
for o in objs: o._p_note_change(); 
objs[0].v = 7
for o in objs[1:]: o.v = 8
c.shrink_cache()
c.commit()
r = Connection(s).get_root()
assert [r[i].v for i in range(5)] == [7, 8, 8, 8, 8], [r[i].v for i in range(5)]
''', 'shrink_cache() while there are objects that were modified, but not read, in this transaction', 'the modifications are lost')
