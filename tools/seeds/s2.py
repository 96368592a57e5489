import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mk
exec(open('/verif/tools/seeds/common.py').read())

mk('C01-a', 'C01', [('durus/btree.py', '''            for item in self.nodes[position].iter_backward_from(key):
                yield item
''', '''            if position == len(self.items) or self.items[position][0] != key:
                for item in self.nodes[position].iter_backward_from(key):
                    yield item
''')], '''
from durus.btree import BTree, BNode
for n in range(1, 30):
    t = BTree(BNode)
    for i in range(n): t[i] = i
    for k in range(n):
        got = [i for i, v in t.items_backward_from(k)]
        assert got == list(range(k - 1, -1, -1)), (n, k, got)
''', 'iterating backward from a key that is in an inner node', 'the items in the subtree just before the key are left out')

mk('C04-a', 'C04', [('durus/persistent_dict.py', '''    def __setitem__(self, key, item):
        self._p_note_change()
        self.data[key] = item
''', '''    def __setitem__(self, key, item):
        if key not in self.data or self.data[key] != item:
            self._p_note_change() # otherwise nothing changes
        self.data[key] = item
''')], '''
from durus.storage import MemoryStorage
from durus.connection import Connection
s = MemoryStorage()
c = Connection(s)
r = c.get_root()
r['a'] = 1
c.commit()
r['a'] = True
c.commit()
assert Connection(s).get_root()['a'] is True
r['a'] = 1
c.abort()
assert r['a'] is True
''', 'replacing a value by an equal one that is not the same (1 by True or 1.0, an equal copy of a mutable one)', 'the new value is not stored by commit nor undone by abort')

mk('C12-a', 'C12', [('durus/file_storage2.py', '''                    self.fp.seek(transaction_offset)
                    self.fp.truncate()
''', '''                    # Keep the object records that are complete.
                    self.fp.seek(object_record_offset)
                    self.fp.truncate()
''')], '''
from durus.file_storage2 import FileStorage2
from durus.connection import Connection
from durus.persistent import Persistent
f = os.path.join(D, 'x')
s = FileStorage2(f)
c = Connection(s)
r = c.get_root()
r['x'] = Persistent(); r['x'].v = 0
r['y'] = Persistent(); r['y'].v = 0
r['z'] = Persistent(); r['z'].v = 0
c.commit()
size = os.path.getsize(f)
r['x'].v = 1
r['y'].v = 1
c.commit()
s.close()
data = open(f, 'rb').read()
for n in range(size, len(data)):
    open(f, 'wb').write(data[:n])
    s = FileStorage2(f, repair=True)
    c = Connection(s)
    r = c.get_root()
    assert r['x'].v == r['y'].v == 0
    r['z'].v = 2
    c.commit()
    s.close()
    s = FileStorage2(f)
    r = Connection(s).get_root()
    assert r['x'].v == r['y'].v == 0, (n, r['x'].v, r['y'].v)
    s.close()
''', 'a crash in a commit of two objects, after the record of the first, then repair, and another commit', 'part of the interrupted transaction becomes part of the next one')

mk('C29-a', 'C29', [('durus/file_storage2.py', '''                if self.fp.tell() > transaction_offset:
''', '''                if self.fp.tell() > transaction_offset + 4:
''')], '''
from durus.file_storage2 import FileStorage2
from durus.connection import Connection
f = os.path.join(D, 'x')
s = FileStorage2(f)
c = Connection(s)
c.get_root()['x'] = 1
c.commit()
size = os.path.getsize(f)
c.get_root()['x'] = 2
c.commit()
s.close()
data = open(f, 'rb').read()
for n in range(size + 1, len(data)):
    open(f, 'wb').write(data[:n])
    try:
        s = FileStorage2(f)
    except IOError:
        continue
    assert 0, 'damage not noticed, %d bytes' % (n - size)
''', 'a file that ends with one to three bytes of a transaction', 'the file is accepted as undamaged, and what is appended to it cannot be read')

mk('C30-a', 'C30', [('durus/file_storage.py', '''    def end(self, handle_invalidations=None):
        self.shelf.store(''', '''    def end(self, handle_invalidations=None):
        self.allocated_unused_oids -= set(self.pending_records)
        self.shelf.store('''), ('durus/file_storage.py', '''            self.pack_extra.update(self.pending_records)
        self.allocated_unused_oids -= set(self.pending_records)
''', '''            self.pack_extra.update(self.pending_records)
''')], '''
import durus.file
from durus.file_storage import FileStorage
from durus.connection import Connection
from durus.persistent import Persistent
from durus.storage import Storage
from durus.serialize import pack_record
f = os.path.join(D, 'x')
s = FileStorage(f)
c = Connection(s)
oid = s.new_oid()
def store():
    s.begin()
    s.store(oid, pack_record(oid, b'abc', b''))
    s.end()
real = os.write
def no(*args): raise OSError(28, 'no space')
os.write = no
try:
    try: store()
    except OSError: pass
    else: assert 0
finally: os.write = real
store()
assert s.load(oid)
''', 'a commit with a new object that fails with an I/O error, and is tried again', 'the storage refuses the object as a surprise')

mk('C22-a', 'C22', [('durus/utils.py', '''                int8_to_str(maximum_int + 1).lstrip(as_bytes('\\0')))
''', '''                int8_to_str(maximum_int).lstrip(as_bytes('\\0')))
''')], '''
from durus.utils import IntArray
for m in (1, 2, 254, 255, 256, 65534, 65535, 65536):
    a = IntArray(number_of_ints=3, maximum_int=m)
    a[1] = m
    assert a.get(1) == m and list(a.items()) == [(1, m)], m
''', 'a maximum of the form 256**n - 1', 'that number is taken for the blank value: it is not in the array')

mk('C23-a', 'C23', [('durus/persistent.py', '''        self.__setstate__(None)
        self._p_note_change()
''', '''        if _hasattribute(self, 'value'):
            self.__setstate__(None)
            self._p_note_change()
''')], START + '''
    from durus.persistent import ComputedAttribute
    a = Connection(ClientStorage(address=sock))
    r = a.get_root()
    r['x'] = 1
    r['c'] = ComputedAttribute()
    a.commit()
    b = Connection(ClientStorage(address=sock))
    c = b.get_root()['c']
    assert c.get(lambda: b.get_root()['x']) == 1
    b.abort()
    r['x'] = 2
    r['c'].invalidate()
    a.commit()
    b.abort()
    assert c.get(lambda: b.get_root()['x']) == 2
''' + END, 'a client that invalidates an attribute which it has not computed itself, and another one that has', 'the other client keeps the outdated value')

mk('C27-a', 'C27', [('durus/storage_server.py', '''            if error in (errno.ENOENT, errno.ENOTSOCK, errno.ECONNREFUSED):
''', '''            if error in (errno.ENOENT, errno.ENOTSOCK, errno.ECONNREFUSED,
                         errno.EACCES):
''')], '''
import pwd, socket
assert os.geteuid() == 0
os.chmod(D, 0o777)
path = os.path.join(D, 's')
s = socket.socket(socket.AF_UNIX)
s.bind(path)
s.listen(5)
os.chmod(path, 0o700)
ino = os.stat(path).st_ino
from durus.storage_server import SocketAddress
pid = os.fork()
if pid == 0:
    os.setuid(pwd.getpwnam('nobody').pw_uid)
    try: SocketAddress.new(path).get_listening_socket()
    except BaseException: pass
    os._exit(0)
os.waitpid(pid, 0)
assert os.path.exists(path) and os.stat(path).st_ino == ino, 'socket of a live server replaced'
''', 'a live server of another user whose socket may not be used, in a directory where files may be removed', 'its socket is taken for stale and replaced')

mk('C28-a', 'C28', [('durus/__main__.py', '''    elif d.startswith(b'SHELF-1'):
''', '''    elif d.startswith(b'SHELF-'):
'''), ('durus/shelf.py', '''        return klass.prefix == prefix
''', '''        return prefix.startswith(klass.prefix[:6])
''')], '''
from durus.file_storage import FileStorage
from durus.__main__ import get_storage
from durus.connection import Connection
f = os.path.join(D, 'x')
s = FileStorage(f)
c = Connection(s)
s.close()
data = bytearray(open(f, 'rb').read())
data[6:7] = b'2'
open(f, 'wb').write(data)
try: s = get_storage(f)
except Exception: pass
else: assert 0, 'opened a file of an unknown format'
''', 'a shelf file of another version', 'it is opened, and written, as if it were of version 1')

mk('C26-a', 'C26', [('bin/db_to_py3k.py', '''    if len(value) == 8 and value[:4] == b'\\0\\0\\0\\0':
''', '''    if len(value) == 8 and value[:7] == b'\\0\\0\\0\\0\\0\\0\\0':
''')], '''
import subprocess, pickle, io, struct
from durus.file_storage import FileStorage
from durus.serialize import pack_record
from durus.connection import Connection
def i8(n): return struct.pack('>Q', n)
def s2(b): return b'U' + bytes([len(b)]) + b       # SHORT_BINSTRING
CLS = b'\\x80\\x02cdurus.persistent_dict\\nPersistentDict\\nq\\x00.'
def record(oid, refs):
    body = b'\\x80\\x02}(' + s2(b'data') + b'}('
    for n, o in enumerate(refs):
        body += b'M' + struct.pack('<H', n) + b'(' + s2(i8(o)) + b'cdurus.persistent_dict\\nPersistentDict\\ntQ'
    body += b'uu.'
    return pack_record(i8(oid), CLS + body, b''.join(i8(o) for o in refs))
f = os.path.join(D, 'x'); g = os.path.join(D, 'y')
s = FileStorage(f)
for i in range(400): s.new_oid()
s.begin()
s.store(i8(0), record(0, list(range(1, 400))))
for i in range(1, 400): s.store(i8(i), record(i, []))
s.end()
s.close()
p = subprocess.run([sys.executable, 'bin/db_to_py3k.py', f, g], env=dict(os.environ, PYTHONPATH=os.getcwd()), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
assert p.returncode == 0, p.stdout[-1500:]
c = Connection(FileStorage(g))
r = c.get_root()
assert len(r) == 399
for i in range(399):
    assert r[i]._p_oid == i8(i + 1) and not len(r[i]), i
''', 'a Python 2 database with more than 255 objects', 'references to objects from the 256th on do not survive the conversion')

mk('C18-a', 'C18', [('durus/serialize.py', '''        self._setup_pickler()
        self.objects_found = []
        self.refs = set() # populated by _persistent_id()
        self.connection = connection

    def _setup_pickler(self):
''', '''        self.connection = connection
        self._setup_pickler()

    def _setup_pickler(self):
        self.objects_found = []
        self.refs = set() # populated by _persistent_id()
''')], '''
from durus.storage import MemoryStorage
from durus.connection import Connection
from durus.persistent import Persistent
s = MemoryStorage()
c = Connection(s)
r = c.get_root()
a = r['a'] = Persistent()
a.text = ' '.join(map(str, range(30000)))
a.text2 = [os.urandom(20) for i in range(3000)]
a.b = Persistent(); a.b.v = os.urandom(30000)
a.b.c = Persistent(); a.b.c.v = 5
a.b.c.d = Persistent(); a.b.c.d.v = 6
c.commit()
r2 = Connection(s).get_root()
assert r2['a'].b.c.v == 5
assert r2['a'].b.c.d.v == 6
''', 'a new object found after more than 20000 bytes were written for one changed object', 'the new object is not stored, the reference to it dangles')

mk('C19-a', 'C19', [('durus/utils.py', '''            hunk = f.recv(min(remaining, 1000000))
''', '''            hunk = f.recv(min(n, 1000000))
''')], '''
import socket, threading, time
from durus.utils import read, read_int4
a, b = socket.socketpair()
def send():
    for part in (b'\\0\\0', b'\\0\\x03ab', b'cC'):
        a.sendall(part); time.sleep(.2)
t = threading.Thread(target=send); t.start()
n = read_int4(b)
assert n == 3
assert read(b, 3) == b'abc'
assert read(b, 1) == b'C'
t.join()
''', 'a packet boundary inside a field of a message, with the next field already there', 'part of the next field is taken as part of this one and the connection is out of step')

mk('C20-a', 'C20', [('durus/_persistent.c', '''			return strcmp(s, "class__");
''', '''			return strncmp(s, "class", 5);
''')], '''
from durus.storage import MemoryStorage
from durus.connection import Connection
from durus.persistent import Persistent
class T(Persistent): pass
sys.modules['__main__'].T = T
s = MemoryStorage()
c = Connection(s)
t = c.get_root()['t'] = T()
setattr(t, '__classify', 1)
c.commit()
t._p_set_status_ghost()
assert getattr(t, '__classify') == 1
setattr(t, '__classify', 2)
c.commit()
assert getattr(Connection(s).get_root()['t'], '__classify') == 2
''', 'an attribute with a name that starts with __class', 'it is not loaded from, nor stored in the database, when the C extension is used')

mk('C25-a', 'C25', [('durus/storage.py', '''        if referred_oid in split_oids(unpack_record(record)[2]):
''', '''        if referred_oid in unpack_record(record)[2]:
''')], '''
from durus.storage import MemoryStorage, gen_referring_oid_record
from durus.serialize import pack_record
from durus.utils import int8_to_str as i8
s = MemoryStorage()
s.begin()
refs = {0: [1, 256, 257], 1: [256], 256: [], 257: [1]}
for n in refs: s.store(i8(n), pack_record(i8(n), b'x', b''.join(map(i8, refs[n]))))
s.end()
for n in range(1, 70000, 1):
    if n in (1, 256, 257) or n % 256 == 0:
        got = sorted(o for o, r in gen_referring_oid_record(s, i8(n)))
        assert got == sorted(i8(m) for m in refs if n in refs[m]), (n, got)
''', 'references whose concatenated bytes contain those of another oid', 'objects are reported that do not refer to the given one')

mk('C16-a', 'C16', [('durus/file_storage2.py', '''        if not readonly:
            file.obtain_lock()
        self.fp = file
''', '''        self.fp = file
'''), ('durus/file_storage2.py', '''        self.oid = max_oid
        self.invalid = set()
''', '''        self.oid = max_oid
        self.invalid = set()
        if not readonly:
            self.fp.obtain_lock()
''')], '''
from durus.file_storage2 import FileStorage2
from durus.connection import Connection
import durus.file
f = os.path.join(D, 'x')
s = FileStorage2(f)
c = Connection(s)
c.get_root()['a'] = 1
c.commit()
s.close()
# the other process commits and closes just before this one locks
real = durus.file.File.obtain_lock
done = []
def obtain_lock(self):
    if not done:
        done.append(1)
        durus.file.File.obtain_lock = real
        s = FileStorage2(f)
        c = Connection(s)
        c.get_root()['a'] = 2
        c.commit()
        s.close()
    return real(self)
durus.file.File.obtain_lock = obtain_lock
s = FileStorage2(f)
assert Connection(s).get_root()['a'] == 2
''', 'another process that commits and closes the file between reading of the index and locking', 'the commit of the other process is not seen, and lost with the next pack or overwritten')

mk('C15-a', 'C15', [('durus/file_storage2.py', '''        self._write_header(packed)
        # find all''', '''        if len(packed) == 0:
            self._write_header(packed)
        # find all'''), ('durus/file_storage2.py', '''            # packed contains data left from an incomplete pack attempt.
            packed.seek(0)
            packed.truncate()
''', '''            # packed contains data left from an incomplete pack attempt.
            packed.seek(len(self.MAGIC) + 8)
            packed.truncate()
''')], '''
from durus.file_storage2 import FileStorage2
from durus.connection import Connection
f = os.path.join(D, 'x')
s = FileStorage2(f)
c = Connection(s)
c.get_root()['a'] = 1
c.commit()
s.close()
good = open(f, 'rb').read()
for n in range(0, 40):
    open(f, 'wb').write(good)
    open(f + '.pack', 'wb').write(good[:n])
    s = FileStorage2(f)
    c = Connection(s)
    c.pack()
    c.get_root()['a'] = 2
    c.commit()
    s.close()
    s = FileStorage2(f)
    assert Connection(s).get_root()['a'] == 2
    s.close()
''', 'a pack that was interrupted before its header was complete, then another pack', 'the new file has no valid header')

mk('C17-a', 'C17', [('durus/shelf.py', '''            if position < self.offset_map.get_start():
                name = int8_to_str(n)
                if name not in self.memory_index:
                    yield name, position
        for item in list(self.memory_index.items()):
            yield item
''', '''            if position < self.offset_map.get_start():
                name = int8_to_str(n)
                yield name, self.memory_index.get(name, position)
        n = self.offset_map.get_array_size()
        for name, position in list(self.memory_index.items()):
            if str_to_int8(name) >= n:
                yield name, position
''')], '''
from durus.file_storage import FileStorage
from durus.connection import Connection
from durus.persistent import Persistent
f = os.path.join(D, 'x')
s = FileStorage(f)
c = Connection(s)
r = c.get_root()
for i in range(5): r[i] = Persistent()
c.commit()
del r[1], r[2]
c.commit()
c.pack()
r[1] = Persistent()
r[2] = Persistent()
c.commit()
got = sorted(o for o, rec in s.gen_oid_record())
want = sorted([r._p_oid] + [r[i]._p_oid for i in range(5)])
assert got == want, (got, want)
''', 'an object that got the oid of one removed by a pack, and a full listing', 'the object is missing in the listing')

mk('C07-a', 'C07', [('durus/connection.py', '''        self.cache.recent_objects.add(obj)
''', '''        if len(self.cache.recent_objects) > 2 * self.cache.size:
            self.cache.recent_objects.map.clear() # keep it small
        self.cache.recent_objects.add(obj)
''')], START + '''
    a = Connection(ClientStorage(address=sock))
    r = a.get_root()
    for k in range(8):
        r[k] = Persistent(); r[k].v = 0
    a.commit()
    oids = [r[k]._p_oid for k in range(8)]
    b = Connection(ClientStorage(address=sock), cache_size=1)
    b.get_root()._p_set_status_ghost()
    x = b.get(oids[0]).v
    for k in range(2, 6): b.get(oids[k]).v
    import gc; gc.collect()
    r[0].v = 1
    a.commit()
    b.get(oids[1]).v = x + 10
    try: b.commit()
    except WriteConflictError: pass
    else: assert 0, 'a commit based on an outdated read'
''' + END, 'a transaction of a client with a small cache that reads more objects than fit, dropping them, then another client changing one of them', 'the conflict is not noticed')
