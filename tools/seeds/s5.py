import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mk
exec(open('/verif/tools/seeds/common.py').read())

mk('C08-c', 'C08', [('durus/storage_server.py', '''        log(8, 'Sync %s', len(client.invalid))
        write_all(s,
            int4_to_str(len(client.invalid)), join_bytes(client.invalid))
''', '''        log(8, 'Sync %s', len(client.invalid))
        invalid = sorted(client.invalid)[:512] # Keep the answer short.
        write_all(s, int4_to_str(len(invalid)), join_bytes(invalid))
''')], '''
import subprocess, time
from durus.client_storage import ClientStorage
from durus.connection import Connection
from durus.persistent import Persistent
class P(Persistent): pass
sock = D + '/s'
p = subprocess.Popen([sys.executable, '-c', "from durus.storage_server import StorageServer; from durus.storage import MemoryStorage; StorageServer(MemoryStorage(), address=%r).serve()" % sock])
try:
    for i in range(400):
        if os.path.exists(sock): break
        time.sleep(.05)
    time.sleep(.3)
    a = Connection(ClientStorage(address=sock))
    r = a.get_root()
    for k in range(600):
        r[k] = P()
        r[k].value = 1
    a.commit()
    b = Connection(ClientStorage(address=sock))
    seen = [b.get_root()[k] for k in range(600)]
    assert [x.value for x in seen] == [1] * 600
    for k in range(600):
        r[k].value = 2
    a.commit()
    b.abort()
    got = set(x.value for x in seen)
finally:
    p.terminate()
    p.wait()
assert got == {2}, got
''', 'one transaction changes more than 512 objects that another client has in its cache',
   'the other client goes on with the old states of the rest, after its transaction began')

mk('C17-b', 'C17', [('durus/client_storage.py', '''        oid_str = join_bytes(oids)
        num_oids, remainder = divmod(len(oid_str), 8)
        assert remainder == 0, remainder
        write_all(self.s, 'B', int4_to_str(num_oids), oid_str)
''', '''        oid_str = join_bytes(oids)
        num_oids, remainder = divmod(len(oid_str), 8)
        assert remainder == 0, remainder
        write_all(self.s, 'B', int4_to_str(num_oids), oid_str[:8192])
        if num_oids > 1024:
            # The rest may have to wait for the server.
            j = 8192
            for j in range(8192, len(oid_str) - 8192 + 1, 8192):
                write(self.s, oid_str[j:j + 8192])
            write(self.s, oid_str[j:])
''')], '''
import subprocess, time, threading
from durus.client_storage import ClientStorage
from durus.connection import Connection
from durus.persistent import Persistent
class P(Persistent): pass
sock = D + '/s'
p = subprocess.Popen([sys.executable, '-c', "from durus.storage_server import StorageServer; from durus.storage import MemoryStorage; StorageServer(MemoryStorage(), address=%r).serve()" % sock])
try:
    for i in range(400):
        if os.path.exists(sock): break
        time.sleep(.05)
    time.sleep(.3)
    s = ClientStorage(address=sock)
    s.s.settimeout(20)
    a = Connection(s)
    r = a.get_root()
    for k in range(3000):
        r[k] = P()
    a.commit()
    oids = [r[k]._p_oid for k in range(3000)]
    got = []
    for n in (10, 1024, 1025, 2000, 3000):
        got.append([x[:8] for x in s.bulk_load(oids[:n])] == oids[:n])
finally:
    p.terminate()
    p.wait()
assert got == [True] * 5, got
''', 'a bulk load of more than 1024 objects through a server',
   'the request sends some oids twice or not at all, so that other records come back')
mk('C18-b', 'C18', [('durus/serialize.py', '''        if WRITE_COMPRESSED_STATE_PICKLES:
            state = compress(pickled_state)
''', '''        if WRITE_COMPRESSED_STATE_PICKLES and len(pickled_state) < 65536:
            state = compress(pickled_state)
        elif WRITE_COMPRESSED_STATE_PICKLES:
            # Use less memory for large states.
            pieces = [pickled_state[j:j + 65536] for j in range(0, len(pickled_state), 65536)]
            state = join_bytes([compress(piece) for piece in pieces])
''')], '''
from durus.connection import Connection
from durus.file_storage import FileStorage
s = FileStorage(D + '/x')
c = Connection(s)
c.get_root()['a'] = 'small'
c.commit()
c.get_root()['b'] = b = ''.join(chr(32 + i * i % 90) for i in range(70000))
c.commit()
got = Connection(s).get_root()
assert got['a'] == 'small' and got['b'] == b
''', 'the state of an object is longer than 65535 bytes', 'the state cannot be read again')
