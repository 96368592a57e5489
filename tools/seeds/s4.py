import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mk
exec(open('/verif/tools/seeds/common.py').read())

mk('C31-a', 'C31', [('durus/storage_server.py', '''        self.gcbytes = gcbytes # Trigger a pack after this many bytes.
''', '''        self.gcbytes = gcbytes # Trigger a pack after this many bytes.
        self.packed = False # Was there a pack?
'''), ('durus/storage_server.py', '''        if self.packer is None:
            log(20, 'Pack started at %s' % datetime.now())
''', '''        if self.packer is None and self.packed and not self.bytes_since_pack:
            log(20, 'Nothing to pack at %s' % datetime.now())
        elif self.packer is None:
            log(20, 'Pack started at %s' % datetime.now())
'''), ('durus/storage_server.py', '''                        self.packer = None # done packing
''', '''                        self.packer = None # done packing
                        self.packed = True
''')], '''
import subprocess, time
from durus.client_storage import ClientStorage
from durus.connection import Connection
from durus.file_storage import FileStorage
from durus.persistent import Persistent
class P(Persistent): pass
name = D + '/x'
sock = D + '/s'
s = FileStorage(name)
c = Connection(s)
r = c.get_root()
for k in range(20000):
    r[k] = P()
c.commit()
s.close()
p = subprocess.Popen([sys.executable, '-c', "from durus.storage_server import StorageServer; from durus.file_storage import FileStorage; StorageServer(FileStorage(%r), address=%r).serve()" % (name, sock)])
try:
    for i in range(400):
        if os.path.exists(sock): break
        time.sleep(.05)
    time.sleep(.3)
    c = Connection(ClientStorage(address=sock))
    r = c.get_root()
    c.pack()
    r[0].value = 1
    del r[0]
    c.commit()
    for n in range(2):
        while os.path.exists(name + '.pack'):
            time.sleep(.05)
            c.abort()
        time.sleep(.1)
        c.pack()
        time.sleep(.3)
    while os.path.exists(name + '.pack'):
        time.sleep(.05)
    c.abort()
finally:
    p.kill(); p.wait()
s = FileStorage(name)
n = len(list(s.gen_oid_record()))
assert n == 20000, n
''', 'a commit that makes garbage while a pack runs, and no commit until the next pack', 'the next pack removes nothing')

mk('C32-a', 'C32', [('durus/__main__.py', '''        storage = get_storage(options.file)
    connection = Connection(storage)
''', '''        storage = get_storage(options.file, repair=True)
    connection = Connection(storage)
''')], '''
import subprocess
from durus.file_storage import FileStorage
from durus.connection import Connection
name = D + '/x'
s = FileStorage(name)
c = Connection(s)
for i in range(3):
    c.get_root()[i] = i
    c.commit()
s.close()
data = open(name, 'rb').read()[:-5]
open(name, 'wb').write(data)
status = subprocess.call([sys.executable, '-m', 'durus', '-p', '--file', name], stderr=subprocess.DEVNULL)
assert status != 0
assert open(name, 'rb').read() == data
''', 'the pack command on a file whose last transaction is damaged', 'the command removes the damaged transaction without being asked to repair')

mk('C32-b', 'C32', [('durus/__main__.py', '''                    storage,
                    options.gcbytes)
''', '''                    storage,
                    # not too often
                    options.gcbytes if options.gcbytes >= 1024 else DEFAULT_GCBYTES)
''')], '''
import subprocess, time
from durus.client_storage import ClientStorage
from durus.connection import Connection
sock = D + '/s'
p = subprocess.Popen([sys.executable, '-m', 'durus', '-s', '--file', D + '/x', '--address', sock, '--gcbytes', '1000'], stderr=subprocess.DEVNULL)
try:
    for i in range(400):
        if os.path.exists(sock): break
        time.sleep(.05)
    time.sleep(.3)
    c = Connection(ClientStorage(address=sock))
    r = c.get_root()
    r['a'] = type(r)()
    c.commit()
    oid = r['a']._p_oid
    r['a'] = os.urandom(3000)
    c.commit()
    for i in range(100):
        c.abort()
        try:
            c.get_storage().load(oid)
        except KeyError:
            break
        time.sleep(.05)
    else:
        assert 0
finally:
    p.kill(); p.wait()
''', 'a server with a small --gcbytes, and commits of more bytes than that', 'there is no automatic pack')
