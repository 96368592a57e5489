import sys; sys.path.insert(0, '/verif/tools')
from mkseed import mk
exec(open('/verif/tools/seeds/common.py').read())

mk('C19-b', 'C19', [('durus/storage_server.py', '''            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(TIMEOUT)
''', '''            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            s.settimeout(TIMEOUT)
''')], '''
import signal, socket
path = D + '/s'
l = socket.socket(socket.AF_UNIX)
l.bind(path)
l.listen(5)
pid = os.fork()
if not pid:
    try:
        signal.alarm(120)
        os.dup2(l.fileno(), 103)
        l.close()
        os.dup2(103, 3)
        os.environ.update(LISTEN_PID=str(os.getpid()), LISTEN_FDS='1')
        from durus.storage_server import StorageServer
        from durus.storage import MemoryStorage
        StorageServer(MemoryStorage(), address=D + '/own').serve()
    finally:
        os._exit(0)
try:
    l.close()
    a = socket.socket(socket.AF_UNIX)
    a.connect(path)
    a.sendall(b'L12')
    b = socket.socket(socket.AF_UNIX)
    b.connect(path)
    b.settimeout(60)
    b.sendall(b'S')
    try:
        got = b.recv(4)
    except socket.timeout:
        got = None
finally:
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
assert got == b'\\0\\0\\0\\0', got
''', 'a server with a Unix socket inherited from systemd, and a client that stops in the middle of a request',
   'the server waits for the rest forever and serves nobody')

mk('C32-c', 'C32', [('durus/__main__.py', '''        if sock is None:
            break
        sock.close()
''', '''        if sock is not None:
            sock.close()
        break
''')], '''
import signal, subprocess, time
sock = D + '/s'
run = [sys.executable, '-B', '-m', 'durus', '-s', '--address', sock]
p = subprocess.Popen(run + ['--file', D + '/f'], stderr=subprocess.DEVNULL)
q = None
try:
    for i in range(400):
        if os.path.exists(sock): break
        time.sleep(.05)
    time.sleep(.5)
    os.kill(p.pid, signal.SIGSTOP) # busy with something
    q = subprocess.Popen(run + ['--stop'])
    end = time.time() + 5
    early = False
    while time.time() < end and not early:
        early = q.poll() is not None
        time.sleep(.05)
    os.kill(p.pid, signal.SIGCONT)
    assert not early, 'the address is not free'
    assert q.wait(60) == 0
    assert p.wait(60) == 0
finally:
    for x in (p, q):
        if x is not None and x.poll() is None:
            x.kill()
            x.wait()
''', 'a server that is busy for more than half a second when it is told to stop',
   'durus -s --stop returns while the server has the address and the file')
