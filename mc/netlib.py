"""A real StorageServer under a controlled scheduler.

StorageServer.serve() runs in its own thread, but only while the harness lets it: the
thread is resumed by Net.run() and gives control back when it would block (in select with
nothing to do, or receiving from a client that has sent nothing).  Clients use the real
ClientStorage over in-memory sockets; a client that waits for an answer resumes the server.
So every execution is a deterministic function of the order of the client operations and
pack steps that the harness chooses.
"""
import inspect
import select as select_module
import socket
import sqlite3
import sys
import threading
import traceback

real_select = select_module.select
real_sqlite_connect = sqlite3.connect
_nets = []


class Stuck(Exception):
    """a client waits for an answer that never comes"""


class ServerDied(Exception):
    pass


class KillServer(BaseException):
    pass


class End(object):
    """one end of a connection"""
    fds = 10000

    def __init__(self, net, is_server):
        self.net = net
        self.is_server = is_server
        self.inbuf = bytearray()
        self.peer = None
        self.closed = False
        self.eof = False           # the peer is gone: end of file after inbuf
        self.fault = None          # exception to raise instead of waiting for input
        self.send_fault = None     # (bytes accepted before, exception)
        self.recv_chunk = None     # function(n available, n wanted) -> how many
        self.send_chunk = None
        self.option_fault = None
        End.fds += 1
        self.fd = End.fds
        self.family = socket.AF_UNIX
        self.timeout = None

    # socket interface
    def fileno(self):
        return -1 if self.closed else self.fd

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, b):
        pass

    def setsockopt(self, *args):
        pass

    def getsockname(self):
        return 'fake'

    getpeername = getsockname

    def _avail(self):
        return len(self.inbuf) or self.eof or self.closed or self.fault is not None

    def recv(self, n, flags=0):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        self.net.calls += 1
        if not self._avail():
            if self.is_server:
                self.net.server_wait(self)
            else:
                self.net.run()
                if not self._avail():
                    raise Stuck('the client waits for an answer, the server does nothing')
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        if not self.inbuf:
            if self.fault is not None:
                e, self.fault = self.fault, None
                self.eof = True
                raise e
            return b''
        n = min(n, len(self.inbuf))
        if self.recv_chunk:
            n = max(1, min(n, self.recv_chunk(n)))
        out = bytes(self.inbuf[:n])
        del self.inbuf[:n]
        return out

    def send(self, data, flags=0):
        if self.closed:
            raise OSError(9, 'Bad file descriptor')
        self.net.calls += 1
        n = len(data)
        if self.send_chunk:
            n = max(1, min(n, self.send_chunk(n)))
        if self.send_fault is not None:
            left, exc = self.send_fault
            if left <= 0:
                raise exc
            n = min(n, left)
            self.send_fault = (left - n, exc)
        if self.peer.closed:
            raise BrokenPipeError(32, 'Broken pipe')
        self.peer.inbuf += data[:n]
        return n

    def sendall(self, data, flags=0):
        while data:
            n = self.send(data)
            data = data[n:]

    def shutdown(self, how):
        self.peer.eof = True

    def close(self):
        if not self.closed:
            self.closed = True
            self.peer.eof = True

    def detach(self):
        self.close()
        return -1


class Listener(object):
    def __init__(self, net):
        self.net = net
        self.pending = []
        self.closed = False
        self.fault = None          # exception raised by the next accept
        End.fds += 1
        self.fd = End.fds
        self.family = socket.AF_UNIX

    def fileno(self):
        return self.fd

    def accept(self):
        if self.fault is not None:
            e, self.fault = self.fault, None
            self.pending.pop(0).close()
            raise e
        return self.pending.pop(0), ('client', self.fd)

    def getsockname(self):
        return 'fake'

    def setsockopt(self, *args):
        pass

    def settimeout(self, t):
        pass

    def listen(self, n=0):
        pass

    def close(self):
        self.closed = True

    def _avail(self):
        return bool(self.pending)


class Net(object):
    def __init__(self, storage, **kw):
        from durus.storage_server import SocketAddress, StorageServer
        allow_threads()
        select_module.select = fake_select
        net = self
        self.storage = storage
        self.calls = 0
        self.pack_tokens = 0
        self.pack_waiting = False
        self.pack_steps = 0
        self.max_pack_steps = 20000
        self.listener = Listener(self)
        self.died = None
        self.done = False
        self.killed = False
        self.waiting_on = None

        class FakeAddress(SocketAddress):
            def __str__(self):
                return 'fake'

            def get_listening_socket(self):
                return net.listener

            def get_connected_socket(self):
                return net.connect()

            def set_connection_options(self, s):
                if s.option_fault is not None:
                    raise s.option_fault
                s.settimeout(10)

            def close(self, s):
                s.close()

        self.address = FakeAddress()
        self.server = StorageServer(storage, address=self.address, **kw)
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.thread = threading.Thread(target=self._serve, daemon=True)
        self.thread.start()
        self.run()

    def _serve(self):
        self.go.acquire()
        try:
            self.server.serve()
        except KillServer:
            pass
        except SystemExit:
            pass
        except BaseException:
            self.died = traceback.format_exc(limit=-8)
        self.done = True
        self.back.release()

    # called in the server thread
    def _yield(self):
        self.back.release()
        self.go.acquire()
        if self.killed:
            raise KillServer()

    def server_wait(self, end):
        while not end._avail():
            self.waiting_on = end
            self._yield()
        self.waiting_on = None

    def select(self, rlist, timeout):
        while True:
            for s in rlist:
                if getattr(s, 'closed', False):
                    raise ValueError('file descriptor cannot be a negative integer (-1)')
            ready = [s for s in rlist if s._avail()]
            if ready:
                return ready, [], []
            if timeout is not None:
                if self.pack_tokens > 0:
                    self.pack_tokens -= 1
                    return [], [], []
                self.pack_waiting = True
            self._yield()
            self.pack_waiting = False

    # called by the harness or a client, which has control
    def run(self):
        """let the server go on until it has nothing to do"""
        if self.done:
            return
        self.go.release()
        self.back.acquire()

    def pack_step(self):
        """one step of the incremental pack in progress; False if there is none"""
        if self.done or not self.pack_waiting:
            return False
        self.pack_steps += 1
        if self.pack_steps > self.max_pack_steps:
            raise Stuck('the pack does not end')
        self.pack_tokens = 1
        self.run()
        self.pack_tokens = 0
        if not self.pack_waiting:
            self.pack_steps = 0
        return True

    def packing(self):
        return not self.done and self.pack_waiting

    def connect(self):
        if self.done:
            return None
        a, b = End(self, False), End(self, True)
        a.peer, b.peer = b, a
        self.listener.pending.append(b)
        return a

    def client(self):
        from durus.client_storage import ClientStorage
        return ClientStorage(address=self.address)

    def check_alive(self):
        if self.done:
            raise ServerDied(self.died or 'the server ended')

    def kill(self):
        if self.thread is None:
            return
        if not self.done:
            self.killed = True
            while not self.done:
                self.run()
        self.thread.join()
        self.thread = None
        # the process of the server is gone: so is an unfinished pack
        for o in (self.server, self.storage):
            for name, p in list(vars(o).items()):
                if inspect.isgenerator(p):
                    p.close()
                    setattr(o, name, None)
        p = None
        self.server = None


def allow_threads():
    """The harness looks at the storage of the server from another thread, while the
    server thread is stopped."""
    def connect(*args, **kw):
        kw.setdefault('check_same_thread', False)
        return real_sqlite_connect(*args, **kw)
    sqlite3.connect = connect


def fake_select(r, w, x, timeout=None):
    for s in r:
        if isinstance(s, (Listener, End)):
            return s.net.select(list(r), timeout)
    return real_select(r, w, x, timeout)
