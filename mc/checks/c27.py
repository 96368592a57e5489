"""C27: a server takes over a stale socket but never a live one."""
import itertools
import os
import pickle
import select
import shutil
import signal
import socket
import stat
import struct
import time

from mc import schedlib

ID = 'C27'
LEVEL = 'model_checking'
NEEDS_SHIM = True
TECHNIQUE = ('exhaustive enumeration of path states, options and server histories on real sockets, and of the system-call '
             'interleavings of two servers up to a preemption bound')
RULE = ('binding: every initial state of the path (nothing, stale, live, file, empty file, directories, fifo, links to them, no parent) times '
        'owner, group, umask requests (also unknown or not permitted) times process umask, privileged and not; '
        'histories: every sequence up to the depth of start, start another, use, stop, kill of real server processes; '
        'schedules: every interleaving of the system calls of two processes that start or close servers on one path, '
        'up to the preemption bound; a socket passed by systemd, of every family, with every state of the environment variables. A state is one combination, history prefix or schedule.')
ASSUMPTIONS = ['the privileged part needs to run as root', 'an empty ordinary file or a fifo may be replaced']


def units(tier):
    q = tier == 'quick'
    out = []
    for um in (0o022, 0o000, 0o077):
        for user in ('root', 'nobody'):
            out.append(dict(what='binding', umask=um, user=user, cost=4))
    for part in range(8):
        out.append(dict(what='histories', depth=5 if q else 6, part=part, parts=8, cost=10))
    for a, b, initial in SCRIPTS:
        for first in (0, 1):
            out.append(dict(what='schedules', scripts=(a, b), initial=initial, first=first,
                            bound=3 if q else 4, cost=5))
    out.append(dict(what='abstract', cost=1))
    for family in FAMILIES:
        out.append(dict(what='inherited', family=family, cost=1))
    return out


def run(unit, ctx):
    globals()[unit['what']](unit, ctx)


# ------------------------------------------------------------------ binding

STATES = ['nothing', 'stale', 'live', 'file', 'empty', 'dir', 'fulldir', 'fifo', 'noparent', 'link:nothing', 'link:stale',
          'link:live', 'link:file', 'foreign live']


def prepare(state, path):
    """-> listener or None"""
    target = path
    if state.startswith('link:'):
        target = path + '.target'
        os.symlink(target, path)
        state = state[5:]
    if state in ('stale', 'live', 'foreign live'):
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        s.bind(target)
        if state == 'stale':
            s.close()
            return None
        s.listen(5)
        s.settimeout(5)
        if state == 'foreign live':
            os.chmod(target, 0o700)
        return s
    if state == 'file':
        open(target, 'wb').write(b'precious')
    elif state == 'empty':
        open(target, 'wb').close()
    elif state == 'dir':
        os.mkdir(target)
    elif state == 'fulldir':
        os.mkdir(target)
        open(target + '/x', 'wb').write(b'x')
    elif state == 'fifo':
        os.mkfifo(target)
    return None


def look(d):
    out = {}
    for base, dirs, names in os.walk(d):
        for n in dirs + names:
            p = os.path.join(base, n)
            st = os.lstat(p)
            data = None
            if stat.S_ISREG(st.st_mode):
                data = open(p, 'rb').read()
            elif stat.S_ISLNK(st.st_mode):
                data = os.readlink(p)
            out[os.path.relpath(p, d)] = (st.st_ino, st.st_mode, st.st_uid, st.st_gid, data)
    return out


def in_child(f):
    """run f in a forked process and return its result"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            signal.alarm(60)
            try:
                out = ('ok', f())
            except BaseException as e:
                import traceback
                out = ('err', '%s: %s %s' % (type(e).__name__, e, traceback.format_exc(limit=-4)))
            with os.fdopen(w, 'wb') as fp:
                pickle.dump(out, fp)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        data = fp.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ('err', 'the process died')


OWNERS = [None, 0, 65534, 'root', 'nobody', 'no such user']
GROUPS = [None, 0, 65534, 'root', 'nogroup', 'no such group']
UMASKS = [None, 0, 0o022, 0o077, 0o177, 0o777]


def binding(unit, ctx):
    if os.getuid() != 0:
        ctx.outcome('not root: skipped')
        return
    root = unit['user'] == 'root'
    for state in STATES:
        if state in ('nothing', 'stale', 'live', 'file'):
            combos = list(itertools.product(OWNERS, GROUPS, UMASKS))
        else:
            combos = list(itertools.product([None, 'no such user'], [None], UMASKS))
        d = ctx.newdir()
        os.chmod(d, 0o777)

        def child():
            os.chdir(d)                # (the way to d is closed to others)
            found = []
            for combo in combos:
                try:
                    for problem in bind_once(state, combo, unit['umask'], root):
                        found.append((combo, problem))
                except Exception as e:
                    import traceback
                    found.append((combo, 'unexpected %s %s' % (type(e).__name__, traceback.format_exc(limit=-3))))
            return found
        status, found = in_child(child)
        ctx.trail = dict(unit=unit, state=state)
        ctx.eq(status, 'ok', 'binding: %s' % (found,))
        for combo, problem in found:
            ctx.trail = dict(unit=unit, state=state, owner_group_umask=combo)
            ctx.violation('path is %s: %s' % (state, problem))
        ctx.count('states', len(combos))
        ctx.count('transitions', len(combos))
        ctx.count('traces_validated_against_impl', len(combos))
        ctx.outcome(state)
        ctx.rmdir(d)


def clean():
    for n in os.listdir('.'):
        if os.path.isdir(n) and not os.path.islink(n):
            shutil.rmtree(n)
        else:
            os.unlink(n)


def bind_once(state, combo, um, root):
    """yields what is wrong"""
    from durus.storage_server import SocketAddress
    import pwd
    import grp
    owner, group, mask = combo
    os.seteuid(0)
    os.setegid(0)
    clean()
    path = './parent/sock' if state == 'noparent' else './sock'
    os.umask(0o022)
    if not root and state not in ('foreign live', 'file', 'empty'):
        os.setegid(65534)
        os.seteuid(65534)
    listener = prepare(state, path)
    if not root:
        os.setegid(65534)
        os.seteuid(65534)
    os.umask(um)
    before = look('.')
    address = SocketAddress.new(path, owner=owner, group=group, umask=mask)
    try:
        s = address.get_listening_socket()
    except Exception as e:
        s, error = None, e
    now = os.umask(um)
    if now != um:
        yield 'the process umask is %o instead of %o after %s' % (now, um, 'success' if s else 'failure')
    after = look('.')
    uid, gid = (0, 0) if root else (65534, 65534)
    want_uid = {None: uid, 'root': 0, 'nobody': 65534}.get(owner, owner)
    want_gid = {None: gid, 'root': 0, 'nogroup': 65534}.get(group, group)
    bad = owner == 'no such user' or group == 'no such group'
    if not root and (want_uid != uid or want_gid != gid):
        bad = True
    free = state in ('nothing', 'stale', 'empty', 'fifo', 'link:stale')
    if state == 'foreign live' and root:
        free = False
    if s is None:
        if free and not bad and state not in ('empty', 'fifo'):
            yield 'binding failed: %s %s' % (type(error).__name__, error)
        if not free and before != after:
            yield 'the failed start changed the files: %r to %r' % (before, after)
    else:
        if not free and state != 'link:nothing':
            yield 'bound although the path was in use'
        if bad:
            yield 'bound although the owner or group cannot be set'
        else:
            st = os.stat(path)
            if not stat.S_ISSOCK(st.st_mode):
                yield 'not a socket'
            effective = um if mask is None else mask
            if st.st_mode & 0o777 != 0o777 & ~effective:
                yield 'mode %o with umask %o' % (st.st_mode & 0o777, effective)
            if (st.st_uid, st.st_gid) != (want_uid, want_gid):
                yield 'owner %r instead of %r' % ((st.st_uid, st.st_gid), (want_uid, want_gid))
            str(address)
            os.seteuid(0)
            c = address.get_connected_socket()
            if c is None:
                yield 'cannot connect'
            else:
                c.close()
            if not root:
                os.seteuid(65534)
            address.close(s)
            if os.path.lexists(path):
                yield 'the path is still there after closing'
            if os.umask(um) != um:
                yield 'umask changed'
    if listener is not None:
        # the live server goes on
        os.seteuid(0)
        try:
            c = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            c.settimeout(5)
            c.connect(path)
            c.send(b'hello')
            for i in range(3):
                x, _ = listener.accept()
                x.settimeout(5)
                data = x.recv(5)
                x.close()
                if data:
                    break
            if data != b'hello':
                yield 'the live server got %r' % data
            c.close()
        except Exception as e:
            yield 'the live server cannot be reached any more: %s' % e
        listener.close()


def abstract(unit, ctx):
    """abstract and host/port addresses: a second server fails, the first goes on; free after closing"""
    from durus.storage_server import SocketAddress
    probe = socket.socket()
    probe.bind(('127.0.0.1', 0))
    port = probe.getsockname()[1]
    probe.close()
    for make in (lambda: SocketAddress.new('@durusmc-%d' % os.getpid()), lambda: SocketAddress.new(('127.0.0.1', port))):
        for round in range(3):
            ctx.count('states')
            ctx.count('transitions')
            ctx.count('traces_validated_against_impl')
            a = make()
            s = a.get_listening_socket()
            b = make()
            try:
                x = b.get_listening_socket()
            except socket.error:
                pass
            else:
                ctx.violation('two servers on %s' % a)
            c = make().get_connected_socket()
            ctx.check(c is not None, 'cannot connect to %s', a)
            y, _ = s.accept()
            c.close()
            y.close()
            a.close(s)
            if str(a).startswith('@'):
                ctx.check(make().get_connected_socket() is None, 'still there')
    ctx.outcome('abstract')


# ------------------------------------------------------------------ histories of servers

class Server(object):
    def __init__(self, path, n):
        r, w = os.pipe()
        self.pid = os.fork()
        if not self.pid:
            code = 3
            try:
                os.close(r)
                signal.alarm(60)
                from durus.storage import MemoryStorage
                from durus import storage_server
                from durus.connection import Connection
                s = MemoryStorage()
                c = Connection(s)
                c.get_root()['server'] = n
                c.commit()
                server = storage_server.StorageServer(s, address=path)
                real = server.address.get_listening_socket

                def ready():
                    sock = real()
                    os.write(w, b'R')
                    return sock
                server.address.get_listening_socket = ready
                try:
                    server.serve()
                except SystemExit:
                    code = 0
                except socket.error:
                    code = 5
            except BaseException:
                pass
            finally:
                os._exit(code)
        os.close(w)
        self.ready = os.read(r, 1) == b'R'
        os.close(r)
        if not self.ready:
            self.code = os.waitpid(self.pid, 0)[1]

    def kill(self):
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


def histories(unit, ctx):
    d = ctx.newdir()
    path = os.path.join(d, 'sock')
    for k, seq in enumerate(itertools.product(('start', 'use', 'stop', 'kill', 'file'), repeat=unit['depth'])):
        if k % unit['parts'] != unit['part']:
            continue
        if any(seq[i] in ('stop', 'kill') and 'start' not in seq[:i] for i in range(len(seq))):
            continue
        ctx.trail = dict(unit=unit, history=seq)
        history(ctx, path, seq)
    ctx.rmdir(d)


def history(ctx, path, seq):
    from durus.client_storage import ClientStorage
    from durus.connection import Connection
    from durus.utils import write
    live, state, n = None, 'nothing', 0
    conn = None
    try:
        for op in seq:
            ctx.count('transitions')
            if op == 'start':
                n += 1
                new = Server(path, n)
                want = state in ('nothing', 'stale')
                ctx.eq(new.ready, want, 'server %d started (path is %s)' % (n, state))
                if new.ready:
                    live, state = (new, n), 'live'
                    conn = None
                else:
                    ctx.check(os.WIFEXITED(new.code) and os.WEXITSTATUS(new.code) == 5,
                              'the second server ended with %r', new.code)
            elif op == 'use' and live:
                if conn is None:
                    conn = Connection(ClientStorage(address=path))
                conn.abort()
                ctx.eq(conn.get_root()['server'], live[1], 'which server answers')
                conn.get_root()['x'] = conn.get_root().get('x', 0) + 1
                conn.commit()
                fresh = Connection(ClientStorage(address=path))
                ctx.eq(dict(fresh.get_root()), dict(conn.get_root()), 'what another client sees')
                fresh.get_storage().s.close()
            elif op == 'stop' and live:
                from durus.__main__ import stop_durus
                from durus.storage_server import SocketAddress
                s = SocketAddress.new(path).get_connected_socket()
                write(s, 'Q')
                s.close()
                _, code = os.waitpid(live[0].pid, 0)
                ctx.eq(code, 0, 'exit status of the stopped server')
                ctx.check(not os.path.lexists(path), 'the path is left after stopping')
                live, state = None, 'nothing'
            elif op == 'kill' and live:
                live[0].kill()
                live, state = None, 'stale'
            elif op == 'file' and state == 'nothing':
                with open(path, 'wb') as f:
                    f.write(b'precious')
                state = 'file'
            if state == 'file':
                with open(path, 'rb') as f:
                    ctx.eq(f.read(), b'precious', 'the ordinary file')
        ctx.count('states')
        ctx.count('traces_validated_against_impl')
        ctx.outcome(state)
    finally:
        if live:
            try:
                live[0].kill()
            except OSError:
                pass
        if conn is not None:
            conn.get_storage().s.close()
        if os.path.lexists(path):
            os.unlink(path)


# ------------------------------------------------------------------ schedules

SCRIPTS = [('start', 'start', 'nothing'), ('start', 'start', 'stale'), ('startstop', 'start', 'nothing'),
           ('startstop', 'start', 'stale'), ('startstop', 'startstop', 'stale')]


def body(path, script):
    def f(say):
        from durus.storage_server import SocketAddress
        address = SocketAddress.new(path)
        say('starting')
        try:
            s = address.get_listening_socket()
        except socket.error as e:
            say('refused', str(e))
            return
        say('started')
        if script == 'startstop':
            say('stopping')
            address.close(s)
            say('stopped')
        else:
            say('end')
            return s
    return f


def schedules(unit, ctx):
    d = ctx.newdir()
    path = os.path.join(d, 'sock')

    def reset():
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
        if unit['initial'] == 'stale':
            s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
            s.bind(path)
            s.close()

    def on_run(schedule, events, blocked, steps):
        ctx.trail = dict(unit=unit, schedule=sorted(schedule.items()), events=repr(events))
        ctx.count('states')
        ctx.count('transitions', steps)
        ctx.count('traces_validated_against_impl')
        ctx.check(not blocked, 'a server waits forever')
        live, busy = set(), {}
        stopping = set()
        for who, e in events:
            k = e[0]
            ctx.outcome(k)
            if k == 'died':
                ctx.violation('an operation failed: %s' % e[1])
            elif k == 'starting':
                busy[who] = bool(live or busy or stopping)
                for x in busy:
                    if x != who:
                        busy[x] = True
            elif k == 'refused':
                ctx.check(busy.pop(who), 'refused although there was no other server: %s', e[1])
            elif k == 'started':
                busy.pop(who)
                ctx.check(not live, 'two servers on one path')
                live.add(who)
                for x in busy:
                    busy[x] = True
            elif k == 'stopping':
                live.discard(who)
                stopping.add(who)
            elif k == 'stopped':
                stopping.discard(who)
        ends = [who for who, e in events if e[0] == 'end']
        if ends:
            ctx.check(os.path.exists(path), 'the path of the live server is gone')
        else:
            ctx.check(not os.path.exists(path) or 'started' not in [e[0] for w, e in events],
                      'the path is left after closing')

    schedlib.explore([body(path, x) for x in unit['scripts']], d, reset, unit['bound'], unit['first'], on_run)
    ctx.rmdir(d)


# ------------------------------------------------------------------ inherited sockets

FAMILIES = ('path', 'abstract', 'inet', 'inet6')
# (LISTEN_PID, LISTEN_FDS) -> what the server uses
ENVIRONMENT = [(None, None, 'own'), (None, '1', 'own'), ('self', '1', 'inherited'), ('1', '1', 'own'), ('x', '1', 'own'),
               ('', '1', 'own'), ('self', '0', 'own'), ('self', '2', 'error'), ('self', 'x', 'error'), ('self', None, 'error')]


def listening(family, d):
    """(socket, address for clients, how the server is to name it), None if there is no such family"""
    if family == 'path':
        s = socket.socket(socket.AF_UNIX)
        s.bind(d + '/given')
        s.listen(5)
        return s, d + '/given', d + '/given'
    if family == 'abstract':
        name = 'durusmc-%d-given' % os.getpid()
        s = socket.socket(socket.AF_UNIX)
        s.bind('\0' + name)
        s.listen(5)
        return s, '@' + name, '@' + name
    host = dict(inet='127.0.0.1', inet6='::1')[family]
    try:
        s = socket.socket(socket.AF_INET6 if family == 'inet6' else socket.AF_INET)
        s.bind((host, 0))
    except OSError:
        return None
    s.listen(5)
    port = s.getsockname()[1]
    return s, (host, port), ('[%s]:%d' if family == 'inet6' else '%s:%d') % (host, port)


def inherited(unit, ctx):
    for pid, fds, uses in ENVIRONMENT:
        d = ctx.newdir()
        ctx.trail = dict(family=unit['family'], LISTEN_PID=pid, LISTEN_FDS=fds)
        try:
            inherit(ctx, unit['family'], d, pid, fds, uses)
        finally:
            ctx.rmdir(d)
        ctx.count('states')
        ctx.count('transitions', 3)
        ctx.count('traces_validated_against_impl')


def inherit(ctx, family, d, pid, fds, uses):
    from durus.connection import Connection
    made = listening(family, d)
    if made is None:
        ctx.outcome('no ' + family)
        return
    lsock, address, name = made
    own = d + '/own'
    r, w = os.pipe()
    child = os.fork()
    if not child:
        try:
            signal.alarm(60)
            import fcntl
            out = fcntl.fcntl(w, fcntl.F_DUPFD, 100)
            given = fcntl.fcntl(lsock.fileno(), fcntl.F_DUPFD, 100)
            os.dup2(given, 3)
            os.close(given)
            if lsock.fileno() != 3:
                lsock.close()
            for var, value in (('LISTEN_PID', pid), ('LISTEN_FDS', fds)):
                os.environ.pop(var, None)
                if value is not None:
                    os.environ[var] = str(os.getpid()) if value == 'self' else value
            from durus.storage import MemoryStorage
            from durus.storage_server import StorageServer
            server = StorageServer(MemoryStorage(), address=own)
            try:
                try:
                    server.serve()
                except SystemExit:
                    text = 'stopped %s' % server.address
            except BaseException as e:
                text = '%s: %s' % (type(e).__name__, e)
            os.write(out, text.encode())
        finally:
            os._exit(0)
    os.close(w)
    lsock.close()
    try:
        if uses != 'error':
            client = connect_to(ctx, address if uses == 'inherited' else own)
            c = Connection(client)
            c.get_root()['a'] = 1
            c.commit()
            c2 = Connection(connect_to(ctx, address if uses == 'inherited' else own))
            ctx.eq(dict(c2.get_root()), {'a': 1}, 'the other client')
            ctx.eq(os.path.exists(own), uses == 'own', 'the socket of its own')
            client.s.sendall(b'Q')
        with os.fdopen(r, 'rb') as f:
            text = f.read().decode()
        r = None
        if uses == 'error':
            ctx.check(text.startswith('OSError'), 'the server ends with: %s', text)
        elif uses == 'inherited':
            ctx.eq(text, 'stopped ' + name, 'the server ends')
        else:
            ctx.check(text.startswith('stopped ' + own), 'the server ends with: %s', text)
        ctx.eq(os.path.exists(own), False, 'the socket of its own')
        if family == 'path':
            ctx.eq(os.path.exists(address), True, 'the inherited socket')
        ctx.outcome('%s %s' % (family, uses))
    finally:
        if r is not None:
            os.close(r)
        try:
            os.kill(child, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(child, 0)


def connect_to(ctx, address):
    from durus.client_storage import ClientStorage
    from durus.storage_server import SocketAddress
    for i in range(600):
        try:
            if SocketAddress.new(address).get_connected_socket() is not None:
                return ClientStorage(address=address)
        except OSError:
            pass
        time.sleep(.05)
    ctx.violation('no server at %s' % (address,))
