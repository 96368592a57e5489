"""C32: the durus command does what its options say, and nothing else."""
import itertools
import os
import signal
import socket
import sys
import time

from mc import core, storages

ID = 'C32'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of command lines, file states and client actions on the real programs'
RULE = ('"durus -s", "-s --stop", "-p", "-c" and usage run as real processes: every combination of file (each format, missing, '
        'damaged at the end, none), --readonly, --repair, --storage-class for the server, with a client that reads, commits and '
        'a second one that looks; every combination of address form (path, abstract, host and port, with owner, group and umask), '
        '--gcbytes, log options and way to stop; the interactive client with every combination of source, options, startup file '
        'and input; the pack command on every format and through a server; and wrong command lines. Exit status, contents, '
        'bytes of the directory and sockets left behind are compared with what the options ask for. '
        'A state is one (command line, files) combination.')
ASSUMPTIONS = ['the process is given 40 seconds to do what it is asked to']

CLASSES = {'file': 'durus.file_storage.FileStorage', 'file2': 'durus.file_storage2.FileStorage2',
           'sqlite': 'durus.sqlite_storage.SqliteStorage'}
WAIT = 40
COUNT = [0]


def units(tier):
    q = tier == 'quick'
    out = []
    for file in ('file', 'file2', 'sqlite', 'missing', 'none'):
        for ro, rep, cls in itertools.product((False, True), repeat=3):
            if file == 'none' and (cls or ro):
                continue
            for damage in (False, True) if file in ('file', 'file2') else (False,):
                out.append(dict(what='serve', file=file, ro=ro, rep=rep, cls=cls, damage=damage,
                                address='path', gc=None, log=0, stop='stop', cost=2))
    for address in ('path', 'abstract', 'port', 'host', 'owned'):
        for gc in (None, 0, 1, 10 ** 6):
            for log in (0, 1, 2):
                for stop in ('stop', 'int'):
                    if q and (log and gc or log == 2 and stop == 'int'):
                        continue
                    for file in ('file',) if q else ('file', 'file2', 'sqlite'):
                        out.append(dict(what='serve', file=file, ro=False, rep=False, cls=False, damage=False,
                                        address=address, gc=gc, log=log, stop=stop, cost=2))
    for address in ('path', 'abstract', 'port', 'host', 'owned'):
        out.append(dict(what='serve', file='file', ro=False, rep=False, cls=False, damage=False,
                        address=address, gc=None, log=1, stop='stop', slow=1, cost=5))
    for file in ('file', 'file2', 'sqlite', 'missing', 'none', 'path', 'abstract', 'port', 'host'):
        for ro, rep, cls in itertools.product((False, True), repeat=3):
            net = file in ('path', 'abstract', 'port', 'host')
            if net and (cls or rep or ro) or file == 'none':
                continue
            for startup in (None, 'option', 'env', 'home'):
                if q and startup in ('env', 'home') and file != 'file' and not net:
                    continue
                for damage in (False, True) if file in ('file', 'file2') else (False,):
                    out.append(dict(what='session', file=file, ro=ro, rep=rep, cls=cls, startup=startup,
                                    damage=damage, cost=2))
    for file in ('file', 'file2', 'sqlite', 'port', 'host', 'missing'):
        for garbage in (0, 1, 5):
            for damage in (False, True) if file in ('file', 'file2') else (False,):
                out.append(dict(what='pack', file=file, garbage=garbage, damage=damage, cost=2))
    for file in ('path', 'abstract', 'port', 'host'):
        out.append(dict(what='session', file=file, ro=False, rep=False, cls=False, startup=None, damage=False, late=1, cost=5))
    for file in ('port', 'host'):
        out.append(dict(what='pack', file=file, garbage=3, damage=False, late=1, cost=5))
    out.append(dict(what='wrong'))
    return out


def run(unit, ctx):
    d = ctx.newdir()
    old = os.getcwd()
    ctx.trail = repr(unit)
    procs = []
    try:
        ctx.count('states')
        ctx.count('traces_validated_against_impl')
        globals()[unit['what']](unit, ctx, d, procs)
    finally:
        os.chdir(old)
        for p in procs:
            p.kill()
        ctx.rmdir(d)


# ------------------------------------------------------------------ processes

class Process(object):
    """durus ARGS, in a directory of its own"""
    def __init__(self, d, args, stdin=b'', env=None):
        self.args = args
        self.out = os.path.join(d, 'home', 'out%d' % len(os.listdir(os.path.join(d, 'home'))))
        self.status = None
        ir, iw = os.pipe()
        self.pid = os.fork()
        if not self.pid:
            code = 99
            try:
                os.close(iw)
                signal.alarm(3 * WAIT)
                core.end_with_parent()
                signal.signal(signal.SIGINT, signal.default_int_handler)
                os.dup2(ir, 0)
                fd = os.open(self.out, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                os.chdir(os.path.join(d, 'home'))
                os.environ['HOME'] = os.path.join(d, 'home')
                os.environ.pop('DURUSSTARTUP', None)
                os.environ.update(env or {})
                sys.stdin = os.fdopen(0)
                sys.stdout = os.fdopen(1, 'w')
                sys.stderr = os.fdopen(2, 'w')
                import logging
                logging.disable(0)
                ext = sys.modules.get('durus._persistent')
                for name in list(sys.modules):
                    if name.split('.')[0] == 'durus':
                        del sys.modules[name]
                sys.modules['durus._persistent'] = ext
                import durus
                if ext is not None:
                    durus._persistent = ext
                sys.argv = ['durus'] + args
                try:
                    from durus.__main__ import main
                    main()
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except KeyboardInterrupt:
                    code = 130
                except BaseException:
                    import traceback
                    traceback.print_exc()
                    code = 1
                import atexit
                atexit._run_exitfuncs()
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(code)
        os.close(ir)
        data = stdin
        while data:
            data = data[os.write(iw, data):]
        os.close(iw)

    def poll(self):
        if self.status is None:
            pid, status = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                self.status = os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)
        return self.status

    def wait(self, ctx):
        end = time.monotonic() + WAIT
        while self.poll() is None:
            if time.monotonic() > end:
                ctx.violation('durus %s does not end: %s' % (' '.join(self.args), self.text()))
            time.sleep(0.01)
        return self.status

    def text(self):
        with open(self.out, 'rb') as f:
            return f.read().decode(errors='replace')[-2000:]

    def kill(self):
        if self.poll() is None:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.status = -9


def address_of(form, d):
    """(options, address for ClientStorage)"""
    if form in ('path', 'owned'):
        p = os.path.join(d, 's')
        o = ['--address', p]
        if form == 'owned':
            o += ['--owner', 'nobody', '--group', 'nogroup', '--umask', str(0o137)]
        return o, p
    if form == 'abstract':
        p = '@durus-check-%d' % os.getpid()
        return ['--address', p], p
    host = '127.0.0.2' if form == 'host' else '127.0.0.1'
    # not one that a connecting socket may get
    while True:
        COUNT[0] += 1
        port = 15000 + os.getpid() % 1700 * 10 + COUNT[0] % 10
        s = socket.socket()
        try:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((host, port))
            break
        except socket.error:
            pass
        finally:
            s.close()
    return ['--host', host, '--port', str(port)], (host, port)


def connected(address):
    from durus.storage_server import SocketAddress
    try:
        s = SocketAddress.new(address).get_connected_socket()
    except EnvironmentError:
        return False
    if s is None:
        return False
    s.close()
    return True


def ready(ctx, p, address):
    """wait until it listens (True) or ended (False)"""
    end = time.monotonic() + WAIT
    while not connected(address):
        if p.poll() is not None:
            return False
        if time.monotonic() > end:
            ctx.violation('durus %s neither listens nor ends: %s' % (' '.join(p.args), p.text()))
        time.sleep(0.01)
    return True


# ------------------------------------------------------------------ files

def prepare(d, kind, garbage=3, damage=False):
    """a file with two commits and some garbage, maybe without the last bytes"""
    os.mkdir(os.path.join(d, 'home'))
    os.mkdir(os.path.join(d, 'data'))
    path = os.path.join(d, 'data', 'db')
    if kind not in CLASSES:
        return path
    from durus.connection import Connection
    from durus.persistent_dict import PersistentDict
    s = klass(kind)(path)
    c = Connection(s)
    r = c.get_root()
    r['a'] = 1
    r['p'] = PersistentDict(x=2)
    for i in range(garbage):
        r['g%d' % i] = PersistentDict(pad='x' * 100)
    c.commit()
    for i in range(garbage):
        del r['g%d' % i]
    r['p']['y'] = 3
    c.commit()
    s.close()
    if damage:
        with open(path, 'r+b') as f:
            f.truncate(os.path.getsize(path) - 3)
    return path


def klass(kind):
    from durus.__main__ import import_class
    return import_class(CLASSES[kind])


def files(path):
    d = os.path.dirname(path)
    out = {}
    for name in sorted(os.listdir(d)):
        with open(os.path.join(d, name), 'rb') as f:
            out[name] = f.read()
    return out


def plain(c):
    out = {}
    for k, v in c.get_root().items():
        out[k] = dict(v) if hasattr(v, '_p_oid') else v
    return out


def garbage(path):
    """oids that cannot be reached"""
    from durus.__main__ import get_storage
    s = get_storage(path)
    try:
        return sorted(set(bytes(o) for o, r in s.gen_oid_record())
                      - set(bytes(o) for o, r in s.gen_oid_record(start_oid=b'\0' * 8)))
    finally:
        s.close()


def until_packed(ctx, label, c, oids):
    end = time.monotonic() + WAIT
    for oid in oids:
        while True:
            try:
                c.get_storage().load(oid)
            except KeyError:
                break
            except Exception as e:
                if type(e).__name__ != 'ReadConflictError':
                    raise
                c.get_storage().sync()
            if time.monotonic() > end:
                ctx.violation('%s: there is no pack' % label)
            time.sleep(0.01)


def content(path):
    """(content, number of records, class) of the file as a maintainer would see it"""
    from durus.__main__ import get_storage
    from durus.connection import Connection
    s = get_storage(path)
    try:
        return plain(Connection(s)), len(list(s.gen_oid_record())), type(s).__name__
    finally:
        s.close()


WHOLE = {'a': 1, 'p': {'x': 2, 'y': 3}}
EARLIER = {'a': 1, 'p': {'x': 2}, 'g0': {'pad': 'x' * 100}, 'g1': {'pad': 'x' * 100}, 'g2': {'pad': 'x' * 100}}


def client(address):
    from durus.client_storage import ClientStorage
    from durus.connection import Connection
    return Connection(ClientStorage(address=address))


# ------------------------------------------------------------------ the server

def serve(unit, ctx, d, procs):
    kind = unit['file']
    path = prepare(d, kind, damage=unit['damage'])
    junk = garbage(path) if kind in CLASSES and unit['gc'] else ()
    before = files(path)
    opts, address = address_of(unit['address'], d)
    args = ['-s'] + opts
    if kind != 'none':
        args += ['--file', path]
    if unit['ro']:
        args.append('--readonly')
    if unit['rep']:
        args.append('--repair')
    cls = {'missing': 'file2'}.get(kind, kind)
    if unit['cls']:
        args += ['--storage-class', CLASSES[cls]]
    if unit['gc'] is not None:
        args += ['--gcbytes', str(unit['gc'])]
    logfile = os.path.join(d, 'home', 'log')
    if unit['log']:
        args += ['--logfile', logfile]
        with open(logfile, 'w') as f:
            f.write('earlier\n')
        args += ['--logginglevel', '1'] if unit['log'] == 2 else []
    p = Process(d, args)
    procs.append(p)
    label = 'durus %s' % ' '.join(args).replace(d, '')
    ctx.trail = label
    up = ready(ctx, p, address)
    ctx.count('transitions')
    damaged_off = unit['damage'] and (unit['ro'] or not unit['rep'])
    # reading only is not offered for SQLite; there is nothing to repair in a new file
    cannot = unit['ro'] and (unit['rep'] or cls == 'sqlite') or kind == 'none' and unit['rep']
    refused = damaged_off or kind == 'missing' and unit['ro'] or cannot
    if not up:
        if not refused:
            ctx.violation('%s ends with status %r: %s' % (label, p.status, p.text()))
        if p.status == 0:
            ctx.violation('%s: nothing to serve and the exit status is 0' % label)
        if files(path) != before:
            ctx.violation('%s refuses the file and changes the directory' % label)
        ctx.outcome('refused')
        return
    if damaged_off and not unit['ro'] or kind == 'missing' and unit['ro']:
        ctx.violation('%s: it serves what it cannot' % label)
    ctx.outcome('serves')
    want = dict(EARLIER if unit['damage'] else WHOLE if kind in CLASSES else {})
    if unit['address'] == 'owned':
        import grp
        import pwd
        st = os.stat(address)
        if (st.st_mode & 0o777, st.st_uid, st.st_gid) != (
                0o777 & ~0o137, pwd.getpwnam('nobody').pw_uid, grp.getgrnam('nogroup').gr_gid):
            ctx.violation('%s: mode %o, owner %d, group %d' % (label, st.st_mode, st.st_uid, st.st_gid))
    if unit['address'] == 'host' and connected(('127.0.0.1', address[1])):
        ctx.violation('%s: it listens on another address as well' % label)
    c = client(address)
    c2 = client(address)
    if plain(c) != want:
        ctx.violation('%s: a client sees %r, expected %r' % (label, plain(c), want))
    plain(c2)
    c.get_root()['new'] = 5
    try:
        c.commit()
        ok = True
    except Exception:
        ok = False
    ctx.count('transitions')
    if ok == bool(unit['ro']):
        ctx.violation('%s: a commit %s' % (label, 'is accepted' if ok else 'fails'))
    if ok:
        want['new'] = 5
    c2.abort()
    if plain(c2) != want:
        ctx.violation('%s: another client sees %r, expected %r' % (label, plain(c2), want))
    packed = unit['gc'] == 1
    if packed:
        # a pack begins on its own
        until_packed(ctx, label, c2, junk)
        c2.abort()
        if plain(c2) != want:
            ctx.violation('%s: after the pack a client sees %r' % (label, plain(c2)))
    if ok:
        c.get_storage().close()
    c3 = client(address)
    if plain(c3) != want:
        ctx.violation('%s: a new client sees %r, expected %r' % (label, plain(c3), want))
    if p.poll() is not None:
        ctx.violation('%s: the server ended: %s' % (label, p.text()))
    # another server cannot have the address
    if unit['log'] == 0:
        other = Process(d, ['-s'] + opts)
        procs.append(other)
        if other.wait(ctx) == 0 or not connected(address) or plain(client(address)) != want:
            ctx.violation('%s: a second server takes the address' % label)
    stop(unit, ctx, d, procs, p, opts, label, address)
    if kind != 'none':
        if unit['ro']:
            now = files(path)
            for name in ('db-wal', 'db-shm'):
                # SQLite's own, for a reader
                now.pop(name, None)
            if now != before:
                ctx.violation('%s: the directory is changed: %s' % (label, sorted(now)))
        if unit['damage']:
            if not files(path)['db'].startswith(before['db'][:100]):
                ctx.violation('%s: repair changed the beginning' % label)
        got, n, name = content(path)
        if got != want:
            ctx.violation('%s: then the file holds %r, expected %r' % (label, got, want))
        if name != CLASSES[cls if unit['cls'] or kind != 'missing' else 'file'].split('.')[-1]:
            ctx.violation('%s: the file is a %s' % (label, name))
        if kind in CLASSES and not unit['damage'] and n != (2 if packed else 5):
            ctx.violation('%s: then the file has %d records' % (label, n))
    if kind == 'none' and files(path) != before:
        ctx.violation('%s: made a file' % label)
    left = sorted(set(os.listdir(os.path.join(d, 'home'))) - {'log', '.durushistory'})
    if [x for x in left if not x.startswith('out')]:
        ctx.violation('%s: left %r in the working directory' % (label, left))
    if unit['log']:
        with open(logfile) as f:
            text = f.read()
        if unit['log'] == 2 and kind in CLASSES and path not in text:
            ctx.violation('%s: the log file does not mention the storage: %r' % (label, text))
        if not text.startswith('earlier\n'):
            ctx.violation('%s: what was in the log file before is lost' % label)
        if 'Traceback' in text:
            ctx.violation('%s: the log has %r' % (label, text))


def stop(unit, ctx, d, procs, p, opts, label, address):
    if unit['stop'] == 'stop':
        if unit.get('slow'):
            os.kill(p.pid, signal.SIGSTOP)
        q = Process(d, ['-s', '--stop'] + opts)
        procs.append(q)
        if unit.get('slow'):
            # the server does not get to run for a while
            end = time.monotonic() + 3
            try:
                while time.monotonic() < end:
                    if q.poll() is not None:
                        ctx.violation('%s: --stop ends before the address is free' % label)
                    time.sleep(0.01)
            finally:
                os.kill(p.pid, signal.SIGCONT)
        status = q.wait(ctx)
        if status != 0:
            ctx.violation('%s: --stop ends with status %r: %s' % (label, status, q.text()))
        if connected(address):
            ctx.violation('%s: the address is in use after --stop' % label)
        if p.wait(ctx) != 0:
            ctx.violation('%s: stopped with status %r: %s' % (label, p.status, p.text()))
        # stopping again does no harm
        q = Process(d, ['-s', '--stop'] + opts)
        procs.append(q)
        if q.wait(ctx) < 0 or 'Traceback' in q.text():
            ctx.violation('%s: a second --stop: %s' % (label, q.text()))
    else:
        os.kill(p.pid, signal.SIGINT)
        p.wait(ctx)
        if connected(address):
            ctx.violation('%s: the address is in use after an interrupt' % label)
    ctx.count('transitions')
    if unit.get('address') in ('path', 'owned') and os.path.exists(address):
        ctx.violation('%s: the socket is left behind' % label)


def serving(ctx, d, procs, label, path, opts, address):
    server = Process(d, ['-s', '--file', path] + opts)
    procs.append(server)
    if not ready(ctx, server, address):
        ctx.violation('%s: no server: %s' % (label, server.text()))
    return server


# ------------------------------------------------------------------ the interactive client

def session(unit, ctx, d, procs):
    net = unit['file'] in ('path', 'abstract', 'port', 'host')
    kind = 'file' if net else unit['file']
    path = prepare(d, kind, damage=unit['damage'])
    before = files(path)
    label = 'durus -c (%r)' % unit
    args = ['-c', '--cache_size', '7']
    server = None
    if net:
        opts, address = address_of(unit['file'], d)
        if not unit.get('late'):
            server = serving(ctx, d, procs, label, path, opts, address)
        args += opts
    else:
        args += ['--file', path]
    args += ['--readonly'] * unit['ro'] + ['--repair'] * unit['rep']
    cls = {'missing': 'file2'}.get(kind, kind)
    if unit['cls']:
        args += ['--storage-class', CLASSES[cls]]
    env = {}
    startup = os.path.join(d, 'home', 'startup.py')
    with open(startup, 'w') as f:
        f.write('def mark(x):\n    return "<<%r>>" % (x,)\n\nstarted = dict(root)\n')
    if unit['startup'] == 'option':
        args += ['--startup', startup]
    elif unit['startup'] == 'home':
        args += ['--startup', '~/startup.py']
    elif unit['startup'] == 'env':
        env['DURUSSTARTUP'] = startup
    text = 'print("<1 %r>" % sorted(root.keys()))\n'
    text += 'print("<2 %r>" % (connection.get_root() is root and get(0) is root and connection.get_cache().get_size()))\n'
    if unit['startup']:
        text += 'print(mark(sorted(started)))\n'
    text += 'root["lost"] = 1; connection.abort()\n'
    text += 'root["z"] = 9\n'
    text += 'connection.commit(); print("<committed>")\n'
    text += 'connection.abort()\n'
    text += 'root["unfinished"] = 1\n'
    text += 'print("<3 %r %s>" % (sorted(root), __name__))\n'
    p = Process(d, args, text.encode(), env)
    procs.append(p)
    if unit.get('late'):
        # it waits for the server
        time.sleep(1)
        if p.poll() is not None:
            ctx.violation('%s: does not wait for the server: status %r, %s' % (label, p.status, p.text()))
        server = serving(ctx, d, procs, label, path, opts, address)
    status = p.wait(ctx)
    out = p.text()
    label = 'durus %s' % ' '.join(args).replace(d, '')
    ctx.trail = label
    ctx.count('transitions')
    if kind == 'missing' and unit['ro']:
        if status == 0 or files(path) != before:
            ctx.violation('%s: opens a missing file: %s' % (label, out))
        return
    if unit['damage'] and (unit['ro'] or not unit['rep']):
        if files(path) != before or status == 0 and not unit['ro']:
            ctx.violation('%s: damaged file: status %r, %s' % (label, status, out))
        ctx.outcome('refused')
        return
    if unit['ro'] and (unit['rep'] or kind == 'sqlite') and status:
        # cannot be done
        if files(path) != before:
            ctx.violation('%s: refuses and writes' % label)
        return
    if status != 0:
        ctx.violation('%s: status %r, %s' % (label, status, out))
    state = EARLIER if unit['damage'] else WHOLE if kind in CLASSES else {}
    start = sorted(state)
    for want in ('<1 %r>' % start, '<2 7>') + (('<<%r>>' % start,) if unit['startup'] else ()):
        if want not in out:
            ctx.violation('%s: no %r in %s' % (label, want, out))
    if ('<committed>' in out) == bool(unit['ro']):
        ctx.violation('%s: commit: %s' % (label, out))
    want = dict(state)
    if not unit['ro']:
        want['z'] = 9
    shown = sorted(list(want) + ['unfinished'])
    if '<3 %r __console__>' % shown not in out:
        ctx.violation('%s: no %r in %s' % (label, shown, out))
    if net:
        if plain(client(address)) != want:
            ctx.violation('%s: another client sees %r' % (label, plain(client(address))))
        stop(dict(stop='stop', address=unit['file']), ctx, d, procs, server, opts, label, address)
    if unit['ro']:
        now = files(path)
        for name in ('db-wal', 'db-shm'):
            now.pop(name, None)
        if now != before:
            ctx.violation('%s: the directory is changed: %s' % (label, sorted(now)))
    got, n, name = content(path)
    if got != want:
        ctx.violation('%s: then the file holds %r, expected %r' % (label, got, want))
    if name != CLASSES[cls if unit['cls'] or kind != 'missing' else 'file'].split('.')[-1]:
        ctx.violation('%s: the file is a %s' % (label, name))
    ctx.outcome('session')


# ------------------------------------------------------------------ pack and usage

def pack(unit, ctx, d, procs):
    net = unit['file'] in ('port', 'host')
    kind = 'file' if net else unit['file']
    path = prepare(d, kind, unit['garbage'], unit['damage'])
    junk = garbage(path) if net else ()
    before = files(path)
    args = ['-p']
    label = 'durus -p, %r' % unit
    if net:
        opts, address = address_of(unit['file'], d)
        if not unit.get('late'):
            server = serving(ctx, d, procs, label, path, opts, address)
        args += opts
    else:
        args += ['--file', path]
    p = Process(d, args)
    procs.append(p)
    if unit.get('late'):
        time.sleep(1)
        if p.poll() is not None:
            ctx.violation('%s: does not wait for the server: status %r, %s' % (label, p.status, p.text()))
        server = serving(ctx, d, procs, label, path, opts, address)
    status = p.wait(ctx)
    ctx.count('transitions')
    if unit['damage']:
        if status == 0 or files(path) != before:
            ctx.violation('%s: packs a damaged file: %s' % (label, p.text()))
        return
    if status != 0:
        ctx.violation('%s: status %r, %s' % (label, p.status, p.text()))
    if kind == 'missing':
        if content(path)[:2] != ({}, 1):
            ctx.violation('%s: a new file holds %r' % (label, content(path)))
        return
    if net:
        c = client(address)
        until_packed(ctx, label, c, junk)
        c.abort()
        if plain(c) != WHOLE:
            ctx.violation('%s: a client sees %r' % (label, plain(c)))
        stop(dict(stop='stop'), ctx, d, procs, server, opts, label, address)
    got, n, name = content(path)
    if got != WHOLE or n != 2 or name != CLASSES[kind].split('.')[-1]:
        ctx.violation('%s: then the file holds %r in %d records of %s' % (label, got, n, name))
    ctx.outcome('packed')


def wrong(unit, ctx, d, procs):
    path = prepare(d, 'file')
    before = files(path)
    for args, good in (([], True), (['-x'], True), (['--file', path], True), (['-h'], True),
                       (['-s', '--help'], True), (['-c', '--help'], True), (['-p', '--help'], True),
                       (['-s', '--what', '--file', path], False), (['-c', '--what', '--file', path], False),
                       (['-p', '--what', '--file', path], False), (['-s', '--port', 'x'], False),
                       (['-s', '--gcbytes', 'x', '--file', path], False),
                       (['-c', '--cache_size', 'x', '--file', path], False),
                       (['-s', '--storage-class', 'no.such.Class', '--file', path], False),
                       (['-s', '--storage-class', 'durus.file_storage.Nothing', '--file', path], False),
                       (['-c', '--storage-class', 'durus.file_storage2.FileStorage2', '--file', path], False)):
        p = Process(d, args)
        procs.append(p)
        label = 'durus ' + ' '.join(args)
        ctx.trail = label
        if (p.wait(ctx) == 0) != good:
            ctx.violation('%s: status %r: %s' % (label, p.status, p.text()))
        if good and 'sage' not in p.text() and 'durus [' not in p.text():
            ctx.violation('%s: no usage: %s' % (label, p.text()))
        if files(path) != before:
            ctx.violation('%s: changes the file' % label)
        ctx.count('transitions')
    if [x for x in os.listdir(os.path.join(d, 'home')) if not x.startswith('out')]:
        ctx.violation('wrong command lines leave %r' % os.listdir(os.path.join(d, 'home')))
