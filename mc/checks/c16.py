"""C16: one writer at a time; readonly opening never writes."""
import os
import pickle
import shutil

from mc import fslog, schedlib, storages

ID = 'C16'
LEVEL = 'model_checking'
NEEDS_SHIM = True
TECHNIQUE = ('exhaustive exploration of operation histories of two openers, and of the system-call interleavings of '
             'two real processes up to a preemption bound')
RULE = ('histories: every sequence up to the depth of open (writable, readonly, with repair), commit, failing commit, pack, '
        'one step of an incremental pack, abandon a pack, close by two openers in one process or two, on a missing, '
        'empty or existing file; after every operation the directory, the results and a third '
        'opener are compared with a lock model. Schedules: every interleaving, up to the preemption bound, '
        'of the file-system calls of two processes that open, commit, pack and close. '
        'A state is one history prefix or one schedule.')
ASSUMPTIONS = ['flock conflicts between open file descriptions, as on Linux local file systems',
               'a readonly opener that looks while a transaction is being written may be told that the file is incomplete']

ROOT = b'\0' * 8


def record(n):
    from durus.serialize import pack_record
    return pack_record(ROOT, b'v%d' % n, b'')


def value(s):
    from durus.serialize import unpack_record
    try:
        return int(unpack_record(s.load(ROOT))[1][1:])
    except KeyError:
        return None


def commit(s, n):
    s.begin()
    s.store(ROOT, record(n))
    s.end()


def snapshot(d):
    out = {}
    for name in os.listdir(d):
        with open(os.path.join(d, name), 'rb') as f:
            st = os.fstat(f.fileno())
            out[name] = (st.st_ino, st.st_mtime_ns, f.read())
    return out


# ------------------------------------------------------------------ schedules

SCRIPTS = {
    'w': ('open',),
    'wc': ('open', 'commit'),
    'wcx': ('open', 'commit', 'close'),
    'wpcx': ('open', 'pack', 'commit', 'close'),
    'wpc': ('open', 'pack', 'commit'),
    'wx': ('open', 'close'),
    'wxwc': ('open', 'close', 'open', 'commit'),
    'r': ('read',),
    'wR': ('repair', 'commit'),
}


def body(kind, d, me, script):
    def f(say):
        s = None
        n = me * 100
        for op in script:
            if op in ('open', 'repair'):
                say('opening')
                try:
                    s = storages.open_storage(kind, d, repair=op == 'repair')
                except BaseException as e:
                    say('refused', '%s: %s' % (type(e).__name__, e))
                    return
                say('opened', value(s))
            elif op == 'read':
                say('reading')
                try:
                    r = storages.open_storage(kind, d, readonly=True)
                    v = value(r)
                    r.close()
                except BaseException as e:
                    say('unreadable', '%s: %s' % (type(e).__name__, e))
                    continue
                say('read', v)
            elif op == 'commit':
                n += 1
                say('committing', n)
                commit(s, n)
                say('committed', n, value(s))
            elif op == 'pack':
                s.pack()
                say('packed', value(s))
            elif op == 'close':
                say('closing')
                s.close()
                s = None
                say('closed')
        if s is not None:
            say('end', value(s))
        return s
    return f


def schedules(unit, ctx):
    kind = unit['storage']
    d = ctx.newdir()
    d0 = ctx.newdir()
    initial = None
    if unit['initial'] != 'missing':
        if unit['initial'] == 'empty':
            open(storages.path_of(kind, d0), 'wb').close()
        else:
            s = storages.open_storage(kind, d0)
            commit(s, 7)
            s.close()
            initial = 7
    bodies = [body(kind, d, i + 1, SCRIPTS[x]) for i, x in enumerate(unit['scripts'])]

    def reset():
        shutil.rmtree(d)
        shutil.copytree(d0, d)

    def on_run(schedule, events, blocked, steps):
        ctx.trail = dict(unit=unit, schedule=sorted(schedule.items()), events=repr(events))
        ctx.count('states')
        ctx.count('transitions', steps)
        ctx.count('traces_validated_against_impl')
        judge(ctx, unit, kind, d, initial, events, blocked)

    schedlib.explore(bodies, d, reset, unit['bound'], unit['first'], on_run, unit['part'], unit['parts'])
    ctx.rmdir(d)
    ctx.rmdir(d0)


def judge(ctx, unit, kind, d, initial, events, blocked):
    ctx.check(not blocked, 'an opener waits')
    acked = initial
    holder = None
    opening = {}                   # actor -> somebody else held or tried the file meanwhile
    closing = set()
    possible = {initial}
    reading = {}
    for who, e in events:
        k = e[0]
        ctx.outcome(k)
        if k == 'died':
            ctx.violation('an operation failed: %s' % e[1])
        if k == 'opening':
            opening[who] = holder is not None or bool(opening) or bool(closing)
            for x in opening:
                if x != who:
                    opening[x] = True
        elif k == 'refused':
            excuse = opening.pop(who)
            ctx.check(excuse, 'refused although nobody else used the file: %s', e[1])
        elif k == 'opened':
            opening.pop(who)
            ctx.check(holder is None, 'two writable opens of one file')
            for x in opening:
                opening[x] = True
            holder = who
            ctx.eq(e[1], acked, 'seen after opening')
        elif k == 'committing':
            possible.add(e[1])
        elif k == 'committed':
            acked = e[1]
            possible = {acked}
            for seen in reading.values():
                seen.add(acked)
            ctx.eq(e[2], acked, 'seen after the commit')
        elif k in ('packed', 'end'):
            ctx.eq(e[1], acked, 'seen after the pack')
        elif k == 'closing':
            holder = None
            closing.add(who)
        elif k == 'closed':
            closing.discard(who)
        elif k == 'reading':
            reading[who] = set(possible)
        elif k == 'read':
            seen = reading.pop(who) | possible
            ctx.check(e[1] in seen, 'a readonly open shows %r instead of one of %r', e[1], seen)
        elif k == 'unreadable':
            seen = reading.pop(who) | possible
            # the first open may be creating the file, or a commit may be under way
            ctx.check(len(seen) > 1 or unit['initial'] != 'db',
                      'a readonly open failed: %s', e[1])
    # everything acknowledged is in the file
    s = storages.open_storage(kind, d)
    ctx.eq(value(s), acked, 'in the file at the end')
    s.close()


# ------------------------------------------------------------------ histories

class Local(object):
    def __init__(self, kind, d):
        self.kind, self.d = kind, d
        self.s = self.packer = None

    def do(self, op, n=0):
        try:
            return 'ok', self._do(op, n)
        except Exception as e:
            return 'err', '%s: %s' % (type(e).__name__, str(e)[:200])

    def _do(self, op, n):
        if op in ('w', 'R', 'r'):
            self.s = storages.open_storage(self.kind, self.d, readonly=op == 'r', repair=op == 'R')
        elif op == 'c':
            commit(self.s, n)
        elif op == 'cf':
            fslog.start(self.d)
            fslog.fail(2, 28, 1, 0)
            try:
                commit(self.s, n)
            finally:
                fslog.stop()
        elif op == 'p':
            self.s.pack()
        elif op == 'pf':
            fslog.start(self.d)
            fslog.fail(n, 28, 1, 0)
            try:
                self.s.pack()
            finally:
                fslog.stop()
        elif op == 'ps':
            if self.packer is None:
                self.packer = iter(self.s.get_packer())
            for step in self.packer:
                return 'more', value(self.s)
            self.packer = None
            return 'done', value(self.s)
        elif op == 'pd':
            self.packer = None
        elif op == 'x':
            self.packer = None
            s, self.s = self.s, None
            s.close()
            return None
        elif op == 'probe':
            w = r = None
            try:
                s = storages.open_storage(self.kind, self.d)
                w = value(s)
                s.close()
                w = ('opened', w)
            except Exception as e:
                w = ('refused', type(e).__name__)
            try:
                s = storages.open_storage(self.kind, self.d, readonly=True)
                r = ('opened', value(s))
                s.close()
            except Exception as e:
                r = ('refused', type(e).__name__)
            return w, r
        return value(self.s)

    def reset(self):
        self.packer = None
        if self.s is not None:
            try:
                self.s.close()
            except Exception:
                pass
        self.s = None


class Remote(object):
    """the same in another process"""
    def __init__(self, kind, d):
        ar, aw = os.pipe()
        br, bw = os.pipe()
        self.pid = os.fork()
        if not self.pid:
            try:
                os.close(ar), os.close(bw)
                local = Local(kind, d)
                f = os.fdopen(br, 'rb')
                while True:
                    try:
                        op = pickle.load(f)
                    except EOFError:
                        break
                    if op == 'reset':
                        out = local.reset()
                    else:
                        out = local.do(*op)
                    os.write(aw, pickle.dumps(out))
            finally:
                os._exit(0)
        os.close(aw), os.close(br)
        self.r, self.w = os.fdopen(ar, 'rb'), bw

    def do(self, *op):
        os.write(self.w, pickle.dumps(op))
        return pickle.load(self.r)

    def reset(self):
        os.write(self.w, pickle.dumps('reset'))
        pickle.load(self.r)

    def close(self):
        os.close(self.w)
        self.r.close()
        os.waitpid(self.pid, 0)


class Model(object):
    def __init__(self, initial):
        self.exists = initial != 'missing'
        self.valid = initial == 'db'
        self.acked = 7 if initial == 'db' else None
        self.mode = [None, None]
        self.view = [None, None]
        self.packing = [False, False]
        self.n = 100

    def legal(self):
        for i in (0, 1):
            if self.mode[i] is None:
                for op in ('w', 'r', 'R'):
                    yield i, op
            elif self.mode[i] == 'r':
                for op in ('c', 'p', 'ps', 'x'):
                    yield i, op
            else:
                for op in ('c', 'cf', 'p', 'pf', 'ps', 'x'):
                    if self.acked is not None or op not in ('p', 'pf', 'ps'):
                        yield i, op
                if self.packing[i]:
                    yield i, 'pd'


def apply(ctx, m, openers, d, who, op, k, fresh):
    before = snapshot(d)
    m.n += 1
    status, v = openers[who].do(op, k if op == 'pf' else m.n)
    after = snapshot(d)
    other = m.mode[1 - who]
    mode = m.mode[who]
    what = '%s by opener %d' % (op, who)
    if op in ('w', 'R'):
        if other == 'w':
            ctx.check(status == 'err', '%s: two writable opens', what)
            ctx.check(before == after, '%s: the refused open changed the files', what)
        else:
            ctx.eq((status, v), ('ok', m.acked), what)
            m.mode[who] = 'w'
            m.exists = m.valid = True
    elif op == 'r':
        ctx.check(before == after, '%s changed the files: %r', what, sorted(after))
        if not m.exists or not m.valid:
            if not m.exists:
                ctx.check(status == 'err', '%s of a missing file succeeded', what)
            if status == 'ok':
                openers[who].do('x')
        else:
            ctx.eq((status, v), ('ok', m.acked), what)
            m.mode[who] = 'r'
            m.view[who] = m.acked
    elif mode == 'r':
        ctx.check(before == after, '%s, which is readonly, changed the files', what)
        if op == 'x':
            ctx.eq(status, 'ok', what + ' ' + str(v))
            m.mode[who] = None
        else:
            if op == 'c':
                ctx.check(status == 'err', '%s, which is readonly, was not refused', what)
            got = openers[who].do('v')
            ctx.eq(got, ('ok', m.view[who]), 'view of a readonly storage')
    elif op == 'c':
        ctx.eq((status, v), ('ok', m.n), what)
        m.acked = m.n
    elif op == 'cf':
        ctx.check(status == 'err', '%s: a failed commit was reported as done', what)
        got = openers[who].do('v')
        ctx.eq(got, ('ok', m.acked), 'value after a failed commit')
    elif op in ('p', 'pf'):
        if op == 'p':
            ctx.eq(status, 'ok', '%s %s' % (what, v))
        ctx.eq(openers[who].do('v'), ('ok', m.acked), 'value after a pack')
    elif op == 'ps':
        ctx.eq(status, 'ok', '%s %s' % (what, v))
        ctx.eq(v[1], m.acked, 'value during a pack')
        m.packing[who] = v[0] == 'more'
    elif op == 'pd':
        m.packing[who] = False
    elif op == 'x':
        ctx.eq(status, 'ok', what + ' ' + str(v))
        m.mode[who] = None
        m.packing[who] = False
    if not fresh:
        return
    ctx.count('states')
    ctx.outcome(op + ' ' + status)
    # a third opener
    before = snapshot(d)
    status, v = openers[2].do('probe')
    ctx.eq(status, 'ok', 'probe')
    w, r = v
    after = snapshot(d)
    if 'w' in m.mode:
        ctx.eq(w[0], 'refused', 'a writable open by a third opener after ' + what)
        ctx.check(before == after, 'the attempts of a third opener changed the files')
        ctx.eq(r, ('opened', m.acked), 'a readonly open by a third opener after ' + what)
    elif m.valid:
        ctx.eq(w, ('opened', m.acked), 'a writable open by a third opener after ' + what)
        ctx.check({k: x[2] for k, x in before.items()} == {k: x[2] for k, x in after.items()},
                  'opening and closing changed the contents')
        ctx.eq(r, ('opened', m.acked), 'a readonly open by a third opener after ' + what)
    else:
        return True             # (the probe has made it a database)


def histories(unit, ctx):
    kind = unit['storage']
    d = ctx.newdir()
    d0 = ctx.newdir()
    if unit['initial'] == 'empty':
        open(storages.path_of(kind, d0), 'wb').close()
    elif unit['initial'] == 'db':
        s = storages.open_storage(kind, d0)
        commit(s, 7)
        s.close()
    remotes = [Remote(kind, d)]
    if unit['remote']:
        remotes.append(Remote(kind, d))
    openers = [Local(kind, d), remotes[1] if unit['remote'] else Local(kind, d), remotes[0]]
    seen = set()
    try:
        todo = [()]
        while todo:
            prefix = todo.pop()
            shutil.rmtree(d)
            shutil.copytree(d0, d)
            m = Model(unit['initial'])
            spoiled = False
            for i, (who, op) in enumerate(prefix):
                ctx.trail = dict(unit=unit, history=prefix[:i + 1])
                new = i == len(prefix) - 1
                spoiled = apply(ctx, m, openers, d, who, op, unit['pf'], new)
            nxt = list(m.legal())
            for o in openers:
                o.reset()
            if prefix:
                ctx.count('transitions')
                ctx.count('traces_validated_against_impl')
            if len(prefix) < unit['depth']:
                for j, step in enumerate(nxt):
                    if len(prefix) == 1 and j % unit['parts'] != unit['part']:
                        continue
                    todo.append(prefix + (step,))
    finally:
        for r in reversed(remotes):
            r.close()
    ctx.rmdir(d)
    ctx.rmdir(d0)


# ------------------------------------------------------------------ units

def units(tier):
    q = tier == 'quick'
    out = []
    b = 2
    pairs = [('wc', 'wc', ('missing', 'empty', 'db')), ('wcx', 'wc', ('missing', 'db')),
             ('wpc', 'wc', ('db',)), ('wpcx', 'wc', ('db',)), ('wxwc', 'wc', ('db', 'missing')),
             ('wcx', 'r', ('missing', 'empty', 'db')), ('wpcx', 'r', ('db',)), ('wpc', 'wR', ('db',)),
             ('wpcx', 'wpc', ('db',))]
    for kind in ('file', 'file2'):
        for a, c, initials in pairs:
            for initial in initials:
                for first in (0, 1):
                    parts = 2 if q else 8
                    for part in range(parts):
                        out.append(dict(what='schedules', storage=kind, scripts=(a, c), initial=initial, first=first,
                                        bound=b, part=part, parts=parts, cost=20 if 'p' in a else 5))
    for kind in ('file', 'file2'):
        for initial in ('missing', 'empty', 'db'):
            for remote in (False, True):
                depth = (4 if initial == 'db' else 3) if q else 5
                parts = 4 if q else 16
                for part in range(parts):
                    for pf in ((1, 3) if q else (1, 2, 3, 5, 8, 12)) if initial == 'db' else (2,):
                        out.append(dict(what='histories', storage=kind, initial=initial, remote=remote, depth=depth,
                                        part=part, parts=parts, pf=pf, cost=30 if initial == 'db' else 5))
    return out


def run(unit, ctx):
    if unit['what'] == 'schedules':
        schedules(unit, ctx)
    else:
        histories(unit, ctx)
