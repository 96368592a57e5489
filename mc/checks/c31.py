"""C31: a pack of a running server does not disturb its clients."""
import itertools
import os
import shutil

from mc import packlib, storages

ID = 'C31'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of the interleavings of client transactions, pack requests and pack steps on the real '
             'server and clients over in-memory sockets')
RULE = ('the real serve() loop with two clients on file, file2, sqlite and memory storages, with gcbytes 0, 1, in between and '
        'huge. Every sequence up to a depth of: transactions of a writer (change, new chain, unlink, move part of a chain, '
        'change a part), reads and the end of the transaction of a reader that may hold objects that become garbage, pack '
        'requests, single pack steps, completion of the pack, and a fault that keeps packs from being started or finished '
        'coming and going; and every placement of two transactions among the steps of a pack. The reader has to see '
        'snapshots and gets conflicts only after commits; when the pack is done nothing live is missing, a further pack '
        'removes all garbage, and everything is there when the file is opened again. A state is one executed history.')
ASSUMPTIONS = ['two clients, of which one writes; the application does not put an object that it had removed back after a pack',
               'histories bounded by depth']

OPS = ('W', 'N', 'U', 'V', 'M', 'P', 'p', 'q', 'r', 'R', 'E', 'g', 'F')
WRITES = 'WNUVM'


def units(tier):
    q = tier == 'quick'
    out = []
    depth = 3 if q else 4
    for kind in ('file', 'file2', 'sqlite'):
        for gcbytes in (0, 1, 500):
            for fault in (None, 'open', 'rename') if kind != 'sqlite' else (None,):
                for first in OPS:
                    if fault is None and first == 'F':
                        continue
                    out.append(dict(what='histories', kind=kind, gcbytes=gcbytes, fault=fault, first=first,
                                    depth=depth + (fault is None and kind == 'file' and not gcbytes), cost=depth))
        for w in WRITES:
            for gcbytes in (0, 1):
                out.append(dict(what='placed', kind=kind, gcbytes=gcbytes, first=w, n=2 if q else 3, cost=6))
    for gcbytes in (0, 1):
        for first in OPS[:-1]:
            out.append(dict(what='histories', kind='mem', gcbytes=gcbytes, fault=None, first=first, depth=depth))
    for kind in ('file', 'file2', 'sqlite', 'mem'):
        out.append(dict(what='histories', kind=kind, gcbytes=10 ** 12, fault=None, first='W', depth=3))
        out.append(dict(what='threshold', kind=kind))
    return out


def setup(mode):
    from mc import netlib
    netlib.allow_threads()


def P():
    from mc.pclasses import P
    return P()


class World(object):
    def __init__(self, ctx, unit, tmpl):
        from durus.connection import Connection
        from mc.netlib import Net
        self.ctx, self.unit, self.kind = ctx, unit, unit['kind']
        self.dir = None
        if self.kind == 'mem':
            self.storage = storages.open_storage('mem')
            info = fill(self.storage)
        else:
            d, info = tmpl
            self.dir = ctx.newdir()
            for n in os.listdir(d):
                shutil.copyfile(os.path.join(d, n), os.path.join(self.dir, n))
            self.storage = storages.open_storage(self.kind, self.dir)
        self.garbage = info['g']
        self.oids = dict(info)          # what the objects of the model are
        self.dead = {info['g']}
        self.low = self.high = 0
        store = self.storage.store

        def counting(oid, record):
            self.low += len(record)
            self.high += len(record) + 12
            return store(oid, record)
        self.storage.store = counting
        self.net = Net(self.storage, gcbytes=unit['gcbytes'])
        self.c = Connection(self.net.client())
        self.root = self.c.get_root()
        self.d = Connection(self.net.client())
        self.droot = self.d.get_root()
        self.held = self.d.get(self.garbage)
        self.held._p_set_status_ghost()
        self.d.abort()
        self.states = [dict(a=0, n=(0, 0), m=None)]
        self.begin()
        self.u = 0
        self.packs = 0
        self.fault = False
        self.real = {}

    # -- the reader
    def begin(self):
        self.start = len(self.states) - 1
        self.reads = {}
        self.doomed = False

    def saw(self, key, value):
        if key in self.reads:
            self.ctx.eq(value, self.reads[key], 'a second read of %s in the transaction' % key)
        self.reads[key] = value
        for st in self.states[self.start:]:
            if all(st[k] == v for k, v in self.reads.items()):
                return
        self.ctx.violation('the reader saw %r, committed since the start of its transaction: %r' % (
            self.reads, self.states[self.start:]))

    def reader(self, f):
        from durus.error import ReadConflictError
        if self.doomed:
            return False
        try:
            f()
        except ReadConflictError:
            self.ctx.check(len(self.states) - 1 > self.start, 'a read conflict, but nothing was committed')
            self.doomed = True
        return True

    def read(self, deep):
        r = self.droot
        has = {k: k in r for k in 'nm'}
        for k in 'nm':
            if not has[k]:
                self.saw(k, None)
        self.saw('a', r['a'].v)
        if deep:
            if has['n']:
                n = r['n']
                self.saw('n', (n.v, n.nxt.v))
            if has['m']:
                self.saw('m', r['m'].v)

    def touch(self):
        from durus.error import ReadConflictError
        try:
            self.ctx.eq(self.held.v, 77, 'the state of the garbage')
        except ReadConflictError:
            self.ctx.check(self.packs, 'a read conflict for garbage before any pack was completed')
            self.doomed = True

    # -- the writer
    def write(self, op):
        st = dict(self.states[-1])
        r = self.root
        self.u += 1
        u = self.u
        new = {}
        dead = set()
        if op == 'W':
            r['a'].v = u
            st['a'] = u
        elif op == 'N':
            n = P()
            n.v = u
            n.nxt = P()
            n.nxt.v = -u
            if st['n']:
                dead = {self.oids['n'], self.oids['nxt']}
            r['n'] = n
            new = {'n': n, 'nxt': n.nxt}
            st['n'] = (u, -u)
        elif op == 'U':
            if not st['n']:
                return False
            del r['n']
            dead = {self.oids['n'], self.oids['nxt']}
            st['n'] = None
        elif op == 'V':
            if st['n']:
                r['n'].nxt.v = u
                st['n'] = (st['n'][0], u)
            elif st['m'] is not None:
                r['m'].v = u
                st['m'] = u
            else:
                return False
        elif op == 'M':
            if not st['n']:
                return False
            if st['m'] is not None:
                dead = {self.oids['m']}
            r['m'] = r['n'].nxt
            del r['n']
            dead.add(self.oids['n'])
            self.oids['m'] = self.oids['nxt']
            st['m'] = st['n'][1]
            st['n'] = None
        was = self.net.packing()
        self.high += 8
        self.c.commit()
        self.net.run()
        self.states.append(st)
        self.dead |= dead
        for k, o in new.items():
            self.oids[k] = o._p_oid
            self.dead.discard(o._p_oid)
        self.triggered(was)
        return True

    def triggered(self, was):
        g = self.unit['gcbytes']
        if was or self.kind == 'mem':
            return
        if self.net.packing():
            self.ctx.check(0 < g <= self.high, 'a pack starts after at most %d bytes, with gcbytes=%d', self.high, g)
        elif self.fault:
            self.low = 0
        else:
            self.ctx.check(not g or self.low < g, 'no pack is started after %d bytes, with gcbytes=%d', self.low, g)

    # -- packs
    def request(self):
        from mc.netlib import Stuck
        from durus.connection import Connection
        try:
            self.c.pack()
        except (Stuck, AssertionError):
            raise
        except Exception:
            if not self.fault:
                raise
            # refused; the client has to connect again
            self.net.run()
            self.c = Connection(self.net.client())
            self.root = self.c.get_root()
            return True
        return True

    def step(self):
        if not self.net.packing():
            return False
        self.net.pack_step()
        if not self.net.packing():
            self.low = 0
            self.high = 0
            self.packs += not self.fault
        return True

    def toggle(self):
        self.fault = not self.fault
        how = self.unit['fault']
        path = storages.path_of(self.kind, self.dir) + '.pack'
        if how == 'open':
            if self.fault:
                if os.path.exists(path):
                    os.rename(path, path + '.away')
                os.mkdir(path)
            else:
                os.rmdir(path)
                if os.path.exists(path + '.away'):
                    os.rename(path + '.away', path)
        else:
            def fail(*args, **kw):
                raise OSError(5, 'Input/output error')
            if self.fault:
                for n in ('rename', 'link', 'replace'):
                    self.real[n] = getattr(os, n)
                    setattr(os, n, fail)
            else:
                self.restore()

    def restore(self):
        for n, f in self.real.items():
            setattr(os, n, f)
        self.real.clear()

    def op(self, op):
        self.alive()
        if op in WRITES:
            return self.write(op)
        if op == 'P':
            return self.request()
        if op == 'p':
            return self.step()
        if op == 'q':
            if not self.step():
                return False
            n = self.packs
            while self.packs == n and self.step():
                pass
            return True
        if op in 'rR':
            return self.reader(lambda: self.read(op == 'R'))
        if op == 'E':
            if not self.reads and not self.doomed and self.start == len(self.states) - 1:
                return False
            self.d.abort()
            self.begin()
            return True
        if op == 'g':
            if self.doomed:
                return False
            self.touch()
            return True
        if op == 'F':
            self.toggle()
            return True
        raise ValueError(op)

    def alive(self):
        self.ctx.check(not self.net.done, 'the server died: %s', (self.net.died or '')[-900:])

    def finish(self):
        from durus.connection import Connection
        ctx = self.ctx
        if self.fault:
            self.toggle()
        self.complete()
        if not self.doomed:
            # the transaction of the reader goes on
            self.reader(lambda: self.read(True))
        self.d.abort()
        self.begin()
        self.read(True)
        self.c.abort()
        self.shows(self.root, 'the writer')
        self.shows(Connection(self.net.client()).get_root(), 'a new client')
        self.complete()
        self.all_packed()
        ctx.check(self.write('W'), 'write')
        self.complete()
        self.all_packed()
        self.alive()
        self.d.abort()
        self.shows(self.droot, 'the reader')
        self.net.kill()
        if self.kind != 'mem':
            self.storage.close()
            self.storage = storages.open_storage(self.kind, self.dir)
            self.shows(Connection(self.storage).get_root(), 'the opened file')

    def all_packed(self):
        """a pack without anything else meanwhile removes all garbage"""
        if self.kind == 'mem':
            return
        self.request()
        self.complete()
        for k, oid in self.oids.items():
            if oid not in self.dead:
                self.storage.load(oid)
        for oid in self.dead:
            try:
                self.storage.load(oid)
            except KeyError:
                continue
            self.ctx.violation('a pack does not remove object %r' % oid)

    def complete(self):
        while self.step():
            pass
        self.alive()

    def shows(self, r, who):
        st = self.states[-1]
        got = dict(a=r['a'].v, n=(r['n'].v, r['n'].nxt.v) if 'n' in r else None, m=r['m'].v if 'm' in r else None)
        self.ctx.eq(got, st, 'what %s sees' % who)

    def close(self):
        self.restore()
        self.net.kill()
        self.storage.close() if self.kind != 'mem' else None
        if self.dir:
            self.ctx.rmdir(self.dir)


def fill(storage):
    from durus.connection import Connection
    c = Connection(storage)
    r = c.get_root()
    r['a'], r['n'], r['g'] = P(), P(), P()
    r['n'].nxt = P()
    r['a'].v = r['n'].v = r['n'].nxt.v = 0
    r['g'].v = 77
    c.commit()
    info = dict(a=r['a']._p_oid, n=r['n']._p_oid, nxt=r['n'].nxt._p_oid, g=r['g']._p_oid)
    del r['g']
    c.commit()
    return info


def make_template(ctx, unit):
    if unit['kind'] == 'mem':
        return None
    d = ctx.newdir()
    s = storages.open_storage(unit['kind'], d)
    info = fill(s)
    s.close()
    return d, info


def execute(ctx, unit, tmpl, seq):
    """False if the last operation does not apply"""
    from mc.netlib import Stuck
    w = World(ctx, unit, tmpl)
    ctx.trail = dict(unit={k: unit[k] for k in ('kind', 'gcbytes') }, fault=unit.get('fault'), history=' '.join(map(str, seq)))
    try:
        for i, op in enumerate(seq):
            ok = w.op(op)
            ctx.count('transitions')
            if not ok:
                return False
        w.finish()
        ctx.count('states')
        ctx.count('traces_validated_against_impl')
        ctx.outcome('%s packs=%d commits=%d' % (unit['kind'], min(w.packs, 3), len(w.states)))
        return True
    except Stuck:
        w.alive()
        ctx.violation('a client gets no answer')
    finally:
        w.close()


def histories(ctx, unit, tmpl):
    def rec(seq):
        if not execute(ctx, unit, tmpl, seq):
            return
        if len(seq) == unit['depth']:
            ctx.sample(' '.join(seq), 1)
            return
        for op in OPS:
            if op == 'F' and not unit['fault']:
                continue
            if op in 'rR' and seq[-1] in 'rR' or op == 'g' and seq[-1] == 'g' or op == seq[-1] and op in 'PEF':
                continue
            rec(seq + [op])
    rec([unit['first']])


def placed(ctx, unit, tmpl):
    """a pack, with transactions at every step of it, and a reader that began before it"""
    w = World(ctx, unit, tmpl)
    try:
        w.request()
        steps = 0
        while w.step():
            steps += 1
    finally:
        w.close()
    n = unit['n']
    writes = list(WRITES)
    for rest in itertools.product(writes, repeat=n - 1):
        ops = (unit['first'],) + rest
        for at in itertools.combinations_with_replacement(range(0, steps + 2 if n < 3 else steps + 1), n):
            if n == 3 and (at[1] % 2 or at[2] % 3):
                continue
            seq = ['r', 'P']
            p = 0
            for op, k in zip(ops, at):
                seq += ['p'] * (k - p) + [op]
                p = k
            if not placed_one(ctx, unit, tmpl, seq):
                continue


def placed_one(ctx, unit, tmpl, seq):
    from mc.netlib import Stuck
    w = World(ctx, unit, tmpl)
    ctx.trail = dict(unit={k: unit[k] for k in ('kind', 'gcbytes')}, history=' '.join(seq))
    try:
        for op in seq:
            if not w.op(op) and op != 'p':
                return False
            ctx.count('transitions')
        w.finish()
        ctx.count('states')
        ctx.count('traces_validated_against_impl')
        return True
    except Stuck:
        w.alive()
        ctx.violation('a client gets no answer')
    finally:
        w.close()


def threshold(ctx, unit, tmpl):
    """the pack starts when the given number of bytes has been committed, again and again"""
    for g in list(range(1, 40)) + list(range(40, 1200, 13)):
        u = dict(unit, gcbytes=g)
        w = World(ctx, u, tmpl)
        ctx.trail = dict(kind=unit['kind'], gcbytes=g)
        try:
            for i in range(24):
                w.op(('W', 'N', 'V')[i % 3])
                if i % 5 == 4:
                    w.complete()
            ctx.check(w.packs or w.kind == 'mem', 'there was no pack')
            w.finish()
            ctx.count('states')
            ctx.count('transitions', 24)
            ctx.count('traces_validated_against_impl')
        finally:
            w.close()


def run(unit, ctx):
    packlib.small_increments()
    tmpl = make_template(ctx, unit)
    try:
        globals()[unit['what']](ctx, unit, tmpl)
    finally:
        if tmpl:
            ctx.rmdir(tmpl[0])
