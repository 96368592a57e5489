"""C10: an object identifier is never given to two live objects."""
import gc
import itertools

from mc import packlib, storages
from mc.crashlib import i8, rec, dump, do_commit, reachable

ID = 'C10'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of all operation sequences on the real storages and the real server with two clients'
RULE = ('(a) memory, temporary, file, file2, sqlite storages x 5 initial databases (empty, small, with holes below / above the '
        'live oids, packed): every sequence of given length of allocating, committing the newest / oldest '
        'allocated oid (linked or as garbage), unlinking, starting / stepping / finishing a pack, syncing, reopening. (b) a '
        'server over each with two clients: allocating in batches of 1 and 2, committing, a commit '
        'refused by a conflict (its oids are used again), unlinking, packing, stepping the pack, syncing, breaking the connection, '
        'restarting the server. No oid handed out may be in the database, handed out to anybody else and '
        'unused, or removed without every client having been told. transitions = operations.')
ASSUMPTIONS = ['the database behind a server has its root before two clients connect']

OPS = 'ncogupsfyr'
KINDS = ('mem', 'tmp', 'file', 'file2', 'sqlite')
BASES = ('empty', 'small', 'low', 'high', 'packed')


def units(tier):
    q = tier == 'quick'
    out = []
    for kind in KINDS:
        for base in BASES:
            if base == 'packed' and kind in ('mem', 'tmp'):
                continue
            depth = 5 + (0 if q else 1)
            ops = OPS if kind not in ('mem', 'tmp') else 'ncogu'
            if q and kind != 'file' and base in ('small', 'packed'):
                depth -= 1
            for first in itertools.product(ops, repeat=2):
                out.append(dict(part='a', kind=kind, base=base, depth=depth, first=''.join(first),
                                ops=ops, cost=len(ops) ** depth))
    for kind in ('mem', 'file', 'file2', 'sqlite'):
        for base in ('small', 'high'):
            for batch in (1, 2):
                for first in SERVER_OPS:
                    if first[-1] == '1':
                        continue
                    out.append(dict(part='b', kind=kind, base=base, batch=batch, first=first,
                                    depth=(3 if kind != 'file' else 4) if q else (4 if kind != 'file' else 5), cost=50000))
    return out


def setup(mode):
    gc.collect()
    gc.freeze()


def run(unit, ctx):
    packlib.small_increments()
    if unit['part'] == 'a':
        rest = unit['depth'] - len(unit['first'])
        for tail in itertools.product(unit['ops'], repeat=rest):
            h = unit['first'] + ''.join(tail)
            if useless(h):
                continue
            raw(unit, ctx, h)
    else:
        rest = unit['depth'] - 1
        dead = set()
        for tail in itertools.product(SERVER_OPS, repeat=rest):
            h = (unit['first'],) + tail
            if any(h[:k] in dead for k in range(2, len(h) + 1)) or 'n' not in ''.join(h)[1:] and \
                    'x' not in ''.join(h)[1:] and 'c' not in ''.join(h)[1:]:
                continue
            n = server(unit, ctx, h)
            if n is not None:
                dead.add(h[:n + 1])


def useless(h):
    """sequences that end without an allocation or repeat an operation that does nothing twice"""
    return 'n' not in h or h[-1] != 'n' or 'yy' in h or 'rr' in h or 'pp' in h or 'ff' in h or \
        's' in h and 'p' not in h[:h.index('s')] or 'f' in h and 'p' not in h[:h.index('f')]


class Judge(object):
    def __init__(self, ctx, label, nclients=1):
        self.ctx = ctx
        self.label = label
        self.out = [set() for _ in range(nclients)]      # handed out, not used
        self.untold = [set() for _ in range(nclients)]   # removed, not reported
        self.have_root = False

    def given(self, c, oid, present):
        if not self.have_root:
            if i8(0) in present:
                self.have_root = True
        if oid in present:
            self.bad('which is an object in the database', oid)
        for i, s in enumerate(self.out):
            if oid in s:
                self.bad('which was handed out before and is not used' + (
                    ' by client %d' % i if len(self.out) > 1 else ''), oid)
        for i, s in enumerate(self.untold):
            if oid in s:
                self.bad('which was removed, and client %d has not been told' % i, oid)
        if oid == i8(0) and self.have_root:
            self.bad('the oid of the root', oid)
        self.out[c].add(oid)

    def bad(self, why, oid):
        self.ctx.violation('%s: new_oid gives %d, %s' % (self.label, packlib.from_oid(oid), why))

    def removed(self, oids):
        for s in self.untold:
            s |= oids

    def told(self, c, oids):
        self.untold[c] -= set(bytes(o) for o in oids)

    def committed(self, oids):
        for s in self.out:
            s -= set(oids)
        for s in self.untold:
            s -= set(oids)


def base_state(kind, base, d, s):
    """Fill s; returns (storage, state)."""
    m = packlib.Model(s)
    if base == 'empty':
        return s, {}
    if base == 'small':
        assert s.new_oid() == i8(0)
        n = [s.new_oid() for _ in range(2)]
        m.commit({0: [1, 2], 1: [], 2: []})
    elif base in ('low', 'high', 'packed'):
        assert s.new_oid() == i8(0)
        for _ in range(5):
            s.new_oid()
        m.commit({0: [1, 2, 3, 4, 5], 1: [], 2: [], 3: [], 4: [], 5: []})
        m.commit({0: [1] if base == 'high' else [5]})
        if base == 'packed':
            s.close()
            s = storages.open_storage(kind, d)
            s.pack()
            s.sync()
            s.close()
            s = storages.open_storage(kind, d)
            m.state = reachable(m.state)
    return s, m.state


def raw(unit, ctx, h):
    kind = unit['kind']
    d = ctx.newdir()
    s = None
    label = '%s storage, %s database, %s' % (kind, unit['base'], h)
    ctx.trail = label
    try:
        s, state = base_state(kind, unit['base'], d, storages.open_storage(kind, d))
        j = Judge(ctx, label)
        state = dict(state)
        serial = 0
        packer = None
        alloc = []                      # in order
        linked = []
        for op in h:
            ctx.count('transitions')
            serial += 1
            if op == 'n':
                oid = bytes(s.new_oid())
                if unit['base'] == 'empty' and not alloc and not state and oid != i8(0) and 'r' not in h:
                    ctx.violation('%s: the first oid of an empty storage is %r' % (label, oid))
                j.given(0, oid, state)
                alloc.append(oid)
            elif op in 'cog':
                if not alloc:
                    return
                oid = alloc.pop(-1 if op != 'o' else 0)
                if not state and oid != i8(0):
                    return              # the root comes first
                r = {oid: rec(oid, b'%d' % serial)}
                if op != 'g' and oid != i8(0):
                    linked.append(oid)
                    r[i8(0)] = rec(i8(0), b'%d' % serial, keep(state) + [oid])
                do_commit(s, r)
                state.update(r)
                j.committed(r)
            elif op == 'u':
                k = keep(state)
                if not k:
                    return
                r = {i8(0): rec(i8(0), b'%d' % serial, k[:-1])}
                do_commit(s, r)
                state.update(r)
            elif op == 'p':
                if packer is not None or not state or kind in ('mem', 'tmp'):
                    return
                packer = iter(s.get_packer())
                next(packer, None)
            elif op in 'sf':
                if packer is None:
                    return
                n = 0
                for _ in packer:
                    n += 1
                    if op == 's' and n >= 6:
                        break
                else:
                    packer = None
                now = dump(s)
                gone = set(state) - set(now)
                state = {o: state[o] for o in now}
                j.removed(gone)
            elif op == 'y':
                j.told(0, s.sync())
            elif op == 'r':
                if kind in ('mem', 'tmp'):
                    return
                packer = None
                s.close()
                s = storages.open_storage(kind, d)
                state = dump(s)
                j = Judge(ctx, label)
                j.have_root = i8(0) in state
                alloc = []
        got = set(dump(s)) if state else set()
        if kind == 'mem':
            state = reachable(state)
        if got != set(state):
            ctx.violation('%s: the storage holds %s, expected %s' % (
                label, sorted(map(packlib.from_oid, got)), sorted(map(packlib.from_oid, state))))
        ctx.count('traces_validated_against_impl')
        ctx.count('states')
        ctx.outcome('%d handed out' % len(j.out[0]))
    finally:
        if s is not None:
            s.close()
        ctx.rmdir(d)


def keep(state):
    from durus.serialize import unpack_record, split_oids
    if i8(0) not in state:
        return []
    return list(split_oids(unpack_record(state[i8(0)])[2]))


# ---------------------------------------------------------------- the server

SERVER_OPS = ('n0', 'n1', 'c0', 'c1', 'x0', 'x1', 'u0', 'p', 's', 'f', 'y0', 'y1', 'D0', 'D1', 'R')


class Refuse(object):
    def __init__(self, j, c, refuse):
        self.j, self.c, self.refuse = j, c, refuse
        self.called = False

    def __call__(self, oids):
        from durus.error import WriteConflictError
        self.called = True
        self.j.told(self.c, oids)
        if self.refuse:
            raise WriteConflictError(oids)


def server(unit, ctx, h):
    """Returns the index of an operation that makes no sense."""
    from mc.netlib import Net, Stuck
    from durus.error import ConflictError
    from mc import netlib
    netlib.allow_threads()
    kind = unit['kind']
    d = ctx.newdir()
    s = net = None
    label = 'server over %s, %s database, batches of %d, %s' % (
        kind, unit['base'], unit['batch'], ' '.join(h))
    ctx.trail = label
    try:
        s, state = base_state(kind, unit['base'], d, storages.open_storage(kind, d))
        state = dict(state)
        net = Net(s)
        clients = []

        def connect():
            c = net.client()
            c.oid_pool_size = unit['batch']
            c.begin()
            return c

        j = Judge(ctx, label, 2)
        j.have_root = True
        clients = [connect(), connect()]
        mine = [[], []]
        serial = 100
        for at, op in enumerate(h):
            net.check_alive()
            ctx.count('transitions')
            serial += 1
            c = int(op[1]) if len(op) > 1 else None
            k = op[0]
            if k == 'n':
                oid = bytes(clients[c].new_oid())
                # the client may give an oid back to itself, but not twice
                j.given(c, oid, state)
                mine[c].append(oid)
            elif k in 'cx':
                cl = clients[c]
                if not mine[c]:
                    cl.begin()
                    oid = bytes(cl.new_oid())
                    j.given(c, oid, state)
                    used = [oid]
                else:
                    # oids of an earlier transaction, as when the objects were found but not stored
                    used = list(mine[c])
                    if k == 'x':
                        cl.begin()
                        extra = bytes(cl.new_oid())
                        j.given(c, extra, state)
                        used = [extra]
                r = {o: rec(o, b'%d' % serial) for o in used}
                r[i8(0)] = rec(i8(0), b'%d' % serial, keep(state) + used)
                for o in r:
                    cl.store(o, r[o])
                f = Refuse(j, c, k == 'x')
                refused = False
                try:
                    cl.end(f)
                except ConflictError:
                    if k != 'x':
                        raise
                    refused = True
                    # its oids are not used by any object now
                    j.out[c] -= set(used)
                if k == 'x' and not refused and f.called:
                    ctx.violation('%s: the conflict was ignored' % label)
                if not refused:
                    state.update(r)
                    j.committed(r)
                    mine[c] = [o for o in mine[c] if o not in used]
                    cl.begin()
            elif k == 'u':
                kk = keep(state)
                if not kk:
                    return at
                r = {i8(0): rec(i8(0), b'%d' % serial, kk[:-1])}
                clients[0].begin()
                mine0 = mine[0]
                for o in r:
                    clients[0].store(o, r[o])
                clients[0].end(Refuse(j, 0, False))
                clients[0].begin()
                state.update(r)
            elif k == 'p':
                clients[0].pack()
                finish(net, j, state, s, 0)
            elif k == 's':
                if not net.packing():
                    return at
                finish(net, j, state, s, 8)
            elif k == 'f':
                if not net.packing():
                    return at
                finish(net, j, state, s, 10000)
            elif k == 'y':
                j.told(c, clients[c].sync())
            elif k == 'D':
                clients[c].s.close()
                net.run()
                clients[c] = connect()
                mine[c] = []
                j.out[c].clear()
                j.untold[c].clear()
            elif k == 'R':
                net.kill()
                if kind == 'mem':
                    return at
                s.close()
                s = storages.open_storage(kind, d)
                net = Net(s)
                state = dump(s)
                j = Judge(ctx, label, 2)
                j.have_root = True
                clients = [connect(), connect()]
                mine = [[], []]
        net.check_alive()
        # finish the pack, everybody syncs, allocate once more
        finish(net, j, state, s, 10000)
        for c in (0, 1):
            for _ in range(3):
                j.given(c, bytes(clients[c].new_oid()), state)
        for c in (0, 1):
            j.told(c, clients[c].sync())
            if j.untold[c]:
                ctx.violation('%s: client %d is never told that %s were removed' % (
                    label, c, sorted(map(packlib.from_oid, j.untold[c]))))
        got = dump(s)
        if kind == 'mem':
            state = reachable(state)
        if got != state:
            ctx.violation('%s: at the end the storage holds %s, expected %s' % (
                label, sorted(map(packlib.from_oid, got)), sorted(map(packlib.from_oid, state))))
        net.check_alive()
        ctx.count('traces_validated_against_impl')
        ctx.count('states')
        ctx.outcome('server %d live' % len(got))
    except Stuck as e:
        ctx.violation('%s: %s' % (label, e))
    finally:
        if net is not None:
            net.kill()
        if s is not None:
            s.close()
        ctx.rmdir(d)


def finish(net, j, state, s, n):
    while n and net.pack_step():
        n -= 1
    if hasattr(s, 'records'):
        return
    now = dump(s)
    gone = set(state) - set(now)
    if gone:
        for o in gone:
            del state[o]
        j.removed(gone)
