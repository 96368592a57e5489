"""Sizes: many objects and large records, around the limits of buffers, counters and batches."""
import hashlib

from mc import netlib, storages
from mc.crashlib import i8, rec

COUNTS = (99, 100, 101, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1022, 1023, 1024, 1025, 1228, 1229, 1230, 2500, 4097)
MANY = (10001, 66000)
BYTES = (0, 1, 127, 128, 254, 255, 256, 257, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 20001, 32767, 32768, 65534, 65535,
         65536, 65537, 99999, 131071, 131072, 262143, 262144, 262145, 524289, 999999, 1000000, 1000001, 1048576, 1048577, 2000001)
HUGE = (16777215, 16777216, 16777217)


def noise(n, seed=0):
    """n bytes without repetitions"""
    out = []
    for i in range(0, n, 64):
        out.append(hashlib.sha512(b'%d %d' % (seed, i)).digest())
    return b''.join(out)[:n]


class Mirror(object):
    """a storage, perhaps behind a server, and the records it should have"""

    def __init__(self, ctx, label, kind, net):
        self.ctx = ctx
        self.label = label
        self.kind = kind
        self.with_net = net
        self.d = ctx.newdir()
        self.net = None
        self.state = {}
        self.given = set()
        self.open()

    def open(self):
        netlib.allow_threads()
        self.base = self.front = storages.open_storage(self.kind, self.d)
        if self.with_net:
            self.net = netlib.Net(self.base)
            self.net.max_pack_steps = 10 ** 6
            self.front = self.net.client()

    def reopen(self):
        if self.kind not in storages.DISK:
            return False
        if self.net:
            self.net.kill()
        self.base.close()
        self.open()
        return True

    def close(self):
        if self.net:
            self.net.kill()
        self.base.close()
        self.ctx.rmdir(self.d)

    def new(self, n):
        out = []
        for i in range(n):
            o = bytes(self.front.new_oid())
            if o in self.given or o in self.state:
                self.ctx.violation('%s: an oid in use is given out' % self.label)
            self.given.add(o)
            out.append(o)
        return out

    def commit(self, changes):
        """changes: {oid: (data, refs)}"""
        f = self.front
        f.begin()
        for o, (data, refs) in changes.items():
            r = rec(o, data, refs)
            self.state[o] = r
            f.store(o, r)
        f.end(lambda oids: None)
        self.ctx.count('transitions')

    def pack(self, at=None):
        """pack; at: {step: changes} committed between steps"""
        self.ctx.count('transitions')
        if self.kind in ('mem', 'tmp'):
            self.base.pack()
            return 0
        n = 0
        if self.net:
            self.front.pack()
            while self.net.packing():
                if at and n in at:
                    self.commit(at[n])
                self.net.pack_step()
                n += 1
        else:
            for step in self.base.get_packer():
                if at and n in at:
                    self.commit(at[n])
                n += 1
        live = self.reach(i8(0))
        self.given -= set(self.state) - live      # these may be given again
        for o in list(self.state):
            if o not in live:
                del self.state[o]
                self.gone.add(o)
        if self.net:
            list(self.front.sync())
        return n

    gone = frozenset()

    def reach(self, start):
        from durus.serialize import split_oids, unpack_record
        out, todo = set(), [start]
        while todo:
            o = todo.pop()
            if o not in out:
                out.add(o)
                todo.extend(bytes(r) for r in split_oids(unpack_record(self.state[o])[2]))
        return out

    def check(self, when, batches=(1, 100)):
        ctx, f, state = self.ctx, self.front, self.state
        label = '%s: %s' % (self.label, when)
        ctx.trail = label
        for o in state:
            if bytes(f.load(o)) != state[o]:
                ctx.violation('%s: another record of %r' % (label, o))
                return
        for o in self.gone:
            try:
                f.load(o)
            except KeyError:
                pass
            else:
                ctx.violation('%s: %r is still there' % (label, o))
                return
        oids = sorted(state)
        for some in (oids, oids[::-1]):
            got = [bytes(r) for r in f.bulk_load(some)]
            if got != [state[o] for o in some]:
                ctx.violation('%s: bulk_load of %d gives other records (%d)' % (label, len(some), len(got)))
                return
        live = self.reach(i8(0))
        got = [(bytes(o), bytes(r)) for o, r in f.gen_oid_record()]
        if len(got) != len(set(o for o, r in got)) or any(state.get(o) != r for o, r in got) or (
                not live <= set(o for o, r in got)):
            ctx.violation('%s: iteration gives %d, of %d records' % (label, len(got), len(state)))
            return
        for batch in batches:
            got = [(bytes(o), bytes(r)) for o, r in f.gen_oid_record(start_oid=i8(0), batch_size=batch)]
            if len(got) != len(live) or set(o for o, r in got) != live or any(state[o] != r for o, r in got):
                ctx.violation('%s: iteration from the root in batches of %d gives %d records, expected %d' % (
                    label, batch, len(got), len(live)))
                return
        ctx.count('states')
        ctx.count('traces_validated_against_impl')


def links(shape, oids, n):
    """the references of the i-th object, which lead to the first n objects"""
    if shape == 'star':
        return lambda i: oids[1:n] if i == 0 else oids[:1] if i % 2 else []
    if shape == 'chain':
        return lambda i: oids[i + 1:i + 2] if i + 1 < n else []
    return lambda i: [o for o in oids[2 * i + 1:2 * i + 3] if o in oids[:n]] if n < len(oids) else oids[2 * i + 1:2 * i + 3]


def many(ctx, kind, net, n, shape):
    m = Mirror(ctx, '%s%s, %s of %d objects' % (kind, ' by a server' * net, shape, n), kind, net)
    m.gone = set()
    big = n > 5000
    batches = (n,) if big else (1, 100, n - 1, n)
    try:
        oids = m.new(n)
        if sorted(oids)[0] != i8(0) or len(set(oids)) != n:
            ctx.violation('%s: the first oids' % m.label)
        link = links(shape, oids, n)
        m.commit({o: (b'first', link(i)) for i, o in enumerate(oids)})
        m.check('stored', batches)
        if m.reopen():
            m.check('stored and opened again', (n,))
        m.commit({o: (b'second', link(i)) for i, o in enumerate(oids) if i % 3 == 0})
        more = m.new(40)
        m.commit(dict([(o, (b'more', [])) for o in more] + [(oids[0], (b'again', link(0) + more))]))
        m.check('changed', (n,))
        steps = m.pack()
        m.check('changed and packed', (n,))
        for h in (n // 2, n // 2 - 1) if not big else (n // 2,):
            # the second half is cut off, except that a commit during the next pack links its end
            keep = links(shape, oids[:h], h)
            m.commit({o: (b'third', keep(i)) for i, o in enumerate(oids[:h]) if keep(i) != link(i)})
            m.check('cut at %d' % h, (n,))
            at = {steps // 5: {oids[1]: (b'fourth', keep(1) + oids[-1:])}} if h == n // 2 and oids[-1] in m.state else None
            steps = m.pack(at)
            m.check('cut at %d and packed' % h, batches)
            m.given -= m.gone
            new = m.new(5)
            m.gone -= set(new)
            m.commit(dict([(o, (b'new', [oids[0]])) for o in new] + [(oids[0], (b'fifth', keep(0) + new))]))
            m.check('cut at %d, packed, new objects' % h, (n,))
            if m.reopen():
                m.check('cut at %d, packed, opened again' % h, (n,))
            m.given -= m.gone
    finally:
        m.close()


def large(ctx, kind, net, size, compressible):
    m = Mirror(ctx, '%s%s, records of %d bytes%s' % (kind, ' by a server' * net, size, ' of one sort' * compressible), kind, net)
    m.gone = set()
    data = (lambda k: bytes([65 + k]) * size) if compressible else (lambda k: noise(size, k))
    try:
        oids = m.new(5)
        m.commit({o: (data(k), oids[k + 1:k + 2][:3 - k]) for k, o in enumerate(oids[:4])})
        m.check('stored', (1, 2, 100))
        m.commit({oids[1]: (b"x", oids[2:3]), oids[3]: (b"y", oids[4:]), oids[4]: (data(4), [])})
        m.check('changed', (1,))
        if m.reopen():
            m.check('opened again', (1,))
        m.pack()
        m.check('packed', (2,))
        m.commit({oids[2]: (data(6), [])})
        m.check('changed again', (2,))
        m.pack()
        m.check('packed again', (2,))
        if m.reopen():
            m.check('packed and opened again', (2,))
    finally:
        m.close()


def units(q):
    out = []
    for kind in ('mem', 'tmp', 'file', 'file2', 'sqlite'):
        for net in (False, True):
            if kind == 'tmp' and net:
                continue
            sizes = [n for n in COUNTS if not q or not net or n in (101, 256, 257, 1001, 1025, 2500)]
            for shape in ('star', 'chain', 'tree'):
                for n in sizes:
                    if shape == 'chain' and n > 1100 and q:
                        continue
                    out.append(dict(many=n, kind=kind, net=net, shape=shape, cost=n / 20))
            for n in MANY if not q else (10001,) if net else (10001, 66000) if kind in ('file', 'sqlite') else (10001,):
                out.append(dict(many=n, kind=kind, net=net, shape='star', cost=n / 20))
            for size in BYTES + (HUGE if not q else HUGE[:1] if net or kind == 'file' else ()):
                out.append(dict(large=size, kind=kind, net=net, cost=2 + size / 10000))
    return out


def run(unit, ctx):
    if 'many' in unit:
        many(ctx, unit['kind'], unit['net'], unit['many'], unit['shape'])
        ctx.sample('%(shape)s of %(many)d objects, %(kind)s' % unit)
    else:
        for compressible in (False, True):
            large(ctx, unit['kind'], unit['net'], unit['large'], compressible)
        ctx.sample('records of %(large)d bytes, %(kind)s' % unit)


# ------------------------------------------------------------------ graphs of many objects, through connections

GRAPH_SIZES = (20, 99, 100, 101, 255, 256, 257, 513, 1001, 1025, 2500)


def children(shape, n, i):
    """the objects that the i-th of n refers to (the root refers to the first)"""
    if shape == 'star':
        return range(1, n) if i == 0 else (0,)
    if shape == 'chain':
        return range(i + 1, min(n, i + 2))
    if shape == 'wide':       # two levels
        k = int(n ** 0.5) + 1
        return range(1, min(n, k + 1)) if i == 0 else range(i * k + 1, min(n, i * k + k + 1)) if i <= k else ()
    return range(2 * i + 1, min(n, 2 * i + 3))


class Graph(object):
    def __init__(self, ctx, kind, net, n, shape, cache, pad=0):
        from durus.connection import Connection
        from mc import pclasses
        netlib.allow_threads()
        self.ctx, self.n, self.shape = ctx, n, shape
        self.label = '%s%s, %s of %d objects, cache %d' % (kind, ' by a server' * net, shape, n, cache)
        ctx.trail = self.label
        self.d = ctx.newdir()
        self.kind = kind
        self.net = None
        self.cache = cache
        self.base = storages.open_storage(kind, self.d)
        if net:
            self.net = netlib.Net(self.base)
            self.net.max_pack_steps = 10 ** 6
        self.c = self.connect()
        objs = [pclasses.P() for i in range(n)]
        for i, o in enumerate(objs):
            o.a = i
            if pad:
                o.pad = 'x' * pad
            o.refs = [objs[j] for j in children(shape, n, i)]
        self.c.get_root()['first'] = objs[0]
        self.c.commit()
        self.oids = [o._p_oid for o in objs]
        self.value = list(range(n))
        self.live = set(range(n))
        ctx.eq(len(set(self.oids)), n, '%s: distinct oids' % self.label)

    def connect(self):
        from durus.connection import Connection
        return Connection(self.net.client() if self.net else self.base, cache_size=self.cache)

    def look(self, c, when):
        """every object, reached from the root, has its value"""
        self.ctx.count('states')
        self.ctx.count('traces_validated_against_impl')
        got = {}
        todo = [c.get_root()['first']]
        name = dict((o, i) for i, o in enumerate(self.oids))
        hold = []
        while todo:
            o = todo.pop()
            i = name.get(o._p_oid)
            if i is None:
                self.ctx.violation('%s: %s: an object %r' % (self.label, when, o._p_oid))
            if i in got:
                continue
            got[i] = o.a
            hold.append(o)
            if c.get(o._p_oid) is not o:
                self.ctx.violation('%s: %s: two instances of object %d' % (self.label, when, i))
            todo.extend(o.refs)
            o = None
        wrong = [i for i in self.live if got.get(i) != self.value[i]]
        if wrong or set(got) != self.live:
            self.ctx.violation('%s: %s: wrong are %d of %d objects, e.g. %r' % (
                self.label, when, len(wrong), len(self.live),
                [(i, got.get(i), self.value[i]) for i in wrong[:3]]))

    def write(self, c, which, offset, keep=True):
        for i in which:
            o = c.get(self.oids[i])
            o.a = o.a + offset
            if keep:
                self.value[i] += offset
        self.ctx.count('transitions')

    def reopen(self):
        if self.kind in storages.DISK:
            self.c = None
            if self.net:
                self.net.kill()
            self.base.close()
            netlib.allow_threads()
            self.base = storages.open_storage(self.kind, self.d)
            if self.net:
                self.net = netlib.Net(self.base)
                self.net.max_pack_steps = 10 ** 6
        self.c = self.connect()

    def close(self):
        if self.net:
            self.net.kill()
        self.base.close()
        self.ctx.rmdir(self.d)


def transactions(ctx, kind, net, n, shape, cache, pad):
    """big transactions, committed and aborted"""
    g = Graph(ctx, kind, net, n, shape, cache, pad)
    try:
        g.look(g.connect(), 'stored')
        g.look(g.c, 'stored, seen by the writer')
        for which in (range(n), range(0, n, 3), range(n - 1, -1, -1)):
            hold = [g.c.get(o) for o in g.oids]
            g.write(g.c, which, 100000, keep=False)
            g.c.abort()
            g.look(g.c, 'aborted')
            g.write(g.c, which, 1000000)
            g.look(g.c, 'changed')
            hold = None
            g.c.commit()
            g.look(g.c, 'committed, seen by the writer')
            g.look(g.connect(), 'committed')
        # cut the last half of the links
        h = n // 2
        reach, todo = set(), [0]
        while todo:
            i = todo.pop()
            if i not in reach:
                reach.add(i)
                todo.extend(j for j in children(shape, n, i) if j < h)
        number = dict((o, i) for i, o in enumerate(g.oids))
        for i in range(h):
            o = g.c.get(g.oids[i])
            o.refs = [r for r in o.refs if number[r._p_oid] < h]
        g.live = reach
        g.c.commit()
        g.c.pack()
        while g.net and g.net.packing():
            g.net.pack_step()
        g.look(g.c, 'cut and packed, seen by the writer')
        g.look(g.connect(), 'cut and packed')
        g.write(g.c, sorted(reach), 7)
        g.c.commit()
        g.reopen()
        g.look(g.c, 'cut, packed, changed, opened again')
    finally:
        g.close()


def clients(ctx, n, shape, cache):
    """one client changes many objects that another one has read"""
    from durus.error import ConflictError
    g = Graph(ctx, 'mem', True, n, shape, cache)
    try:
        a, b = g.c, g.connect()
        for which in (range(n), range(0, n, 2), [n - 1]):
            for begin in (True, False):
                g.look(b, 'before')
                hold = [b.get(o) for o in g.oids]
                if begin:
                    b.abort()       # b has all of them in the cache, and read none in this transaction
                g.write(a, which, 1000)
                if not begin:
                    # b has read everything, and changes one of those that a changes
                    b.get(g.oids[which[-1]]).a = -1
                a.commit()
                if not begin:
                    try:
                        b.commit()
                    except ConflictError:
                        pass
                    else:
                        ctx.violation('%s: a lost update of object %d' % (g.label, which[-1]))
                b.abort()
                g.look(b, 'after the changes of %d by another client' % len(which))
                g.look(a, 'after its own changes')
                a.abort()
                hold = None
        for i in which:
            b.get(g.oids[i]).a = g.value[i] = 'last'
        b.commit()
        a.abort()
        g.look(a, 'changed by both')
        g.look(g.connect(), 'in the end')
        g.net.check_alive()
    finally:
        g.close()


def helpers(ctx, kind, net, n, shape, cache):
    from durus.connection import gen_every_instance, touch_every_reference
    from durus.persistent import Persistent
    from durus.serialize import extract_class_name
    from durus.storage import gen_oid_class, gen_referring_oid_record, get_census, get_reference_index
    from mc import pclasses
    g = Graph(ctx, kind, net, n, shape, cache)
    try:
        s = g.connect().get_storage()
        want = sorted(g.oids)
        number = dict((o, i) for i, o in enumerate(g.oids))
        root = g.c.get_root()._p_oid
        for batch in (1, 7, 100, n, n + 1, 5 * n):
            for held in (False, True):
                c = g.connect()
                hold = [c.get(o) for o in g.oids[::2]] if held else None
                got = []
                for o in c.get_crawler(batch_size=batch):
                    if o._p_is_ghost():
                        ctx.violation('%s: the crawler gives a ghost' % g.label)
                    got.append(o._p_oid)
                    if o._p_oid != root and o.a != number[o._p_oid]:
                        ctx.violation('%s: the crawler gives another value' % g.label)
                ctx.eq(sorted(got), [root] + want, '%s: crawled in batches of %d' % (g.label, batch))
                ctx.count('transitions')
        index = get_reference_index(s)
        for i in range(0, n, max(1, n // 50)):
            back = sorted([g.oids[j] for j in range(n) if i in children(shape, n, j)] + [root] * (i == 0))
            ctx.eq(sorted(bytes(o) for o in index.get(g.oids[i], [])), back, '%s: reference index' % g.label)
        for i in (0, 1, n // 2, n - 1):
            back = sorted([g.oids[j] for j in range(n) if i in children(shape, n, j)] + [root] * (i == 0))
            ctx.eq(sorted(bytes(o) for o, r in gen_referring_oid_record(s, g.oids[i])), back, '%s: referring' % g.label)
        ctx.eq(sorted(bytes(o) for o, k in gen_oid_class(s, b'P')), want, '%s: oids of P' % g.label)
        ctx.eq(dict(get_census(s)), {b'P': n, b'PersistentDict': 1},
               '%s: census' % g.label)
        c = g.connect()
        ctx.eq(sorted(o._p_oid for o in gen_every_instance(c, pclasses.P)), want, '%s: instances' % g.label)
        c = g.connect()
        touch_every_reference(c, 'first')
        ctx.eq(sorted(c.changed), [root], '%s: touched' % g.label)
        touch_every_reference(c, 'refs')
        ctx.eq(sorted(c.changed), [root] + want, '%s: touched' % g.label)
        c.commit()
        g.look(c, 'touched')
        g.look(g.connect(), 'touched and committed')
        ctx.count('states')
    finally:
        g.close()


def graph_units(q, what):
    out = []
    if what == 'clients':
        out = [dict(big='crowd', n=k, shape=None, cache=0, cost=k / 10) for k in (1, 9, 33, 65, 130, 257)]
    for shape in ('star', 'chain', 'wide', 'tree'):
        for n in GRAPH_SIZES:
            if q and n > 1100 and shape != 'tree' or what == 'helpers' and n > 1100 and shape == 'star':
                continue
            for cache in (1, n // 2, 10 * n):
                if what == 'clients':
                    out.append(dict(big=what, n=n, shape=shape, cache=cache, cost=n / 10))
                    continue
                if q and cache == n // 2:
                    continue
                for kind in ('mem', 'file', 'file2', 'sqlite', 'net'):
                    if q and (kind != 'mem' and n not in (20, 101, 257, 1025) or kind not in ('mem', 'net') and cache != 1):
                        continue
                    out.append(dict(big=what, storage=kind, n=n, shape=shape, cache=cache, cost=n / 10))
                    if what == 'transactions' and kind == 'mem':
                        out.append(dict(big=what, storage=kind, n=n, shape=shape, cache=cache, pad=500, cost=n / 10))
    return out


def run_graph(unit, ctx):
    what, n, shape, cache = unit['big'], unit['n'], unit['shape'], unit['cache']
    if what == 'crowd':
        return crowd(ctx, n)
    if what == 'clients':
        return clients(ctx, n, shape, cache)
    kind, net = ('mem', True) if unit['storage'] == 'net' else (unit['storage'], False)
    if what == 'helpers':
        return helpers(ctx, kind, net, n, shape, cache)
    transactions(ctx, kind, net, n, shape, cache, unit.get('pad', 0))


def crowd(ctx, k):
    """many clients of one server"""
    from durus.connection import Connection
    from durus.error import ConflictError
    g = Graph(ctx, 'mem', True, 5, 'star', 100)
    g.label = '%d clients' % k
    ctx.trail = g.label
    try:
        all = [g.c] + [g.connect() for i in range(k - 1)]
        for writer in (0, k // 2, k - 1):
            for c in all:
                g.look(c, 'before')
            g.write(all[writer], (0, 3), 10)
            for c in all[writer + 1:]:
                c.get(g.oids[3]).a = -1
            all[writer].commit()
            for c in all[writer + 1:]:
                try:
                    c.commit()
                except ConflictError:
                    c.abort()
                else:
                    ctx.violation('%s: a lost update' % g.label)
            for c in all:
                c.abort()
                g.look(c, 'after a change by client %d' % writer)
            ctx.count('transitions')
        gone = all[::2]
        all = all[1::2] or [g.connect()]
        for c in gone:
            c.get_storage().s.close()
        g.net.run()
        g.net.check_alive()
        g.write(all[-1], (1,), 3)
        all[-1].commit()
        for c in all:
            c.abort()
            g.look(c, 'after half of the clients left')
        new = set()
        for c in all:
            for j in range(3):
                o = c.get_storage().new_oid()
                ctx.check(o not in new and o not in g.oids, '%s: an oid twice', g.label)
                new.add(o)
        g.look(g.connect(), 'in the end')
    finally:
        g.close()
