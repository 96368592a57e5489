"""C23: computed attributes shared by several clients of one server."""

from mc.netlib import Net, Stuck

ID = 'C23'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless exhaustive exploration of client/server interleavings of the real code under a controlled scheduler'
RULE = ('every history up to a given length of operations of 2 (and 3) clients of one real server sharing a '
        'ComputedAttribute and the object it is computed from: get, get with a failing computation, read the data, '
        'change the data and invalidate, invalidate only, replace the attribute by a new one, commit, abort; with '
        'all objects held by the application, and with cache size 1. Each get must '
        'return a value computed from the state its transaction sees and after the last '
        'invalidation it must know of, computing at most once in between; get never marks a change. '
        'states = complete histories, transitions = operations.')
ASSUMPTIONS = ['after a conflict error a client aborts', 'the clients are interchangeable',
               'data and invalidation are changed in one transaction']
ALPHA = ('g', 'd', 's', 'i', 'C', 'A')


def plan(q):
    # alphabet, clients, depth, cache size (0: objects held), mode
    if q:
        return [(ALPHA, 2, 5, 0, 'c'), (('g', 's', 'i', 'C'), 2, 6, 0, 'c'), (('g', 'd', 's', 'C', 'A'), 2, 5, 0, 'py'), (ALPHA, 2, 5, 1, 'c'),
                (('g', 's', 'n', 'C', 'A', 'x'), 2, 5, 2, 'c'), (('g', 's', 'C'), 3, 5, 0, 'c')]
    return [(ALPHA, 2, 8, 0, 'c'), (ALPHA, 2, 7, 0, 'py'), (ALPHA, 2, 7, 1, 'c'),
            (('g', 's', 'n', 'C', 'A', 'x'), 2, 7, 2, 'c'), (('g', 's', 'i', 'C'), 3, 8, 0, 'c')]


LOC = 'gdsinx'


def succ(h, alphabet, n):
    used = 1 + max([-1] + [i for i, o in h])
    last = h[-1] if h else None
    for i in range(min(n, used + 1)):
        for o in alphabet:
            if not h and o in 'CA':
                continue
            if last and o in LOC and last[1] in LOC and i < last[0]:
                continue
            if last == (i, o) and o in 'CAd':
                continue
            yield h + [(i, o)]


def units(tier):
    out = []
    for alphabet, n, depth, cache, mode in plan(tier == 'quick'):
        pre = [[]]
        for _ in range(2 if tier == 'quick' else 3):
            pre = [g for h in pre for g in succ(h, alphabet, n)]
        for p in pre:
            out.append(dict(alphabet=list(alphabet), n=n, depth=depth, cache=cache, mode=mode,
                            prefix=p, cost=len(alphabet) ** depth))
    return out


def run(unit, ctx):
    def go(h):
        if len(h) == unit['depth']:
            execute(unit, ctx, h)
            return
        for g in succ(h, unit['alphabet'], unit['n']):
            go(g)
    go([tuple(p) for p in unit['prefix']])


_base = []


def base():
    from durus.connection import Connection
    from durus.storage import MemoryStorage
    from durus.persistent import ComputedAttribute
    from mc.pclasses import P
    if not _base:
        s = MemoryStorage()
        c = Connection(s)
        r = c.get_root()
        r['data'] = p = P()
        p.v = 0
        r['ca'] = ComputedAttribute()
        c.commit()
        _base.extend([list(s.gen_oid_record())])
    s = MemoryStorage()
    for _ in _base[0]:
        s.new_oid()
    s.begin()
    for oid, rec in _base[0]:
        s.store(oid, rec)
    s.end()
    return s


class Fails(Exception):
    pass


class Value(object):
    def __init__(self, v, time):
        self.v = v
        self.time = time


class Client(object):
    def __init__(self, w, i):
        from durus.connection import Connection
        self.w, self.i = w, i
        self.conn = Connection(w.net.client(), cache_size=w.cache or 100000)
        self.held = None
        if not w.cache:
            r = self.conn.get_root()
            self.held = (r['data'], r['ca'])
            self.conn.abort()
        self.synced = 0
        self.known = 0        # time of the last invalidation by others it must respect
        self.token = None     # the value in its cache, while it has to be there
        self.restart()

    def restart(self):
        w = self.w
        self.start = len(w.versions) - 1
        self.reads = []
        self.own = None
        self.own_inv = None
        self.replaced = False

    def data(self):
        return self.held[0] if self.held else self.conn.get_root()['data']

    def ca(self):
        return self.held[1] if self.held else self.conn.get_root()['ca']


class World(object):
    def __init__(self, ctx, unit):
        self.ctx = ctx
        self.cache = unit['cache']
        self.net = Net(base())
        self.versions = [0]
        self.inv = [(0, None)]        # (time, client) of committed invalidations
        self.time = 0
        self.next = 0
        self.clients = [Client(self, i) for i in range(unit['n'])]

    def saw(self, c, v, what):
        ctx = self.ctx
        if c.own is not None:
            ctx.eq(v, c.own, 'client %d: %s after its own change' % (c.i, what))
            return
        c.reads.append(v)
        ok = len(set(c.reads)) == 1 and v in self.versions[c.start:]
        ctx.check(ok, 'client %d: %s gives %r; read in this transaction: %r; committed since its '
                  'begin: %r', c.i, what, v, c.reads, self.versions[c.start:])

    def get(self, c, fail=False):
        ctx = self.ctx
        ca = c.ca()
        was_unsaved = ca._p_is_unsaved()
        calls = []

        def compute():
            calls.append(1)
            if fail:
                raise Fails()
            return Value(c.data().v, self.time)
        try:
            val = ca.get(compute)
        except Fails:
            val = None
        ctx.check(ca._p_is_unsaved() == was_unsaved, 'get changed the status of the attribute')
        ctx.check(len(calls) <= 1, 'computed %d times in one get', len(calls))
        if c.token is not None and not self.cache:
            ctx.check(not calls, 'client %d: computed again although nothing was invalidated', c.i)
        if val is None:
            return
        if calls:
            # (an invalidation it has not been told of yet may still drop the value)
            told = not any(t > c.synced and i != c.i for t, i in self.inv)
            c.token = val if told else None
            ctx.outcome('computed')
        else:
            ctx.outcome('cached')
        need = max(c.known, c.own_inv or 0)
        ctx.check(val.time >= need, 'client %d: get returns a value computed at time %d, '
                  'last invalidation at %d', c.i, val.time, need)
        self.saw(c, val.v, 'get')

    def op(self, i, o):
        from durus.error import ConflictError
        from durus.persistent import ComputedAttribute
        self.time += 1
        c = self.clients[i]
        try:
            if o == 'g':
                self.get(c)
            elif o == 'x':
                self.get(c, True)
            elif o == 'd':
                self.saw(c, c.data().v, 'the data')
            elif o == 's':
                self.next += 1
                c.data().v = self.next
                c.ca().invalidate()
                c.own = self.next
                c.own_inv = self.time
                c.token = None
            elif o == 'i':
                c.ca().invalidate()
                c.own_inv = self.time
                c.token = None
            elif o == 'n':
                c.conn.get_root()['ca'] = ComputedAttribute()
                c.own_inv = self.time
                c.token = None
                c.replaced = True
            elif o == 'C':
                c.conn.commit()
                self.committed(c)
            elif o == 'A':
                self.abort(c)
        except ConflictError:
            self.ctx.outcome('conflict')
            self.ctx.check(len(self.inv) > 1 or len(self.versions) > 1,
                           'conflict although nobody committed a change')
            c.token = None
            self.abort(c)

    def sync(self, c):
        c.known = max([t for t, i in self.inv if i != c.i])
        c.synced = self.time
        c.restart()

    def committed(self, c):
        if c.own_inv is not None:
            self.inv.append((self.time, c.i))
            for d in self.clients:
                if d is not c:
                    d.token = None
        if c.own is not None:
            self.versions.append(c.own)
            c.own = None
        self.sync(c)

    def abort(self, c):
        c.conn.abort()
        if c.own_inv is not None:
            c.token = None
        self.sync(c)

    def finish(self):
        for c in self.clients:
            self.time += 1
            self.abort(c)
            self.get(c)
            self.ctx.eq(c.data().v, self.versions[-1], 'data at the end')
            # nothing but a get: commit has nothing to store
            c.conn.commit()
            c.restart()
            self.get(c)


def execute(unit, ctx, h):
    ctx.trail = '%s cache=%s' % (' '.join('%d%s' % x for x in h), unit['cache'])
    w = World(ctx, unit)
    try:
        for i, o in h:
            w.op(i, o)
        w.finish()
        w.net.check_alive()
        ctx.count('states')
        ctx.count('traces_validated_against_impl')
        ctx.count('transitions', len(h))
        ctx.sample(ctx.trail)
    finally:
        w.net.kill()
