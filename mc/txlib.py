"""Exhaustive interleavings of transactions of several clients of one server (C07-C09).

A history is a sequence of (client, operation).  It is executed on real Connections over
real ClientStorages talking to a real StorageServer (mc.netlib), while a reference keeps
the sequence of committed states and what every running transaction has read and written.

operations: rx wx ry wy   read / overwrite attribute a of object x or y
            n             put a new object with a unique value at root['n']
            o             read the value of the object at root['n']
            k             one step of a crawl over all objects (started if needed)
            K             a whole crawl with one batch per level
            R             read attribute a of every object, in order
            C A           commit, abort
            D             the connection breaks; a new one replaces it
            g             the application drops all its references and collects garbage
"""
import gc
import itertools

from mc.netlib import Net, Stuck

LOCAL = ('rx', 'wx', 'ry', 'wy', 'n', 'o', 'k', 'g', 'rb', 'wb', 'K', 'rz', 'wz', 'R')


class Base(object):
    """the records of the initial database, built once per process"""
    made = {}

    @classmethod
    def get(cls, names):
        if names not in cls.made:
            from durus.connection import Connection
            from durus.storage import MemoryStorage
            from mc.pclasses import P
            s = MemoryStorage()
            c = Connection(s)
            root = c.get_root()
            for i, n in enumerate(names):
                root[n] = p = P()
                p.a = 0
                p.b = 0
            c.commit()
            cls.made[names] = (dict(s.records), s.oid)
        return cls.made[names]


def storage_for(names):
    from durus.storage import MemoryStorage
    s = MemoryStorage()
    records, oid = Base.get(names)
    s.records = dict(records)
    s.oid = oid
    return s


class Client(object):
    def __init__(self, world, i):
        self.w = world
        self.i = i
        self.failed = None          # operations of the transaction that had a conflict
        self.connect()

    def connect(self):
        from durus.connection import Connection
        self.storage = self.w.net.client()
        self.conn = Connection(self.storage, cache_size=self.w.cache_size)
        self.held = None
        if self.w.hold:
            # the application keeps the objects; later accesses do not touch the root
            root = self.conn.get_root()
            self.held = {n: root[n] for n in self.w.names}
            self.conn.abort()
        if self.w.by_oid:
            # the root object is loaded, and would keep the others alive
            self.conn.get_root()._p_set_status_ghost()
        self.restart()

    def restart(self):
        """a new transaction begins"""
        self.start = len(self.w.states) - 1
        self.reads = []             # (key, value)
        self.writes = {}            # key -> value
        self.ops = []
        self.touched = set()
        self.doomed = False
        self.crawl = None
        self.newobj = None

    def obj(self, name):
        if self.held:
            return self.held[name]
        if self.w.by_oid:
            return self.conn.get(bytes(7) + bytes([self.w.place(name)]))
        self.touched.add('root')
        return self.conn.get_root()[name]


class World(object):
    def __init__(self, ctx, label, judge, nclients=2, names=('x', 'y'), cache_size=100000,
                 storage=None, hold=False, by_oid=False):
        self.hold = hold
        self.by_oid = by_oid        # the application gets the objects by their oids
        self.ctx = ctx
        self.label = label
        self.judge = judge
        self.cache_size = cache_size
        self.names = names
        self.net = Net(storage or storage_for(names))
        first = {}
        for n in names:
            first[(n, 'a')] = 0
            first[(n, 'b')] = 0
        first['n'] = None
        self.states = [first]
        self.changed_at = [set()]   # objects changed by the commit that made each state
        self.by = [None]
        self.unique = 0
        self.clients = []
        for i in range(nclients):
            self.clients.append(Client(self, i))
        self.observer = None

    def close(self):
        self.net.kill()

    def viol(self, kind, msg):
        if kind in self.judge:
            self.ctx.violation('%s: %s' % (self.label, msg))

    # -- reads
    def consistent(self, c, latest=False):
        """Is there one committed state at or after the start of the transaction that gives
        all the values it has read?"""
        lo = len(self.states) - 1 if latest else c.start
        for k in range(len(self.states) - 1, lo - 1, -1):
            st = self.states[k]
            if all(st[key] == v for key, v in c.reads):
                return True
        return False

    def saw(self, c, key, value):
        if key in c.writes:
            if value != c.writes[key]:
                self.viol('snapshot', 'client %d reads %r in %s, which it had set to %r' % (
                    c.i, value, key, c.writes[key]))
            return
        c.reads.append((key, value))
        if not self.consistent(c):
            self.viol('snapshot', 'client %d has read %s in one transaction, which no committed '
                      'state since its begin contains together' % (c.i, c.reads))

    def read_new(self, c):
        from mc.pclasses import P
        o = c.conn.get_root().get('n')
        return o, (None if o is None else o.a)

    # -- one operation
    def op(self, i, op):
        """False if the operation makes no sense in this state"""
        from durus.error import ReadConflictError, WriteConflictError
        c = self.clients[i]
        if c.doomed and op not in ('A', 'D'):
            return False
        self.net.check_alive()
        if op == 'D':
            c.storage.s.close()
            self.net.run()
            self.net.check_alive()
            c.connect()
            return True
        if op == 'A':
            if not (c.ops or c.doomed) and c.start == len(self.states) - 1:
                return False
            c.conn.abort()
            c.restart()
            return True
        if op == 'C':
            if not c.ops and c.start == len(self.states) - 1:
                return False
            self.commit(c)
            return True
        c.ops.append(op)
        try:
            self.local(c, op)
        except ReadConflictError:
            self.doom(c)
        return True

    def doom(self, c):
        c.doomed = True
        c.failed = [o for o in c.ops if o != 'k']

    def local(self, c, op):
        if op == 'R':
            for n in self.names:
                c.touched.add(n)
                self.saw(c, (n, 'a'), c.obj(n).a)
        elif op[0] == 'r':
            name, attr = op[1], 'a'
            if name == 'b':
                name, attr = self.names[0], 'b'
            c.touched.add(name)
            self.saw(c, (name, attr), getattr(c.obj(name), attr))
        elif op[0] == 'w':
            name, attr = op[1], 'a'
            if name == 'b':
                name, attr = self.names[0], 'b'
            self.unique += 1
            c.touched.add(name)
            setattr(c.obj(name), attr, self.unique)
            c.writes[(name, attr)] = self.unique
        elif op == 'n':
            from mc.pclasses import P
            self.unique += 1
            p = P()
            p.a = self.unique
            c.touched.add('root')
            c.conn.get_root()['n'] = p
            c.writes['n'] = self.unique
        elif op == 'o':
            c.touched.add('root')
            c.touched.add('n')
            self.saw(c, 'n', self.read_new(c)[1])
        elif op == 'K':
            for obj in c.conn.get_crawler(batch_size=100):
                self.crawled(c, obj)
        elif op == 'k':
            if c.crawl is None:
                c.crawl = c.conn.get_crawler(batch_size=1)
            for obj in c.crawl:
                self.crawled(c, obj)
                break
            else:
                c.crawl = None
        elif op == 'g':
            gc.collect()
        else:
            raise ValueError(op)

    def crawled(self, c, obj):
        # recognize the objects by their place in the initial database
        for n in self.names:
            if obj._p_oid == bytes(7) + bytes([self.place(n)]):
                c.touched.add(n)
                self.saw(c, (n, 'a'), obj.a)

    def place(self, name):
        if not hasattr(self, 'places'):
            self.places = {}
            o = self.clients[0].conn
            import pickle
            # the numbers are given in the order of serialization; ask an independent reader
            from durus.connection import Connection
            s = storage_for(self.names)
            r = Connection(s).get_root()
            for n in self.names:
                self.places[n] = r[n]._p_oid[-1]
        return self.places[name]

    def commit(self, c):
        from durus.error import WriteConflictError, ConflictError
        had_writes = dict(c.writes)
        try:
            c.conn.commit()
        except ConflictError as e:
            if not isinstance(e, WriteConflictError):
                self.viol('recover', 'commit of client %d raised %s' % (c.i, type(e).__name__))
            self.ctx.outcome('write conflict')
            # only for real overlaps
            changed = set()
            for k in range(c.start + 1, len(self.states)):
                if self.by[k] != c.i:
                    changed |= self.changed_at[k]
            touched = set(c.touched)
            if not (changed & touched):
                self.viol('recover', 'client %d gets a write conflict, but nobody changed %s' % (
                    c.i, sorted(c.touched)))
            if not had_writes:
                self.viol('recover', 'client %d gets a write conflict without having written' % c.i)
            self.doom(c)
            return
        if had_writes:
            # all it has read must be the latest state
            if not self.consistent(c, latest=True):
                self.viol('serial', 'the commit of client %d succeeded, but it had read %s; '
                          'the latest state is %s' % (c.i, c.reads, self.states[-1]))
            st = dict(self.states[-1])
            st.update(had_writes)
            self.states.append(st)
            self.changed_at.append({k[0] if isinstance(k, tuple) else 'root' for k in had_writes})
            self.by.append(c.i)
            self.ctx.outcome('committed')
        c.restart()
        self.observe()

    def observe(self):
        """An independent connection straight to the server sees exactly the reference state."""
        if self.observer is None:
            from durus.connection import Connection
            self.observer = Connection(self.net.client())
        else:
            self.observer.abort()
        got = self.everything(self.observer)
        if got != self.states[-1]:
            self.viol('serial', 'another client sees %s, the committed transactions in order '
                      'give %s' % (diff(got, self.states[-1])))

    def everything(self, conn):
        root = conn.get_root()
        out = {}
        for n in self.names:
            out[(n, 'a')] = root[n].a
            out[(n, 'b')] = root[n].b
        o = root.get('n')
        out['n'] = None if o is None else o.a
        return out

    def finish(self):
        """Every client can go on: abort shows the current state, and what failed succeeds."""
        from durus.error import ConflictError
        for c in self.clients:
            self.net.check_alive()
            try:
                c.conn.abort()
                got = self.everything(c.conn)
            except ConflictError as e:
                self.viol('recover', 'at the end, client %d: after abort %s' % (c.i, type(e).__name__))
                continue
            if got != self.states[-1]:
                for k in ('recover', 'snapshot'):
                    self.viol(k, 'at the end, client %d sees %s after abort, the committed state is %s' % (
                        (c.i,) + diff(got, self.states[-1])))
            ops = c.failed
            failed = c.failed is not None
            c.restart()
            try:
                for o in (ops or ['r' + self.names[0], 'w' + self.names[0]]):
                    self.local(c, o)
                c.ops = ['again']
                self.commit(c)
            except ConflictError as e:
                self.viol('recover', 'at the end, client %d repeats %s without interference and gets %s' % (
                    c.i, ops, type(e).__name__))
                continue
            if c.doomed:
                self.viol('recover', 'at the end, client %d repeats %s without interference and '
                          'gets a conflict again' % (c.i, ops))
        self.ctx.count('traces_validated_against_impl')


def diff(a, b):
    keys = [k for k in sorted(set(a) | set(b), key=repr) if a.get(k) != b.get(k)]
    return {k: a.get(k) for k in keys}, {k: b.get(k) for k in keys}


def run_history(ctx, history, judge, **kw):
    """Returns the length of the prefix that made sense."""
    label = ' '.join('%d%s' % h for h in history)
    if kw.get('hold'):
        label += ' (objects kept)'
    if kw.get('by_oid'):
        label += ' (objects got by oid)'
    if kw.get('cache_size'):
        label += ' (cache size %d)' % kw['cache_size']
    ctx.trail = label
    w = World(ctx, label, judge, **kw)
    try:
        for n, (i, op) in enumerate(history):
            ctx.count('transitions')
            if not w.op(i, op):
                return n
        w.finish()
        return len(history)
    except Stuck as e:
        ctx.violation('%s: %s' % (label, e))
    finally:
        w.close()


def explore(ctx, prefix, depth, alphabet, judge, reduce=True, roles=None, **kw):
    """All histories that extend the prefix to the given length.  With reduce, of two adjacent
    local operations of different clients only the order (lower client first) is taken, and the
    clients and objects are taken in order of first use."""
    nclients = kw.get('nclients', 2)

    def children(h):
        return successors(h, alphabet, nclients, reduce, roles)

    dead = set()

    def go(h):
        if len(h) == depth:
            n = run_history(ctx, h, judge, **kw)
            if n is not None and n < len(h):
                dead.add(tuple(h[:n + 1]))
            else:
                ctx.count('states')
            return
        for g in children(h):
            go(g)
            # the parents of a dead prefix cut the enumeration
            if tuple(h) in dead:
                return

    go([tuple(p) for p in prefix])


def successors(h, alphabet, nclients, reduce, roles):
    """roles: the operations of each client, which are not interchangeable then"""
    used = 1 + max([-1] + [i for i, o in h])
    last = h[-1] if h else None
    for i in range(min(nclients, used + 1) if reduce and not roles else nclients):
        for o in (roles[i] if roles else alphabet):
            if o in ('C', 'A', 'g') and not h:
                continue
            if reduce and last and o in LOCAL and last[1] in LOCAL and i < last[0]:
                continue
            if last == (i, o) and (o in ('A', 'C', 'g', 'D', 'K', 'R') or o[0] == 'r'):
                continue
            if reduce and not roles and 'y' in o and not any('x' in p for j, p in h) and \
                    any('x' in p for p in alphabet):
                continue
            yield h + [(i, o)]


def prefixes(n, alphabet, nclients=2, reduce=True, roles=None):
    out = [[]]
    for _ in range(n):
        out = [g for h in out for g in successors(h, alphabet, nclients, reduce, roles)]
    return out
