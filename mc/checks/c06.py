"""C06: commits that fail, anywhere, followed by anything."""
import itertools

from mc import storages

ID = 'C06'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of operation histories with a failure injected at every step of a commit, on the real code'
RULE = ('a root, a stored object and two new objects: every sequence of a given length of modifying, linking, unlinking, adding a '
        'value that cannot be pickled (raising an exception or KeyboardInterrupt), adding a reference to an object of another '
        'connection, removing it, aborting, committing, and commits that fail in the storage at begin, at the n-th new_oid, '
        'before / after the n-th store, before the end, or by a write conflict; on memory, file, file2 and sqlite storages. After every history: '
        'the live objects, a fresh connection, and the result of attaching every held object and committing (to '
        'the same and to another connection) are compared with a reference model. Also every sequence of failures of the '
        'commit that creates the root of an empty database, then a success. evaluations = histories.')
ASSUMPTIONS = ['after a conflict error the application aborts']

OPS = ('W0', 'W1', 'W2', 'L01', 'L02', 'L12', 'L23', 'L32', 'L20', 'U0', 'B1', 'B2', 'B3', 'K2', 'G', 'X1', 'X2', 'C', 'A',
       'Fb', 'F0', 'F1', 'Fs', 'Ft', 'Fu', 'Fa', 'Fe', 'V')
FAILING = ('B', 'K', 'X', 'F', 'V')


class Fault(Exception):
    pass


def units(tier):
    q = tier == 'quick'
    out = []
    for kind in ('mem', 'file', 'file2', 'sqlite'):
        depth = 4 if kind == 'mem' else 3
        if not q:
            depth += 1
        if q and kind == 'sqlite':
            ops = [o for o in OPS if o not in ('W1', 'L32', 'K2', 'X1')]
        else:
            ops = OPS
        for cache in ((100, 1) if kind == 'mem' and not q else (100,)):
            for first in itertools.product(ops, repeat=2):
                out.append(dict(kind=kind, depth=depth, first=list(first), ops=list(ops), cache=cache, cost=len(ops) ** (depth - 2)))
    for first in OPS:
        out.append(dict(kind='mem', depth=3, first=[first], ops=list(OPS), mode='py', cache=100, cost=1000))
    for kind in ('mem', 'file', 'file2', 'sqlite', 'client'):
        for w in FIRST_WAYS:
            out.append(dict(create=kind, way=w, depth=2 if q else 3, cost=50))
    return out


# ways in which the creation of the root may fail, and the classes of the root
FIRST_WAYS = ('init0', 'init1', 'state', 'begin', 'oid0', 'oid1', 'store0', 'store1', 'end', 'child', 'class')


def run_create(unit, ctx):
    for n in range(unit['depth']):
        for tail in itertools.product(FIRST_WAYS, repeat=n):
            create_root(unit['create'], (unit['way'],) + tail, ctx)
            ctx.count('evaluations')
            ctx.count('distinct_nontrivial')
    ctx.sample('creation of the root of %(create)s fails with %(way)s, then others, then works' % unit)


def create_root(kind, ways, ctx):
    from durus.connection import Connection
    from durus.persistent import Persistent
    from mc import netlib
    what = (kind, ways)
    d = ctx.newdir()
    base = storages.open_storage('mem' if kind == 'client' else kind, d)
    net = netlib.Net(base) if kind == 'client' else None
    st = net.client() if net else base
    try:
        for way in ways:
            names = {}
            if way[:-1] in ('oid', 'store') or way in ('begin', 'end'):
                name = {'oid': 'new_oid', 'sto': 'store', 'beg': 'begin', 'end': 'end'}[way[:3]]
                left = [int(way[-1]) if way[-1].isdigit() else 0]

                def fail(*args, real=getattr(st, name), left=left, **kw):
                    if left[0] == 0:
                        raise Fault()
                    left[0] -= 1
                    return real(*args, **kw)
                setattr(st, name, fail)
                names = {name}
            WAY[0] = way
            failed = None
            try:
                Connection(st, root_class=FirstRoot)
            except Fault as e:
                failed = e
            WAY[0] = None
            for name in names:
                delattr(st, name)
            ctx.check(failed is not None, '%r: no error from %s', what, way)
        conn = Connection(st, root_class=FirstRoot)
        root = conn.get_root()
        ctx.check(root._p_oid == b'\0' * 8 and root.value == 1 and root.child.value == 2, '%r: the new root', what)
        root.other = FirstChild()
        conn.commit()
        oids = [o for o, r in st.gen_oid_record(start_oid=b'\0' * 8)]
        ctx.eq(len(set(oids)), 3, '%r: objects' % (what,))
        ctx.eq(len(set([root._p_oid, root.child._p_oid, root.other._p_oid])), 3, '%r: oids' % (what,))
        again = Connection(net.client() if net else st, root_class=FirstRoot)
        if kind in storages.DISK:
            st.close()
            base = st = storages.open_storage(kind, d)
            again = Connection(st, root_class=FirstRoot)
        r = again.get_root()
        ctx.check(type(r) is FirstRoot and (r.value, r.child.value, r.other.value) == (1, 2, 2), '%r: read again', what)
        r.other = None
        again.commit()
    finally:
        if net:
            net.kill()
        base.close()
        ctx.rmdir(d)


WAY = [None]


def _first_classes():
    from durus.persistent import Persistent

    class FirstChild(Persistent):
        def __init__(self):
            self.value = 2

        def __getstate__(self):
            if WAY[0] == 'child':
                raise Fault()
            return Persistent.__getstate__(self)

    class FirstRoot(Persistent):
        def __init__(self):
            if WAY[0] == 'init0':
                raise Fault()
            self.value = 1
            self.child = FirstChild()
            if WAY[0] == 'init1':
                raise Fault()
            if WAY[0] == 'class':
                self.bad = Unpicklable()

        def __getstate__(self):
            if WAY[0] == 'state':
                raise Fault()
            return Persistent.__getstate__(self)

    for c in (FirstChild, FirstRoot):
        c.__module__ = __name__
        c.__qualname__ = c.__name__
        globals()[c.__name__] = c


class Unpicklable(object):
    def __reduce_ex__(self, n):
        raise Fault()


def run(unit, ctx):
    if 'create' in unit:
        if 'FirstRoot' not in globals():
            _first_classes()
        return run_create(unit, ctx)
    dead = set()
    for tail in itertools.product(unit['ops'], repeat=unit['depth'] - len(unit['first'])):
        h = tuple(unit['first']) + tail
        if not any(o[0] in FAILING for o in h) or h[-1] == 'G' or h[-1][0] in 'BKX':
            continue
        if any(h[i] == h[i + 1] and h[i][0] in 'LUCAGBXK' for i in range(len(h) - 1)):
            continue
        if any(h[:k] in dead for k in range(1, len(h) + 1)):
            continue
        n = execute(unit, ctx, h)
        if n is not None:
            dead.add(h[:n + 1])


class M(object):
    def __init__(self):
        self.v = 0
        self.child = None
        self.bad = None
        self.stored = self.changed = False
        self.cv = self.cchild = None


FOREIGN = object()


class Model(object):
    def __init__(self):
        self.h = [M() for _ in range(4)]

    def closure(self):
        todo = [m for m in self.h if m.stored and m.changed]
        seen = []
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.append(m)
            if m.child is not None and m.child is not FOREIGN and not m.child.stored:
                todo.append(m.child)
        return seen

    def fails(self):
        return any(m.bad or m.child is FOREIGN for m in self.closure())

    def commit(self):
        for m in self.closure():
            m.stored = True
            m.cv, m.cchild, m.changed = m.v, m.child, False

    def abort(self):
        for m in self.h:
            if m.stored and m.changed:
                m.v, m.child, m.bad, m.changed = m.cv, m.cchild, None, False


class Boom(object):
    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise self.exc('cannot be stored')


def proxy(real):
    from durus.storage import Storage

    class Proxy(Storage):
        """passes everything on, and fails where it is told to"""

        def __init__(self):
            self.real = real
            self.arm(None)

        def arm(self, where):
            self.where = where
            self.hit = False
            self.n = {}

        def at(self, where):
            i = self.n[where] = self.n.get(where, -1) + 1
            if self.where == (where, i):
                self.hit = True
                self.where = None
                raise Fault('%s %d' % (where, i))

        def begin(self):
            self.at('begin')
            self.real.begin()

        def new_oid(self):
            self.at('new_oid')
            return self.real.new_oid()

        def store(self, oid, record):
            self.at('store')
            self.real.store(oid, record)
            self.at('stored')

        def end(self, handle_invalidations=None):
            self.at('end')
            if self.where == ('conflict', 0):
                self.where = None
                self.hit = True
                handle_invalidations([bytes(7) + bytes([i]) for i in range(5)])
            self.real.end(handle_invalidations)

        def load(self, oid):
            return self.real.load(oid)

        def sync(self):
            return self.real.sync()

        def gen_oid_record(self, *a, **kw):
            return self.real.gen_oid_record(*a, **kw)

        def bulk_load(self, oids):
            return self.real.bulk_load(oids)

        def close(self):
            self.real.close()
    return Proxy()


WHERE = {'Fb': ('begin', 0), 'F0': ('new_oid', 0), 'F1': ('new_oid', 1), 'Fs': ('store', 0), 'Ft': ('store', 1),
         'Fu': ('store', 2), 'Fa': ('stored', 0), 'Fe': ('end', 0), 'V': ('conflict', 0)}


def execute(unit, ctx, seq):
    """Index of an operation that makes no sense here, or None."""
    from durus.connection import Connection
    from durus.error import ConflictError
    from mc.pclasses import P
    kind = unit['kind']
    label = '%s storage: %s' % (kind, ' '.join(seq))
    ctx.trail = label
    d = ctx.newdir() if kind != 'mem' else None
    real = storages.open_storage(kind, d)
    try:
        storage = proxy(real)
        conn = Connection(storage, cache_size=unit['cache'], root_class=P)
        root = conn.get_root()
        h = [root, P(), P(), P()]
        for o in h:
            o.v = 0
            o.child = None
        root.child = h[1]
        root.other = foreign = P()
        foreign.v = -1
        foreign.child = None
        conn.commit()
        foreign = Connection(storage, root_class=P).get_root().other
        foreign.v
        del root.other
        conn.commit()
        model = Model()
        model.h[0].child = model.h[1]
        for m in model.h[:2]:
            m.stored = True
            m.changed = True
        model.commit()
        conflicted = False
        for at, op in enumerate(seq):
            ctx.count('transitions')
            c = op[0]
            if conflicted and c != 'A':
                return at
            if c == 'W':
                i = int(op[1])
                h[i].v += 1
                model.h[i].v += 1
                model.h[i].changed = True
            elif c in 'UL':
                i = int(op[1])
                j = int(op[2]) if c == 'L' else None
                if model.h[i].child is (None if j is None else model.h[j]):
                    return at
                h[i].child = None if j is None else h[j]
                model.h[i].child = None if j is None else model.h[j]
                model.h[i].changed = True
            elif c in 'BK':
                i = int(op[1])
                if model.h[i].bad:
                    return at
                h[i].bad = Boom(ValueError if c == 'B' else KeyboardInterrupt)
                model.h[i].bad = c
                model.h[i].changed = True
            elif c == 'X':
                i = int(op[1])
                if model.h[i].child is FOREIGN:
                    return at
                h[i].child = foreign
                model.h[i].child = FOREIGN
                model.h[i].changed = True
            elif c == 'G':
                # repair all
                did = False
                for o, m in zip(h, model.h):
                    if m.bad or m.child is FOREIGN:
                        did = True
                    if m.bad:
                        del o.bad
                        m.bad = None
                    if m.child is FOREIGN:
                        o.child = None
                        m.child = None
                    if did:
                        m.changed = True
                if not did:
                    return at
            elif c == 'A':
                conn.abort()
                model.abort()
                conflicted = False
            else:
                storage.arm(WHERE.get(op))
                fails = model.fails()
                try:
                    conn.commit()
                except ConflictError:
                    if op != 'V':
                        raise
                    conflicted = True
                    ctx.outcome('conflict')
                except (Fault, ValueError, KeyboardInterrupt) as e:
                    if not (fails or storage.hit):
                        raise
                    ctx.outcome('%s %s' % (type(e).__name__, kind))
                else:
                    if fails:
                        ctx.violation('%s: commit succeeded with an object that cannot be stored' % label)
                    if op in WHERE and op != 'V':
                        if storage.hit:
                            ctx.violation('%s: an error in the storage was ignored' % label)
                        return at         # not reached: the same as C
                    model.commit()
                if op in WHERE and not storage.hit and (op == 'V' or not fails):
                    return at
                if op in WHERE and fails and not storage.hit:
                    return at
                storage.arm(None)
        if len(seq) < unit['depth']:
            return None
        ctx.count('evaluations')
        ctx.count('distinct_nontrivial')
        storage.arm(None)
        if not conflicted:
            # in memory nothing has changed, but a conflict may have made ghosts
            for i, (o, m) in enumerate(zip(h, model.h)):
                same(ctx, label, i, o, m, h, model, foreign, 'live')
        stored(ctx, label, real, model)
        conn.abort()
        model.abort()
        for i, (o, m) in enumerate(zip(h, model.h)):
            same(ctx, label, i, o, m, h, model, foreign, 'after abort')
        # the new objects are free: attach everything, here or to another connection
        for o, m in zip(h, model.h):
            if m.bad:
                del o.bad
                m.bad = None
            if m.child is FOREIGN:
                o.child = None
                m.child = None
        if len(seq) % 2 and not any(m.stored for m in model.h[2:]) and not any(
                m.child is not None and m.child.stored for m in model.h[2:]) and kind != 'sqlite':
            conn2 = Connection(real, root_class=P)
            conn2.get_root().all = h[2:]
            conn2.commit()
            got = Connection(real, root_class=P).get_root().all
            for i in (2, 3):
                for o in (got[i - 2], h[i]):
                    if o.v != model.h[i].v:
                        ctx.violation('%s: attached to another connection, object %d shows v=%r, expected %r' % (
                            label, i, o.v, model.h[i].v))
                if (got[i - 2].child is None) != (model.h[i].child is None):
                    ctx.violation('%s: attached to another connection, object %d lost its child' % (label, i))
            return None
        root.all = list(h)
        conn.commit()
        for m in model.h:
            m.changed = m.stored = True
        model.commit()
        if kind != 'mem':
            real.close()
            real = storages.open_storage(kind, d)
        r = Connection(real, root_class=P).get_root()
        got = r.all
        for i in range(4):
            m = model.h[i]
            if got[i].v != m.v:
                ctx.violation('%s: attached and committed, object %d has v=%r, expected %r' % (
                    label, i, got[i].v, m.v))
            want = None if m.child is None else got[model.h.index(m.child)]
            if got[i].child is not want:
                ctx.violation('%s: attached and committed, object %d has another child' % (label, i))
        if got[0] is not r:
            ctx.violation('%s: the root was duplicated' % label)
    finally:
        if d:
            real.close()
            ctx.rmdir(d)


def same(ctx, label, i, o, m, h, model, foreign, when):
    if o.v != m.v:
        ctx.violation('%s: object %d has v=%r %s, expected %r' % (label, i, o.v, when, m.v))
    want = None if m.child is None else foreign if m.child is FOREIGN else h[model.h.index(m.child)]
    if o.child is not want:
        ctx.violation('%s: object %d has another child %s' % (label, i, when))
    if hasattr(o, 'bad') != bool(m.bad):
        ctx.violation('%s: object %d has another set of attributes %s' % (label, i, when))


def stored(ctx, label, storage, model):
    """a fresh connection sees what the model has as committed"""
    from durus.connection import Connection
    from mc.pclasses import P
    o = Connection(storage, root_class=P).get_root()
    m = model.h[0]
    pairs = {}
    todo = [(o, m)]
    while todo:
        o, m = todo.pop()
        if m in pairs:
            if pairs[m] is not o:
                ctx.violation('%s: stored: sharing lost' % label)
            continue
        pairs[m] = o
        if o.v != m.cv:
            ctx.violation('%s: stored: object %d has v=%r, expected %r' % (
                label, model.h.index(m), o.v, m.cv))
        if (o.child is None) != (m.cchild is None):
            ctx.violation('%s: stored: object %d has another child' % (label, model.h.index(m)))
        elif m.cchild is not None:
            todo.append((o.child, m.cchild))
