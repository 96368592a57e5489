"""C24: the object cache, all access/modify/drop/commit/abort histories."""
import gc
import itertools
import weakref

ID = 'C24'
LEVEL = 'model_checking'
RULE = ('every sequence up to a depth of: read / modify / hold / drop objects of a stored cyclic graph, get by '
        'oid, create, link and unlink, bury a reference in garbage that only the collector '
        'finds, collect, explicit shrinking, commit (also with collections all along it), abort, failing commit, change of cache size, change by another client; for cache '
        'sizes from 1 up. After every sequence: one live instance per oid, cache count, status of '
        'modified and used objects, values against a reference graph, shrinking to the '
        'target, committed graph in a fresh connection. A state is one executed history.')
ASSUMPTIONS = ['one stored graph of root and 3 to 5 objects',
               'changes of other clients are delivered through Storage.sync() of a test storage '
               '(the client/server protocol itself is explored by C07-C09)',
               'the automatic garbage collector is off; collections are operations of the history']
TECHNIQUE = 'stateless model checking: exhaustive bounded operation histories on the real connection and cache'

FULL = ['Ra', 'Rb', 'Rc', 'Ma', 'Mb', 'Mc', 'Ha', 'Hc', 'D', 'G', 'N', 'U', 'Y', 'K', 'Z', 'C', 'A',
        'E', 'F', 'S', 'P', 'B', 'g']
CORE = ['Rb', 'Rc', 'Mc', 'Hc', 'D', 'G', 'N', 'K', 'Z', 'C', 'P', 'B']
LONG = ['Rc', 'Mc', 'Hc', 'D', 'C', 'A', 'G']
GARB = ['Rc', 'K', 'C', 'g', 'P', 'B']


def units(tier):
    q = tier == 'quick'
    out = []

    def add(alpha, depth, sizes, modes=('c',)):
        for mode in modes:
            for size in sizes:
                for first in alpha:
                    out.append(dict(alpha=alpha, depth=depth, size=size, mode=mode, first=[first],
                                    cost=len(alpha) ** depth))
    add(FULL, 3 if q else 4, [1, 2, 3, 4, 100], ['c', 'py'])
    add(FULL, 4 if q else 5, [1], ['c'])
    add(CORE, 4 if q else 5, [1, 2, 100], ['c'])
    add(LONG, 5 if q else 7, [1, 2], ['c'])
    add(GARB, 5 if q else 7, [1, 2], ['c'])
    return out


def run(unit, ctx):
    classes()
    gc.disable()
    gc.collect()
    gc.freeze()
    n = 0
    for rest in itertools.product(unit['alpha'], repeat=unit['depth'] - len(unit['first'])):
        seq = unit['first'] + list(rest)
        execute(unit, ctx, seq)
        n += 1
        if n % 300 == 0:
            gc.collect()


_base = {}


def classes():
    if 'T' not in _base:
        from mc import ctrack
        _base['T'] = ctrack.T
        from durus.connection import Connection
        from durus.storage import MemoryStorage

        class View(MemoryStorage):
            """a memory storage that can be told that another client changed objects"""
            invalid = ()

            def sync(self):
                out, self.invalid = list(self.invalid), ()
                return out
        _base['View'] = View
        s = MemoryStorage()
        c = Connection(s)
        r = c.get_root()
        T = ctrack.T
        a, b, cc = T(), T(), T()
        for o in (a, b, cc):
            o.v, o.x, o.y = 0, None, None
        a.x = b.x = cc
        cc.x = a
        r['a'], r['b'] = a, b
        c.commit()
        _base['oid'] = dict(a=a._p_oid, b=b._p_oid, c=cc._p_oid)
        _base['records'] = [(k, v) for k, v in s.gen_oid_record()]
    return _base


class World(object):
    def __init__(self, size):
        from durus.connection import Connection
        from mc import ctrack
        B = classes()
        ctrack.REG.clear()
        self.reg = ctrack.REG
        self.T = B['T']
        self.storage = s = B['View']()
        s.begin()
        for oid, record in B['records']:
            while s.new_oid() < oid:
                pass
        s = B['View']()
        self.storage = s
        for _ in B['records']:
            s.new_oid()
        s.begin()
        for oid, record in B['records']:
            s.store(oid, record)
        s.end()
        self.conn = Connection(s, cache_size=size)
        self.root = weakref.ref(self.conn.root)
        self.size = size
        self.oid = dict(B['oid'])
        # model: name -> [v, x, y]; root always has a and b
        self.cur = dict(a=[0, 'c', None], b=[0, 'c', None], c=[0, 'a', None])
        self.com = {k: list(v) for k, v in self.cur.items()}
        self.changed = set()
        self.accessed = set()
        self.loaded = set()       # loaded and not invalidated since
        self.held = []
        self.heldnames = set()
        self.n = 0
        self.next = 0

    def find(self, name):
        r = self.conn.get_root()
        if name in 'ab':
            return r[name]
        self.touch('a')
        return r['a'].x

    def touch(self, name):
        self.accessed.add(name)


def read(w, ctx, name):
    l0 = w.conn.get_load_count()
    was = name in w.loaded and w.size >= 100
    if name == 'c':
        was = was and 'a' in w.loaded
    o = w.find(name)
    ctx.eq(o.v, w.cur[name][0], 'value of ' + name)
    ctx.eq(type(o), w.T, 'class of ' + name)
    w.touch(name)
    if name == 'c':
        w.loaded.add('a')
    w.loaded.add(name)
    if was:
        # the root may have been loaded again after an abort only if it was modified: never here
        ctx.eq(w.conn.get_load_count() - l0, 0, 'loads for reading %s again' % name)
    return o


def commit_model(w):
    # objects reachable from the root or changed are stored
    for k in w.cur:
        if k in w.changed or reachable_new(w, k):
            w.com[k] = list(w.cur[k])
    w.changed.clear()
    w.accessed.clear()


def reachable_new(w, k):
    if k in w.com:
        return False
    seen, todo = set(), list(w.changed)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for m in w.cur[n][1:]:
            if m and (m not in w.com):
                todo.append(m)
    return k in seen


def do_commit(w, ctx):
    w.conn.commit()
    w.loaded |= w.changed
    commit_model(w)
    y = w.com['a'][2]
    if y is not None and y not in w.oid:
        for r in list(w.reg.values()):
            o = r()
            if o is not None and o._p_oid is not None and o._p_connection is w.conn \
                    and o._p_oid not in w.oid.values():
                w.oid[y] = o._p_oid


def do_abort(w, ctx):
    w.conn.abort()
    w.loaded -= w.changed
    w.changed.clear()
    w.accessed.clear()
    w.cur = {k: list(v) for k, v in w.com.items()}
    y = w.cur['a'][2]


def step(w, ctx, op):
    k = op[0]
    if k == 'R':
        read(w, ctx, op[1])
    elif k == 'M':
        o = read(w, ctx, op[1])
        w.next += 1
        o.v = w.next
        w.cur[op[1]][0] = w.next
        w.changed.add(op[1])
    elif k == 'H':
        w.held.append(read(w, ctx, op[1]))
    elif k == 'D':
        del w.held[:]
    elif k == 'K':
        o = read(w, ctx, 'c')
        t = [o]
        t.append(t)
        del o, t
    elif k == 'Z':
        gc.collect()
    elif k == 'G':
        o = w.conn.get(w.oid['c'])
        ctx.eq(o.v, w.cur['c'][0], 'value of c by oid')
        w.touch('c')
    elif k == 'N':
        a = read(w, ctx, 'a')
        w.n += 1
        name = 'n%d' % w.n
        n = w.T()
        n.v, n.x, n.y = 50 + w.n, a.x, None
        a.y = n
        w.cur['a'][2] = name
        w.cur[name] = [50 + w.n, w.cur['a'][1], None]
        w.changed.add('a')
    elif k == 'U':
        a = read(w, ctx, 'a')
        a.y = None
        w.cur['a'][2] = None
        w.changed.add('a')
    elif k == 'Y':
        a = read(w, ctx, 'a')
        y = a.y
        want = w.cur['a'][2]
        if want is None:
            ctx.eq(y, None, 'a.y')
        else:
            ctx.eq(y.v, w.cur[want][0], 'a.y.v')
            ctx.check(y.x is a.x, 'sharing of c through a.y.x and a.x lost')
    elif k == 'C':
        do_commit(w, ctx)
    elif k == 'g':
        # a commit during which the garbage collector runs whenever the cache looks
        # at the age of an object
        from mc import ctrack
        ctrack.ARMED = True
        try:
            do_commit(w, ctx)
        finally:
            ctrack.ARMED = False
    elif k == 'A':
        do_abort(w, ctx)
    elif k == 'P':
        w.conn.shrink_cache()
    elif k == 'B':
        # a write that reads nothing
        w.next += 1
        w.conn.get(w.oid['b']).v = w.next
        w.cur['b'][0] = w.next
        w.changed.add('b')
    elif k == 'S':
        w.size = 2 if w.size != 2 else 4
        w.conn.set_cache_size(w.size)
        ctx.eq(w.conn.get_cache_size(), w.size, 'get_cache_size')
    elif k == 'E':
        # another client changes c while nothing is in use here
        do_abort(w, ctx)
        external(w)
        w.loaded.discard('c')
        do_abort(w, ctx)
    elif k == 'F':
        a = read(w, ctx, 'a')
        a.y = w.T()
        b = read(w, ctx, 'b')
        b.v = lambda: None
        w.changed.update('ab')
        try:
            w.conn.commit()
        except Exception:
            pass
        else:
            ctx.violation('a function was stored')
        del a, b
        do_abort(w, ctx)
    else:
        raise AssertionError(op)


def external(w):
    from durus.connection import Connection
    from durus.storage import MemoryStorage
    w.next += 1
    regs = dict(w.reg)
    s = MemoryStorage()
    s.begin()
    pairs = list(w.storage.gen_oid_record())
    for _ in range(10):
        s.new_oid()
    for oid, rec in pairs:
        s.store(oid, rec)
    s.end()
    other = Connection(s)
    o = other.get(w.oid['c'])
    o.v = w.next
    other.commit()
    w.storage.begin()
    w.storage.store(w.oid['c'], s.load(w.oid['c']))
    w.storage.end()
    w.storage.invalid = (w.oid['c'],)
    w.com['c'][0] = w.cur['c'][0] = w.next
    del o, other, s
    w.reg.clear()
    w.reg.update(regs)


def check(w, ctx, what):
    by = {}
    bound = 1
    if w.root() is not w.conn.root:
        ctx.violation('the root is another instance than before')
    for r in list(w.reg.values()):
        o = r()
        if o is None or o._p_oid is None:
            continue
        ctx.check(o._p_connection is w.conn, 'object bound to another connection')
        ctx.check(o._p_oid not in by, '%s: two live instances of oid %r', what, o._p_oid)
        by[o._p_oid] = o
        bound += 1
        ctx.check(w.conn.get(o._p_oid) is o, '%s: get(oid) is not the live instance', what)
    ctx.eq(w.conn.get_cache_count(), bound, what + ': get_cache_count')
    for name in w.changed:
        if name in w.com:
            o = by.get(w.oid[name])
            ctx.check(o is not None and o._p_is_unsaved(), '%s: modified object %s %r', what, name, o)
    for name in w.accessed:
        if name in w.com and name in w.oid:
            o = by.get(w.oid[name])
            ctx.check(o is None or not o._p_is_ghost(), '%s: object %s in use was made a ghost',
                      what, name)
    o = by = None


def execute(unit, ctx, seq):
    ctx.trail = dict(seq=seq, size=unit['size'], mode=unit['mode'])
    w = World(unit['size'])
    last = len(seq) - 1
    zero = unit['alpha'][0]
    tail = last
    while tail > 0 and seq[tail] == zero:
        tail -= 1
    for i, op in enumerate(seq):
        step(w, ctx, op)
        if i >= tail - 1:
            check(w, ctx, 'after %s' % seq[:i + 1])
    ctx.count('states')
    ctx.count('transitions', len(seq))
    ctx.count('traces_validated_against_impl')
    # final: nothing is referenced any more; everything is as the model says
    keep = list(w.held)
    step(w, ctx, 'C')
    check(w, ctx, 'final commit')
    step(w, ctx, 'Y')
    for name in 'abc':
        read(w, ctx, name)
    del w.held[:], keep
    check(w, ctx, 'final read')
    for i in range(12):
        step(w, ctx, 'C')
        gc.collect(0)
        if w.conn.get_cache_count() <= w.size:
            break
    else:
        gc.collect()
        ctx.check(w.conn.get_cache_count() <= w.size,
                  'after 12 commits with nothing in use the cache holds %s objects, target %s',
                  w.conn.get_cache_count(), w.size)
    ctx.outcome('%s commits to target' % i)
    check(w, ctx, 'after shrinking')
    for name in 'abc':
        read(w, ctx, name)
    from durus.connection import Connection
    w.conn.abort()
    ctx.sample(dict(seq=seq, count=w.conn.get_cache_count()))
    regs = dict(w.reg)
    other = Connection(w.storage)
    r = other.get_root()
    for name, o in (('a', r['a']), ('b', r['b']), ('c', r['a'].x)):
        ctx.eq(o.v, w.com[name][0], 'stored value of ' + name)
    ctx.check(r['b'].x is r['a'].x and r['a'].x.x is r['a'], 'stored sharing')
    y = w.com['a'][2]
    ctx.eq(r['a'].y and r['a'].y.v, y and w.com[y][0], 'stored a.y')
