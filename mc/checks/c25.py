"""C25: crawler, census and the other maintenance helpers on every small graph."""
import itertools
import shutil

from mc import biglib, storages

ID = 'C25'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of object graphs, cache states, starts and batch sizes on the real helpers'
RULE = ('every directed graph over the root and 2 or 3 objects (unreachable ones included), for every combination of '
        'cached / ghost / loaded / modified objects, every start, batch sizes 1, 2, 3, 100, on every storage and through a '
        'server: crawler, gen_oid_record, gen_oid_class, get_census, gen_referring_oid_record, '
        'get_reference_index, gen_every_instance, touch_every_reference are compared with the graph; '
        'statuses, uncommitted values and the following commit show that nothing was disturbed. '
        'Also the same on stars, chains, two-level graphs and trees of 20 to 2500 objects. A state is one (graph, cache state, storage) combination.')
ASSUMPTIONS = ['full listings may or may not include unreachable records; the helpers must agree with the listing of the storage']

N = {'P': 0, 'Q': 1, 'PB': 2}


def units(tier):
    q = tier == 'quick'
    out = []
    for kind in ('mem', 'file', 'file2', 'sqlite', 'net', 'filepack'):
        for part in range(4):
            out.append(dict(storage=kind, n=2, part=part, parts=4, rot=0, mode='c', cost=5))
    for kind in ('file', 'file2', 'sqlite', 'net'):
        for part in range(2 if q else 16):
            out.append(dict(storage=kind, n=3, part=part, parts=2 if q else 16, rot=0, mode='c', cost=6, noself=q,
                            nocache=True))
    for kind in ('mem', 'net'):
        for part in range(8):
            out.append(dict(storage=kind, n=3, part=part, parts=8, interleaved=True, mode='c', cost=10,
                            batches=(1, 100) if q else (1, 2, 100)))
    for part in range(16):
        out.append(dict(storage='mem', n=3, part=part, parts=16, rot=1, mode='c', cost=20, few=q))
    for part in range(4):
        out.append(dict(storage='mem', n=2, part=part, parts=4, rot=2, mode='py', cost=5))
        if not q:
            for rot in (1, 2):
                for kind in ('file', 'file2', 'sqlite', 'net'):
                    out.append(dict(storage=kind, n=2, part=part, parts=4, rot=rot, mode='c', cost=5))
    if not q:
        for kind in ('file', 'net'):
            for part in range(64):
                out.append(dict(storage=kind, n=3, part=part, parts=64, rot=0, mode='c', cost=20, few=True))
    return out + biglib.graph_units(q, 'helpers')


def run(unit, ctx):
    if 'big' in unit:
        return biglib.run_graph(unit, ctx)
    n = unit['n']
    if unit.get('interleaved'):
        return interleaved(unit, ctx, n)
    for bits in range(1 << (n + n * n)):
        if unit.get('noself') and any(bits >> (n + i * n + i) & 1 for i in range(n)):
            continue
        if (bits >> 3 ^ bits) % unit['parts'] == unit['part']:
            graph(unit, ctx, n, bits)


def graph(unit, ctx, n, bits):
    from durus.connection import Connection
    from mc import pclasses
    d = ctx.newdir()
    net = None
    kind = unit['storage']
    try:
        s = storages.open_storage('file' if kind == 'filepack' else 'mem' if kind == 'net' else kind, d)
        c = Connection(s)
        r = c.get_root()
        names = ('P', 'Q', 'PB')
        classes = [getattr(pclasses, names[(i + unit['rot']) % 3]) for i in range(n)]
        objs = [k() for k in classes]
        # give everything an oid first: objects may end up unreachable
        for i, o in enumerate(objs):
            o.a = i
            o.b = 'word%d' % i
            o.refs = []
            r['o%d' % i] = o
            if n == 3 and not i:
                c.commit()
                while s.new_oid() < b'\0\0\0\0\0\0\0\xff':
                    pass  # (the oids of the other objects are 256 and 257)
        c.commit()
        adj = {}
        for i in range(n):
            adj[i] = [j for j in range(n) if bits >> (n + i * n + j) & 1]
            objs[i].refs = [objs[j] for j in adj[i]]
        adj['root'] = [i for i in range(n) if bits >> i & 1]
        for i in range(n):
            if i not in adj['root']:
                del r['o%d' % i]
        c.commit()
        oid = {i: objs[i]._p_oid for i in range(n)}
        oid['root'] = r._p_oid
        cls = {i: classes[i].__name__ for i in range(n)}
        cls['root'] = 'PersistentDict'
        del objs, r, c
        packed = kind == 'filepack'
        if packed:
            s.pack()
            live = reach(adj, 'root')
            adj = {x: adj[x] for x in adj if x in live}
            oid = {x: oid[x] for x in oid if x in live}
            cls = {x: cls[x] for x in cls if x in live}
        if kind == 'net':
            from mc.netlib import Net
            net = Net(s)
            s = net.client()
        store_helpers(ctx, s, adj, oid, cls, dict(unit=unit, graph=repr(adj)))
        cases = list(itertools.product(('none', 'ghost', 'loaded', 'modified'), repeat=n))
        if packed:  # what the pack removed is not there to be looked at
            cases = [c for c in cases if all(i in adj or c[i] == 'none' for i in range(n))]
        if unit.get('few'):
            cases = cases[::7]
        elif kind not in ('mem',):
            cases = cases[::3]
        if unit.get('nocache'):
            cases = cases[:1]
            ctx.count('states')
        for cache in cases:
            conn_helpers(ctx, s, adj, oid, cls, cache, n, kind, dict(
                storage=kind, graph=repr(adj), cache=cache))
        if net is not None:
            net.check_alive()
        else:
            s.close()
    finally:
        if net is not None:
            net.kill()
        ctx.rmdir(d)


SHAPES = {3: [{'root': [0], 0: [1], 1: [2], 2: []}, {'root': [0, 1, 2], 0: [], 1: [], 2: []},
              {'root': [0], 0: [1, 2], 1: [2], 2: [0]}, {'root': [0, 1], 0: [2], 1: [2], 2: [2]}]}


def interleaved(unit, ctx, n):
    """Transactions begin and end while a crawler is suspended: what it yields then is the current state."""
    from durus.connection import Connection
    from mc import pclasses
    from mc.netlib import Net
    import gc
    kind = unit['storage']
    k = 0
    for adj in SHAPES[n]:
        for batch in unit['batches']:
            for pos in range(1, n + 1):
                for target in range(n):
                    for who in (('own',) if kind == 'mem' else ('own', 'other', 'other unseen')):
                        for held in ('none', 'all', 'target'):
                            for cache_size in (1, 1000):
                                k += 1
                                if k % unit['parts'] == unit['part']:
                                    ctx.trail = dict(storage=kind, graph=repr(adj), batch=batch, after=pos,
                                                     changed=target, by=who, held=held, cache_size=cache_size)
                                    one_interleaving(ctx, kind, adj, batch, pos, target, who, held, cache_size, n)


def one_interleaving(ctx, kind, adj, batch, pos, target, who, held, cache_size, n):
    from durus.connection import Connection
    from durus.error import ReadConflictError
    from mc import pclasses
    from mc.netlib import Net
    import gc
    d = ctx.newdir()
    net = None
    try:
        s = storages.open_storage('mem', d)
        c = Connection(s)
        r = c.get_root()
        objs = [pclasses.P() for i in range(n)]
        for i, o in enumerate(objs):
            o.a = i
            o.refs = [objs[j] for j in adj[i]]
        for i in adj['root']:
            r['o%d' % i] = objs[i]
        c.commit()
        oid = {i: objs[i]._p_oid for i in range(n)}
        oid['root'] = r._p_oid
        name = {v: k for k, v in oid.items()}
        del objs, r, c, o
        if kind == 'net':
            net = Net(s)
            conn = Connection(net.client(), cache_size=cache_size)
            other = Connection(net.client())
        else:
            conn = Connection(s, cache_size=cache_size)
        ctx.count('states')
        ctx.count('traces_validated_against_impl')
        value = {i: i for i in range(n)}
        hold = [conn.get(oid[i]) for i in range(n) if held == 'all' or held == 'target' and i == target]
        conn.abort()
        g = conn.get_crawler(batch_size=batch)
        got = []
        for step in range(pos):
            x = next(g)
            got.append(x._p_oid)
            if name[x._p_oid] != 'root':
                ctx.eq(x.a, value[name[x._p_oid]], 'value before the change')
        del x
        conn.abort()
        w = conn if who == 'own' else other
        w.abort()
        w.get(oid[target]).a = value[target] = 'new'
        w.commit()
        if who != 'other unseen':
            conn.abort()
            conn.abort()
        gc.collect()
        conflict = False
        while True:
            try:
                x = next(g)
            except StopIteration:
                break
            except ReadConflictError:
                if who != 'other unseen':
                    raise
                conflict = True
                break
            got.append(x._p_oid)
            i = name[x._p_oid]
            ctx.check(not x._p_is_ghost(), 'a ghost')
            if i != 'root':
                want = [value[i]]
                if who == 'other unseen' and i == target:
                    want.append(i)
                ctx.check(x.a in want, 'the crawler yields object %s with %r instead of %r', i, x.a, want)
            ctx.count('transitions')
        if not conflict:
            ctx.eq(sorted(got), sorted(oid.values()), 'crawled')
        ctx.outcome('conflict' if conflict else 'crawled')
        conn.abort()
        for i in range(n):
            ctx.eq(conn.get(oid[i]).a, value[i], 'value of %s after the crawl' % i)
        conn.get_root()['z'] = 1
        for i in range(n):
            conn.get(oid[i]).c = 1
        conn.commit()
        again = Connection(s)
        for i in range(n):
            ctx.eq(again.get(oid[i]).a, value[i], 'committed value of %s' % i)
        if net is not None:
            net.check_alive()
    finally:
        if net is not None:
            net.kill()
        ctx.rmdir(d)


def reach(adj, start):
    seen, todo = set(), [start]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(adj[x])
    return seen


def store_helpers(ctx, s, adj, oid, cls, trail):
    from durus.serialize import unpack_record, split_oids
    from durus.storage import gen_oid_class, gen_referring_oid_record, get_census, \
        get_reference_index
    ctx.trail = trail
    name = {v: k for k, v in oid.items()}
    for start in adj:
        for batch in (1, 2, 3, 100):
            got = list(s.gen_oid_record(start_oid=oid[start], batch_size=batch))
            ctx.eq(sorted(o for o, rec in got), sorted(oid[x] for x in reach(adj, start)),
                   'gen_oid_record from %s, batch %d' % (start, batch))
            for o, rec in got:
                ctx.eq(rec, s.load(o), 'record of %r' % o)
                ctx.eq(sorted(split_oids(unpack_record(rec)[2])),
                       sorted(oid[x] for x in set(adj[name[o]]) - set([name[o]])), 'references')
            ctx.count('transitions')
    listing = [o for o, rec in s.gen_oid_record()]
    ctx.eq(len(set(listing)), len(listing), 'distinct oids in the full listing')
    ls = [name[o] for o in listing]
    ctx.check(reach(adj, 'root') <= set(ls), 'reachable records missing in the listing: %r', ls)
    ctx.eq(sorted(gen_oid_class(s)), sorted((oid[x], cls[x].encode()) for x in ls), 'gen_oid_class')
    for want in itertools.chain(itertools.combinations(('P', 'Q', 'PB', 'PersistentDict'), 1),
                                itertools.combinations(('P', 'Q', 'PB', 'PersistentDict'), 2)):
        ctx.eq(sorted(gen_oid_class(s, *[w.encode() for w in want])),
               sorted((oid[x], cls[x].encode()) for x in ls if cls[x] in want), 'gen_oid_class %r' % (want,))
    census = {}
    for x in ls:
        census[cls[x].encode()] = census.get(cls[x].encode(), 0) + 1
    ctx.eq(get_census(s), census, 'get_census')
    index = {}
    for x in ls:
        for y in set(adj[x]) - set([x]):
            index.setdefault(oid[y], []).append(oid[x])
    ctx.eq({k: sorted(v) for k, v in get_reference_index(s).items()},
           {k: sorted(v) for k, v in index.items()}, 'get_reference_index')
    for y in adj:
        got = list(gen_referring_oid_record(s, oid[y]))
        ctx.eq(sorted(o for o, rec in got), sorted(index.get(oid[y], [])), 'gen_referring_oid_record of %s' % y)
        for o, rec in got:
            ctx.eq(rec, s.load(o), 'record of a referrer')
    ctx.count('transitions', 20)


class Setup(object):
    def __init__(self, ctx, s, adj, oid, cache, n):
        from durus.connection import Connection
        self.ctx, self.adj, self.oid, self.n = ctx, adj, oid, n
        self.conn = Connection(s)
        self.held = {}
        self.value = {}
        for i in range(n):
            self.value[i] = i
            if cache[i] == 'none':
                continue
            o = self.held[i] = self.conn.get(oid[i])
            if cache[i] == 'modified':
                o.a = self.value[i] = 100 + i
        for i in range(n):
            if cache[i] == 'ghost':
                self.held[i]._p_set_status_ghost()
        self.modified = set(i for i in range(n) if cache[i] == 'modified')

    def undisturbed(self, what, touched=()):
        ctx = self.ctx
        for i, o in self.held.items():
            ctx.check(self.conn.get(self.oid[i]) is o, '%s: another instance of object %s', what, i)
            ctx.eq(o._p_is_unsaved(), i in self.modified or i in touched,
                   '%s: is object %s changed' % (what, i))
            ctx.eq(o.a, self.value[i], '%s: value of object %s' % (what, i))
            ctx.eq([x.a for x in o.refs], [self.value[j] for j in self.adj[i]], what + ': references')
        for i in range(self.n):
            if i not in self.oid:
                continue
            o = self.conn.get(self.oid[i])
            if i not in self.held:
                ctx.eq(o._p_is_unsaved(), i in touched, '%s: is object %s changed' % (what, i))
                ctx.eq(o.a, self.value[i], '%s: value of object %s' % (what, i))
        root = self.conn.get_root()
        ctx.eq(root._p_is_unsaved(), 'root' in touched, '%s: is the root changed' % what)


def conn_helpers(ctx, s, adj, oid, cls, cache, n, kind, trail):
    from durus.connection import touch_every_reference, gen_every_instance
    from durus.persistent import Persistent, PersistentObject
    from durus.persistent_dict import PersistentDict
    from mc import pclasses
    ctx.count('states')
    ctx.count('traces_validated_against_impl')
    name = {v: k for k, v in oid.items()}
    listing = [name[o] for o, rec in s.gen_oid_record()]
    # crawler: every start, every batch size, also left unfinished
    for start in adj:
        for batch in (1, 2, 100):
            ctx.trail = dict(trail, what='crawler', start=start, batch=batch)
            w = Setup(ctx, s, adj, oid, cache, n)
            got = []
            for o in w.conn.get_crawler(start_oid=oid[start], batch_size=batch):
                ctx.check(not o._p_is_ghost(), 'the crawler yields a ghost')
                ctx.check(o._p_connection is w.conn, 'wrong connection')
                ctx.eq(type(o).__name__, cls[name[o._p_oid]], 'class of a crawled object')
                if name[o._p_oid] != 'root':
                    ctx.eq(o.a, w.value[name[o._p_oid]], 'value of a crawled object')
                    if name[o._p_oid] in w.held:
                        ctx.check(w.held[name[o._p_oid]] is o, 'the crawler yields another instance')
                got.append(o)
            ctx.eq(sorted(o._p_oid for o in got), sorted(oid[x] for x in reach(adj, start)),
                   'crawled from %s, batch size %d' % (start, batch))
            before = w.conn.get_load_count()
            for o in got:
                repr(o.__getstate__())
            ctx.eq(w.conn.get_load_count(), before, 'loads after the crawl')
            w.undisturbed('crawler')
            ctx.count('transitions')
            w.conn.abort()
    w = Setup(ctx, s, adj, oid, cache, n)
    g = w.conn.get_crawler(batch_size=1)
    next(g)
    w.undisturbed('unfinished crawl')
    g.close()
    w.conn.abort()
    # instances of classes
    for classes in ((pclasses.P,), (pclasses.Q,), (pclasses.PB,), (pclasses.Q, pclasses.PB),
                    (Persistent,), (PersistentObject,), (PersistentDict,), (object,)):
        ctx.trail = dict(trail, what='gen_every_instance', classes=repr(classes))
        w = Setup(ctx, s, adj, oid, cache, n)
        got = list(gen_every_instance(w.conn, *classes))
        def match(x):
            k = PersistentDict if x == 'root' else getattr(pclasses, cls[x])
            return issubclass(k, classes)
        ctx.eq(sorted(o._p_oid for o in got), sorted(oid[x] for x in listing if match(x)),
               'gen_every_instance %r' % (classes,))
        for o in got:
            ctx.check(isinstance(o, classes) and w.conn.get(o._p_oid) is o, 'wrong instance %r', o)
        w.undisturbed('gen_every_instance')
        ctx.count('transitions')
        w.conn.abort()
    # touch
    for words in ((), ('word0',), ('word1',), ('word0', 'word1'), ('nowhere',), ('PB',), ('pclasses',), (b'word0',),
                  ('PersistentDict',), ('refs',)):
        ctx.trail = dict(trail, what='touch_every_reference', words=words)
        w = Setup(ctx, s, adj, oid, cache, n)
        touch_every_reference(w.conn, *words)
        want = set()
        for x in listing:
            texts = [cls[x], 'durus.persistent_dict' if x == 'root' else 'mc.pclasses']
            if x != 'root':
                texts += ['word%d' % x, 'refs']
            else:
                texts += ['data'] + ['o%d' % i for i in adj[x]]
            for y in adj[x]:
                texts += [cls[y], 'mc.pclasses']
            if any((t.decode() if isinstance(t, bytes) else t) in text for t in words for text in texts):
                want.add(x)
        ctx.outcome('touched %d' % len(want))
        # (held and loaded objects keep their state until the commit)
        w.undisturbed('touch_every_reference %r' % (words,), want)
        ctx.count('transitions')
        if kind == 'mem':
            before = {o: r for o, r in s.gen_oid_record()}
            stored = []
            real = s.store
            s.store = lambda o, rec: (stored.append(o), real(o, rec))
            try:
                w.conn.commit()
            finally:
                del s.store
            ctx.eq(sorted(set(stored)), sorted(set(oid[x] for x in want | w.modified)), 'stored by the commit')
            # undo for the next case
            s.begin()
            for o, rec in before.items():
                s.store(o, rec)
            for i in w.modified:
                if oid[i] not in before:
                    o = w.conn.get(oid[i])
                    o.a = i
                    o._p_note_change()
            s.end()
            if any(oid[i] not in before for i in w.modified):
                w.conn.commit()
        else:
            w.conn.abort()
