"""C18: all small object graphs through the real writer and reader."""
import hashlib
import io
import itertools
import pickle

ID = 'C18'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of object graphs, edge representations and commit sequences on the real serializer'
RULE = ('every directed graph (self references and cycles included) over a root and up to 3 persistent objects, for '
        'rotations of class (attributes, slots, dict, list, set, mixed) and of the way a reference is held (attribute, '
        'list, dict value, dict key, tuple, set, instance of a plain class, shared or recursive '
        'container), compressed, uncompressed and mixed; every pair of such graphs as two '
        'consecutive commits; every sequence of small and large states across the point where '
        'the pickler is replaced; a table of plain values in every class. Also values of 99 to 1000001 bytes or items, and that many references. Each stored record is '
        'decoded: its references must be exactly those an independent walk of the live state '
        'finds; a fresh connection must give an isomorphic graph. A state is one graph or pair.')
ASSUMPTIONS = ['at most 3 objects and the root; equal plain mutable values shared between two '
               'persistent objects are copies after reloading (documented behaviour of pickling)']

CLASSES = ('P', 'S', 'SD', 'SQ', 'PersistentDict', 'PersistentList', 'PersistentSet')


def units(tier):
    q = tier == 'quick'
    out = []
    for mode in ('c', 'py'):
        for rot in range(7 if q else 28):
            out.append(dict(kind='graphs', n=2, rot=rot, mode=mode, cost=1, part=0, parts=1))
    parts = 4
    for rot in range(14 if q else 56):
        for part in range(parts):
            out.append(dict(kind='graphs', n=3, rot=rot, part=part, parts=parts, mode='c', cost=9))
    for rot in range(7 if q else 28):
        for part in range(parts):
            out.append(dict(kind='pairs', n=2, rot=rot, part=part, parts=parts, mode='c', cost=9))
    for k in range(0, 4 if q else 6):
        for mode in ('c', 'py'):
            out.append(dict(kind='sizes', n=4 if q else 6, k=k, mode=mode, cost=5))
    for n in LARGE:
        for mode in ('c', 'py'):
            out.append(dict(kind='large', n=n, mode=mode, cost=n / 50000))
    for mode in ('c', 'py'):
        out.append(dict(kind='values', mode=mode, cost=2))
        out.append(dict(kind='foreign', mode=mode, cost=1))
    return out


def run(unit, ctx):
    globals()['run_' + unit['kind']](unit, ctx)


# ------------------------------------------------------------------ building

def make(cls, v):
    from mc import pclasses
    from durus.persistent_dict import PersistentDict
    from durus.persistent_list import PersistentList
    from durus.persistent_set import PersistentSet
    k = dict(PersistentDict=PersistentDict, PersistentList=PersistentList,
             PersistentSet=PersistentSet).get(cls) or getattr(pclasses, cls)
    o = k()
    fill(o, cls, v, [])
    return o


def hold(kind, target):
    from mc.pclasses import Plain, PlainSlots
    if kind == 0:
        return target
    if kind == 1:
        return [target]
    if kind == 2:
        return {'k': target}
    if kind == 3:
        return (1, (target,))
    if kind == 4:
        p = Plain()
        p.ref = target
        p.again = [target]
        return p
    if kind in (5, 8) and not hashable(target):
        kind = 2
        return {'k': target}
    if kind == 5:
        return {target: 'as a key'}
    if kind == 6:
        x = [target]
        x.append(x)
        return x
    if kind == 7:
        x = [target]
        return [x, x, (x,)]
    if kind == 8:
        return set([target])
    p = PlainSlots()
    p.p = target
    p.q = frozenset([target]) if hashable(target) else (target,)
    return p


NHOLD = 10


def hashable(x):
    try:
        hash(x)
    except TypeError:
        return False
    return True


def fill(o, cls, v, values):
    """give the object its number and the values"""
    if cls in ('P', 'SD'):
        o.a = v
        o.b = values
        o.c = values[:1]
    elif cls == 'S':
        o.a = v
        o.b = tuple(values)
        if hasattr(o, 'c'):
            del o.c
        if len(values) % 2:
            o.c = values
    elif cls == 'SQ':
        o.a = v
        o.d = values
    elif cls == 'PersistentDict':
        o.clear()
        o['v'] = v
        for i, x in enumerate(values):
            o[i] = x
    elif cls == 'PersistentList':
        del o[:]
        o.append(v)
        o.extend(values)
    else:
        o.clear()
        o.add(('v', v))
        o.add(tuple(Frozen.of(x) for x in values))


class Frozen(object):
    @staticmethod
    def of(x):
        """a hashable stand-in for the holder"""
        if isinstance(x, list):
            return tuple(Frozen.of(y) for y in x if y is not x)
        if isinstance(x, dict):
            return tuple((Frozen.of(k), Frozen.of(y)) for k, y in x.items())
        if isinstance(x, set):
            return frozenset(x)
        return x if hashable(x) else hold(4, x)


def graph_bits(n):
    """all edge sets: root -> i (bits 0..n-1), i -> j"""
    return range(1 << (n + n * n))


def edges(n, bits):
    root = [i for i in range(n) if bits >> i & 1]
    adj = [[j for j in range(n) if bits >> (n + i * n + j) & 1] for i in range(n)]
    return root, adj


def reach(root, adj):
    seen, todo = set(), list(root)
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo.extend(adj[i])
    return seen


# ------------------------------------------------------------------ independent walk

def canon(start, getoid=None):
    """(canonical form of the graph from start, {oid: set of oids referred to})"""
    from durus.persistent import PersistentObject
    number, queue, forms, refs = {}, [], [], {}

    def node(o):
        if id(o) not in number:
            number[id(o)] = len(queue)
            queue.append(o)
        return ('#', number[id(o)])

    def plain(x, memo, found):
        if isinstance(x, PersistentObject):
            found.append(x)
            return node(x)
        t = type(x)
        if t in (list, dict, set, bytearray) or getattr(t, '__module__', '') == 'mc.pclasses' and \
                not isinstance(x, type):
            if id(x) in memo:
                return ('seen', memo[id(x)][0])
            memo[id(x)] = (len(memo), x)
        if t in (list, tuple):
            return (t.__name__,) + tuple(plain(y, memo, found) for y in x)
        if t is dict:
            return ('dict',) + tuple((plain(k, memo, found), plain(v, memo, found))
                                     for k, v in x.items())
        if t in (set, frozenset):
            return (t.__name__,) + tuple(plain(y, memo, found) for y in sorted(x, key=order))
        if getattr(t, '__module__', '') == 'mc.pclasses' and not isinstance(x, type):
            d = {k: getattr(x, k) for k in getattr(t, '__slots__', ())} if hasattr(t, '__slots__') \
                else dict(vars(x))
            memo['kept', id(d)] = (None, d)
            return (t.__name__, plain(d, memo, found))
        return (t.__name__, repr(x))

    node(start)
    i = 0
    while i < len(queue):
        o = queue[i]
        i += 1
        st = contents(o)
        found = []
        forms.append((type(o).__module__, type(o).__name__, plain(st, {}, found)))
        refs[o._p_oid] = (o, set(f._p_oid for f in found) - set([o._p_oid]))
    return forms, refs


def contents(o):
    """what the application sees in a persistent object"""
    n = type(o).__name__
    if n == 'PersistentDict':
        return dict(o)
    if n == 'PersistentList':
        return list(o)
    if n == 'PersistentSet':
        return set(o)
    out = {}
    if hasattr(o, '__dict__'):
        out.update(o.__dict__)
    for k in type(o).__mro__:
        for name in k.__dict__.get('__slots__', ()):
            if name not in ('__weakref__', '__dict__') and not name.startswith('_p_'):
                try:
                    out[name] = getattr(o, name)
                except AttributeError:
                    pass
    return {name: out[name] for name in sorted(out)}


def order(x):
    """an order of set members that does not depend on addresses"""
    from durus.persistent import PersistentObject
    if isinstance(x, PersistentObject):
        return '#%r' % value_of(x)
    if isinstance(x, (tuple, frozenset)):
        return '(%s' % ','.join(sorted(order(y) for y in x))
    if type(x).__module__ == 'mc.pclasses':
        return 'plain' + order(getattr(x, 'ref', getattr(x, 'p', None)))
    return repr(x)


def value_of(o):
    n = type(o).__name__
    if n == 'PersistentDict':
        return o['v']
    if n == 'PersistentList':
        return o[0]
    if n == 'PersistentSet':
        return [x[1] for x in o if isinstance(x, tuple) and len(x) == 2 and x[0] == 'v'][0]
    return o.a


def verify(ctx, storage, root, what):
    from durus.connection import Connection
    from durus.serialize import split_oids, unpack_record, pack_record, extract_class_name
    from durus.serialize import ObjectReader
    form, refs = canon(root)
    reader = ObjectReader(root._p_connection)
    ctx.check(None not in refs, '%s: a reachable object has no oid after commit', what)
    for oid, (o, want) in refs.items():
        record = storage.load(oid)
        oid2, data, rd = unpack_record(record)
        ctx.eq(oid2, oid, '%s: oid in the record' % what)
        ctx.eq(pack_record(oid2, data, rd), record, 'pack_record of the parts')
        got = split_oids(rd)
        ctx.eq(sorted(got), sorted(want), '%s: references stored for %s' % (what, o))
        state = reader.get_state_pickle(data)
        f = io.BytesIO(data)
        pickle.Unpickler(f).load()
        stream = data[:f.tell()] + state
        f = io.BytesIO(stream)
        up = pickle.Unpickler(f)
        up.persistent_load = lambda ref: None
        up.load()
        if type(o).__name__ != 'PersistentSet':    # (its members may not be hashable without objects)
            up.load()
            ctx.check(f.tell() == len(stream), '%s: %d bytes of something else follow the state of %s',
                      what, len(stream) - f.tell(), o)
        ctx.eq(extract_class_name(record), type(o).__name__.encode(), 'extract_class_name')
        ctx.check(not o._p_is_unsaved(), '%s: %s is still changed after commit', what, o)
        ctx.count('records')
    other = Connection(storage)
    form2, refs2 = canon(other.get_root())
    if form2 != form:
        ctx.violation('%s: the graph read back differs: %r, written %r' % (what, form2, form))
    ctx.eq(set(refs2), set(refs), '%s: oids' % what)
    for oid, (o, want) in refs2.items():
        ctx.check(other.get(oid) is o, 'one instance per oid')
    return form


def new_db():
    from durus.connection import Connection
    from durus.storage import MemoryStorage
    s = MemoryStorage()
    return s, Connection(s)


def set_compress(x):
    import durus.serialize
    durus.serialize.WRITE_COMPRESSED_STATE_PICKLES = x


def build(objs, classes, n, bits, rot, version=0, which=None):
    root, adj = edges(n, bits)
    for i in range(n):
        if which is None or i in which:
            vals = [hold((rot + version + i * 3 + j) % NHOLD, objs[j]) for j in adj[i]]
            if len(vals) > 1 and (rot + i) % 3 == 0:
                vals.append(vals[0])           # the same holder twice
            fill(objs[i], classes[i], 'v%d.%d' % (i, version), vals)
    return root, adj


def run_graphs(unit, ctx):
    n, rot = unit['n'], unit['rot']
    for bits in graph_bits(n):
        if bits % unit['parts'] != unit['part']:
            continue
        if not bits & ((1 << n) - 1):
            continue
        for compress in (True, False):
            ctx.trail = dict(unit=unit, graph=edges(n, bits), compress=compress)
            set_compress(compress)
            s, c = new_db()
            classes = [CLASSES[(rot + i * (1 + rot // 7)) % len(CLASSES)] for i in range(n)]
            objs = [make(classes[i], i) for i in range(n)]
            root, adj = build(objs, classes, n, bits, rot)
            r = c.get_root()
            for i in reversed(root) if rot % 2 else root:
                r['o%d' % i] = hold((rot + i) % NHOLD if i % 2 else 0, objs[i])
            c.commit()
            verify(ctx, s, r, 'graph %r' % (edges(n, bits),))
            live = reach(root, adj)
            ctx.eq(len(list(s.gen_oid_record())), len(live) + 1, 'number of records reachable')
            for i in range(n):
                ctx.eq(objs[i]._p_oid is not None, i in live, 'object %d stored' % i)
            ctx.count('states')
            ctx.count('transitions')
            ctx.count('traces_validated_against_impl')
    set_compress(True)
    ctx.sample(ctx.trail)


def run_pairs(unit, ctx):
    n, rot = unit['n'], unit['rot']
    from durus.connection import Connection
    classes = [CLASSES[(rot * 2 + i) % len(CLASSES)] for i in range(n)]
    full = (1 << n) - 1
    for b1 in graph_bits(n):
        if b1 % unit['parts'] != unit['part']:
            continue
        for b2 in graph_bits(n):
            for which in ((0,), (1,), (0, 1)):
                if b2 & full != full and (b2 & full or which != (0, 1)):
                    continue
                ctx.trail = dict(first=edges(n, b1), second=edges(n, b2), changed=which, unit=unit)
                set_compress((b1 + b2) % 2 == 0)
                s, c = new_db()
                objs = [make(classes[i], i) for i in range(n)]
                root, adj = build(objs, classes, n, b1, rot)
                r = c.get_root()
                for i in root:
                    r['o%d' % i] = objs[i]
                c.commit()
                before = {oid: s.load(oid) for oid, rec in s.gen_oid_record()}
                had = set(i for i in range(n) if objs[i]._p_oid)
                set_compress((b1 + b2) % 3 == 0)
                root, adj = build(objs, classes, n, b2, rot, 1, which)
                for i in range(n):
                    if i in root:
                        r['o%d' % i] = hold((rot + i) % NHOLD, objs[i])
                    else:
                        r.pop('o%d' % i, None)
                c.commit()
                verify(ctx, s, r, 'second commit %r' % ctx.trail)
                for i in had:
                    if i not in which:
                        ctx.eq(s.load(objs[i]._p_oid), before[objs[i]._p_oid],
                               'record of the unchanged object %d' % i)
                ctx.count('states')
                ctx.count('transitions', 2)
                ctx.count('traces_validated_against_impl')
    set_compress(True)


def noise(n, seed):
    out = []
    k = 0
    while sum(map(len, out)) < n:
        out.append(hashlib.sha512(b'%d %d' % (seed, k)).digest())
        k += 1
    return b''.join(out)[:n]


def run_sizes(unit, ctx):
    """sequences of state sizes around the limit where the pickler is replaced"""
    n = unit['n']
    from mc.pclasses import P, Plain
    sizes = (5, 9990, 20050)
    for seq in itertools.product(range(len(sizes)), repeat=n):
        for compress in (True, False):
            set_compress(compress)
            ctx.trail = dict(sizes=seq, compress=compress, shape=unit['k'])
            s, c = new_db()
            r = c.get_root()
            objs = [P() for _ in seq]
            shared = ['shared']
            word = 'a word %d' % len(seq)
            for i, (o, k) in enumerate(zip(objs, seq)):
                o.a = noise(sizes[k], i)
                o.w = word                  # the same string object in every state
                o.s = shared
                o.t = (shared, Plain)
                if unit['k'] == 0:
                    o.next = objs[i + 1] if i + 1 < n else None
                elif unit['k'] == 1:
                    o.next = [objs[0], objs[-1]]
                elif unit['k'] == 2:
                    o.next = objs[i - 1]
                else:
                    o.next = None
            if unit['k'] == 3:
                r['all'] = objs
            else:
                r['first'] = objs[0]
                r['last'] = objs[-1]
            c.commit()
            verify(ctx, s, r, 'states of sizes %r' % (seq,))
            # change them all at once: one commit, one record each
            for o in objs:
                if o._p_oid:
                    o.w = 'changed'
                    o.next = None if unit['k'] % 2 else objs[0]
            c.commit()
            verify(ctx, s, r, 'changed states of sizes %r' % (seq,))
            ctx.count('states')
            ctx.count('transitions', 2)
            ctx.count('traces_validated_against_impl')
    set_compress(True)


def values():
    import datetime
    import decimal
    import fractions
    from mc.pclasses import P, Plain
    from durus.persistent import PersistentObject
    from durus.connection import Connection
    rec = {}
    rec['me'] = rec
    p = Plain()
    p.self = p
    big = [list(range(300)), {i: str(i) for i in range(300)}]
    sh = (1, 2)
    return [None, True, False, 0, -1, 255, 256, 65535, 65536, 2**31 - 1, 2**31, -2**31, 2**63, -2**63,
            2**200, -2**2100, 0.0, -0.0, 1.5, float('inf'), float('nan'), 1e-320, 3j, '', 'a', 'x' * 300,
            'x' * 70000, u'\xe9', u'\u20ac\U0001f600', u'\ud800', 'a\nb\0c', b'', b'x', b'\x78\x9c',
            b'\x80\x02', b'\xff' * 300, bytearray(b'abc'), (), (1,), (1, 2), (1, 2, 3), (1, 2, 3, 4),
            ((), ((),)), [], [[]], {}, {1: {}}, {'a': None, None: 'a'}, set(), set([1, 2]),
            frozenset([1, 'a']), [sh, sh], rec, p, [p, p], big, Plain, P, PersistentObject, len, Connection,
            datetime.datetime(2020, 1, 2, 3, 4, 5, 6), datetime.date(1, 1, 1), decimal.Decimal('1.50'),
            fractions.Fraction(1, 3), range(3), Ellipsis, NotImplemented, 'x', b'x\n.', int, type(None)]


def run_values(unit, ctx):
    from durus.connection import Connection
    for compress in (True, False):
        set_compress(compress)
        for cls in CLASSES:
            s, c = new_db()
            r = c.get_root()
            for i, v in enumerate(values()):
                ctx.trail = dict(cls=cls, value=repr(v)[:200], compress=compress)
                try:
                    hash(v)
                except TypeError:
                    if cls == 'PersistentSet':
                        continue
                o = make(cls, i)
                fill(o, cls, i, [v])
                r['o'] = o
                c.commit()
                verify(ctx, s, r, 'value %s in %s' % (repr(v)[:50], cls))
                ctx.count('states')
                ctx.count('transitions')
                ctx.count('traces_validated_against_impl')
    # records written compressed are read with the switch off, and the other way round
    for order_ in itertools.product((True, False), repeat=4):
        s, c = new_db()
        r = c.get_root()
        for i, z in enumerate(order_):
            set_compress(z)
            o = make('P', i)
            o.r = r
            r['o%d' % i] = o
            c.commit()
            verify(ctx, s, r, 'mixed %r' % (order_,))
    set_compress(True)


LARGE = (99, 254, 255, 256, 257, 999, 1000, 1001, 1002, 2001, 4096, 8191, 8193, 65534, 65535, 65536, 65537, 250000, 1000001)


def run_large(unit, ctx):
    """long strings and numbers, many items, many references"""
    import gc
    from mc.biglib import noise
    from mc.pclasses import P
    from durus.serialize import split_oids, unpack_record
    from durus.connection import Connection
    n = unit['n']
    flat = [noise(n), b'\0' * n, 'x' * n, '\u1234' * n, noise(n).decode('latin1')]
    if n < 10000:
        flat += [1 << 8 * n, -(1 << 8 * n), (1 << 8 * n - 1) - 1]
    some = [list(range(n)), tuple(range(n)), {i: -i for i in range(n)}, set(range(n)), [noise(64, i) for i in range(n // 64)]]
    for compress in (True, False):
        set_compress(compress)
        for cls in CLASSES if n < 5000 else ('P', 'S', 'PersistentDict'):
            for k, v in enumerate(flat + some):
                if cls == 'PersistentSet' and type(v) in (list, dict, set):
                    continue
                ctx.trail = dict(n=n, value=k, cls=cls, compress=compress)
                s, c = new_db()
                r = c.get_root()
                o = make(cls, 5)
                fill(o, cls, 5, [v])
                r['before'] = r['o'] = o
                other = r['other'] = make('P', 6)
                other.o = o
                c.commit()
                again = Connection(s)
                o2 = again.get_root()['o']
                ctx.check(o2 is again.get_root()['other'].o, 'n=%d: not the same object', n)
                ctx.eq(type(o2).__name__, cls, 'class')
                same(ctx, cls, o, o2, 'value %d of size %d in %s' % (k, n, cls))
                ctx.count('states')
                ctx.count('transitions')
                ctx.count('traces_validated_against_impl')
        if n > 10000:
            continue
        # references from one object to many, held in different ways
        for how in range(4):
            ctx.trail = dict(n=n, references=how, compress=compress)
            s, c = new_db()
            r = c.get_root()
            objs = [P() for i in range(n)]
            for i, o in enumerate(objs):
                o.a = i
            r['o'] = [lambda: objs, lambda: {i: o for i, o in enumerate(objs)}, lambda: tuple(objs[::-1]),
                      lambda: [objs, objs[:5], [objs[-1]] * 3]][how]()
            c.commit()
            want = sorted(o._p_oid for o in objs)
            ctx.eq(sorted(split_oids(unpack_record(s.load(r._p_oid))[2])), want, 'references of %d' % n)
            v = Connection(s).get_root()['o']
            got = [v, list(v.values()) if how == 1 else None, list(v)[::-1], v[0] if how == 3 else None][how]
            ctx.eq([o.a for o in got], list(range(n)), 'objects referred to by one of %d references' % n)
            if how == 3:
                ctx.check(v[1][0] is got[0] and v[2][2] is got[-1], 'n=%d: copies', n)
            del r['o']
            c.commit()
            ctx.eq(list(split_oids(unpack_record(s.load(r._p_oid))[2])), [], 'references after the deletion of %d' % n)
            ctx.count('states')
            ctx.count('transitions')
            ctx.count('traces_validated_against_impl')
    set_compress(True)
    gc.collect()


def same(ctx, cls, a, b, what):
    a.__getstate__()
    if cls in ('PersistentDict', 'PersistentList', 'PersistentSet'):
        # (the state: the one attribute)
        ok = a == b or sorted(map(repr, a)) == sorted(map(repr, b))
    else:
        b._p_load_state() if b._p_is_ghost() else None
        ok = a.__getstate__() == b.__getstate__()
    ctx.check(ok, '%s differs after reading', what)


def run_foreign(unit, ctx):
    """an object of another connection cannot be stored; nothing is changed by the attempt"""
    for cls in CLASSES:
        for k in range(NHOLD):
            for deep in (0, 1):
                s1, c1 = new_db()
                s2, c2 = new_db()
                o = make(cls, 1)
                c1.get_root()['o'] = o
                c1.commit()
                r = c2.get_root()
                before = dict(s2.gen_oid_record())
                ctx.trail = dict(cls=cls, holder=k, deep=deep)
                if deep:
                    q = make('P', 2)
                    q.b = hold(k, o)
                    r['x'] = q
                else:
                    r['x'] = hold(k, o)
                try:
                    c2.commit()
                except ValueError:
                    pass
                else:
                    ctx.violation('an object of another connection was stored')
                ctx.eq(dict(s2.gen_oid_record()), before, 'records after the refused commit')
                c2.abort()
                r['ok'] = make(cls, 3)
                c2.commit()
                verify(ctx, s2, r, 'after the refused commit')
                verify(ctx, s1, c1.get_root(), 'the other connection')
                ctx.count('states')
                ctx.count('traces_validated_against_impl')
