"""C03: containers against the builtins; explicit-state search over contents."""
import collections
import itertools

ID = 'C03'
LEVEL = 'model_checking'
RULE = ('breadth-first search over container contents (ordered) up to a size; in every state every '
        'operation of the alphabet with every operand kind (builtin, persistent, the container '
        'itself, one-shot iterator) runs on the persistent container and on the builtin; results, '
        'exception types, contents and independence of results are compared. A state is a distinct '
        'content, a transition one operation.')
ASSUMPTIONS = ['small value domains stand for all values', 'contents bounded in size']


def units(tier):
    q = tier == 'quick'
    out = []
    for mode in ('c', 'py'):
        for kind, n in (('dict', 3), ('list', 3 if q else 4), ('set', 3)):
            parts = 4 if (kind == 'list' or not q) else 2
            for part in range(parts):
                out.append(dict(kind=kind, n=n, part=part, parts=parts, mode=mode))
        out.append(dict(kind='pairs', cls='dict', n=2, depth=2 if q else 3, mode=mode))
        out.append(dict(kind='pairs', cls='list', n=2, depth=2, mode=mode))
        out.append(dict(kind='pairs', cls='set', n=2, depth=2 if q else 3, mode=mode))
        out.append(dict(kind='construct', mode=mode))
    return out


class Keyed(object):
    """an object with keys() and [] that is not a dict"""
    def __init__(self, d):
        self.d = d

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]


def classes():
    from durus.persistent_dict import PersistentDict
    from durus.persistent_list import PersistentList
    from durus.persistent_set import PersistentSet
    return dict(dict=(dict, PersistentDict), list=(list, PersistentList), set=(set, PersistentSet))


def plain(x):
    """builtin content of anything returned"""
    from durus.persistent_dict import PersistentDict
    from durus.persistent_list import PersistentList
    from durus.persistent_set import PersistentSet
    if isinstance(x, (PersistentDict, dict)):
        return ('dict', [(plain(k), plain(x[k])) for k in x])
    if isinstance(x, (PersistentList, list)):
        return ('list', [plain(y) for y in x])
    if isinstance(x, (PersistentSet, set, frozenset)):
        return ('set', sorted((plain(y) for y in x), key=repr))
    if isinstance(x, tuple):
        return ('tuple', [plain(y) for y in x])
    if type(x).__name__ in ('dict_keys', 'dict_items', 'dict_values', 'generator',
                            'list_iterator', 'dict_keyiterator', 'set_iterator',
                            'list_reverseiterator'):
        return ('list', [plain(y) for y in x])
    if isinstance(x, (bool, float)):
        return (type(x).__name__, repr(x))  # equal to an int, but not the same
    return x


class Fails(object):
    """sort keys, of which the n-th comparison fails"""
    def __init__(self, n):
        self.n = n

    def __call__(self, value):
        return FailsKey.Key(self, value)

    def less(self, a, b):
        self.n -= 1
        if self.n <= 0:
            raise ValueError
        return a < b


class FailsKey(Fails):
    """a key function that fails the n-th time"""
    class Key(object):
        def __init__(self, owner, value):
            self.owner, self.value = owner, value

        def __lt__(self, other):
            return self.owner.less(self.value, other.value)

    def __call__(self, value):
        self.less(1, 2)
        return value


class Arg(object):
    """an operand; make(cls, self) gives (argument for that implementation)"""
    def __init__(self, kind, data):
        self.kind, self.data = kind, data

    def make(self, impl, x):
        builtin, persistent = impl[0], impl[1]
        if self.kind == 'self':
            return x
        if self.kind == 'builtin':
            return impl[0](self.data)
        if self.kind == 'persistent':
            return impl[2](self.data)
        if self.kind == 'iter':
            return iter(self.data)
        if self.kind == 'keyed':
            return Keyed(self.data)
        return self.data

    def __repr__(self):
        return '%s:%r' % (self.kind, self.data)


def pop_all(x):
    """everything by pop(), and the error of an empty one"""
    out = []
    for i in range(20):
        try:
            out.append(x.pop())
        except KeyError:
            return sorted(out)


def iop(name):
    """in-place operator returning the resulting object"""
    def f(x, a):
        env = {'x': x, 'a': a}
        exec('x %s= a' % name, env)
        if env['x'] is not x:
            return ('REBOUND', env['x'])
        return None
    f.__name__ = 'i' + name
    return f


def gen(f):
    return lambda *a: list(f(*a))


def ops_for(kind):
    """list of (name, function(x, *args), [args])"""
    o = []

    def add(name, f, *args):
        o.append((name, f, args))
    V = ['v', None]
    if kind == 'dict':
        keys = ['a', 'b', 1]
        for k in keys + ['zz']:
            add('getitem', lambda x, k: x[k], k)
            add('get', lambda x, k: x.get(k), k)
            add('get2', lambda x, k: x.get(k, 7), k)
            add('in', lambda x, k: k in x, k)
            add('has_key', lambda x, k: x.has_key(k) if hasattr(x, 'has_key') else k in x, k)
            add('del', lambda x, k: x.__delitem__(k), k)
            add('pop', lambda x, k: x.pop(k), k)
            add('pop2', lambda x, k: x.pop(k, 7), k)
            add('setdefault', lambda x, k: x.setdefault(k), k)
            add('setdefault2', lambda x, k: x.setdefault(k, 's'), k)
        for k in keys:
            for v in V:
                add('set', lambda x, k, v: x.__setitem__(k, v), k, v)
        for k, v in (('b', True), ('b', 1.0), (True, 2.0), (1.0, False)):
            add('set', lambda x, k, v: x.__setitem__(k, v), k, v)
        add('update', lambda x: x.update({'b': True}))
        for f in ('getitem', 'get', 'in', 'set', 'pop', 'setdefault'):
            add(f + ' unhashable', {
                'getitem': lambda x: x[[]], 'get': lambda x: x.get([]), 'in': lambda x: [] in x,
                'set': lambda x: x.__setitem__([], 1), 'pop': lambda x: x.pop([]),
                'setdefault': lambda x: x.setdefault([], 1)}[f])
        add('popitem', lambda x: x.popitem())
        add('clear', lambda x: x.clear())
        add('len', len)
        add('bool', bool)
        add('list', list)
        for m in ('keys', 'values', 'items'):
            add(m, lambda x, m=m: list(getattr(x, m)()))
        for m in ('keys', 'values', 'items'):
            add('iter' + m, lambda x, m=m: list(getattr(x, 'iter' + m, getattr(x, m))()))
        add('copy', lambda x: x.copy())
        data = [{}, {'a': 'n'}, {'b': 'n', 1: 'm'}]
        for d in data:
            for k in ('builtin', 'persistent', 'keyed'):
                add('update', lambda x, a: x.update(a), Arg(k, d))
            add('update', lambda x, a: x.update(a), Arg('iter', list(d.items())))
        add('update', lambda x, a: x.update(a), Arg('self', None))
        add('update()', lambda x: x.update())
        add('update kw', lambda x: x.update(a='kw', c='kw'))
        add('update both', lambda x: x.update({'a': 'pos', 'b': 'pos'}, a='kw'))
        add('update self key', lambda x: x.update([('b', 1)], b='kw'))
        add('update 2', lambda x: x.update({}, {}))
        add('update bad', lambda x: x.update([('a', 'ok'), (1,)]))
        add('update bad2', lambda x: x.update(5))
        add('update bad3', lambda x: x.update([('a', 'ok'), ([], 1)]))
        for d in data + [None]:
            for k in (('persistent',) if d is not None else ('self',)):
                add('eq', lambda x, a: (x == a, x != a), Arg(k, d))
        add('eq other', lambda x: (x == 5, x != 5, x == None, x == [])) # noqa
        add('ne same', lambda x: x == type(x)(x))
        add('fromkeys', lambda x: type(x).fromkeys('ab', 3))
        add('fromkeys2', lambda x: x.fromkeys('ab'))
        add('constructor', lambda x: type(x)(x, z=1))
    elif kind == 'list':
        idx = [-5, -4, -2, -1, 0, 1, 2, 4]
        for i in idx:
            add('getitem', lambda x, i: x[i], i)
            add('setitem', lambda x, i: x.__setitem__(i, 2), i)
            if i in (-1, 0):
                add('setitem', lambda x, i, v: x.__setitem__(i, v), i, 2.0)
                add('setitem', lambda x, i, v: x.__setitem__(i, v), i, True)
                add('setitem', lambda x, i, v: x.__setitem__(i, v), i, False)
            add('delitem', lambda x, i: x.__delitem__(i), i)
            add('insert', lambda x, i: x.insert(i, 2), i)
            add('pop', lambda x, i: x.pop(i), i)
        bounds = [None, -4, -1, 0, 1, 3]
        slices = [slice(a, b) for a in bounds for b in bounds]
        steps = [slice(None, None, 2), slice(None, None, -1), slice(2, None, -2), slice(0, 3, 2)]
        for s in slices + steps:
            add('getslice', lambda x, s: x[s], s)
            add('delslice', lambda x, s: x.__delitem__(s), s)
        for s in slices[::2] + steps:
            for k, d in (('builtin', []), ('builtin', [3, 4]), ('persistent', [3, 4]),
                         ('iter', [3]), ('self', None)):
                add('setslice', lambda x, s, a: x.__setitem__(s, a), s, Arg(k, d))
        add('setslice bad', lambda x: x.__setitem__(slice(0, 1), 5))
        for k, d in (('builtin', []), ('builtin', [3, 1]), ('persistent', []),
                     ('persistent', [3, 1]), ('self', None)):
            add('+', lambda x, a: x + a, Arg(k, d))
            add('r+', lambda x, a: a + x, Arg(k, d))
            add('cmp', lambda x, a: (x < a, x <= a, x == a, x != a, x > a, x >= a), Arg(k, d))
            add('rcmp', lambda x, a: (a < x, a <= x, a == x, a != x, a > x, a >= x), Arg(k, d))
        for k, d in (('builtin', [3]), ('persistent', [3]), ('iter', [3]), ('self', None),
                     ('raw', (3, 4))):
            add('+=', iop('+'), Arg(k, d))
            add('extend', lambda x, a: x.extend(a), Arg(k, d))
        add('+= bad', lambda x: iop('+')(x, 5))
        add('extend bad', lambda x: x.extend(5))
        for n in (-1, 0, 1, 2):
            add('*', lambda x, n: x * n, n)
            add('r*', lambda x, n: n * x, n)
            add('*=', iop('*'), n)
        add('append', lambda x: x.append(2))
        add('append1', lambda x: x.append(1))
        add('pop', lambda x: x.pop())
        for v in (0, 1, 2):
            add('remove', lambda x, v: x.remove(v), v)
            add('count', lambda x, v: x.count(v), v)
            add('index', lambda x, v: x.index(v), v)
            add('index2', lambda x, v: x.index(v, 1), v)
            add('index3', lambda x, v: x.index(v, 0, 2), v)
            add('in', lambda x, v: v in x, v)
        add('reverse', lambda x: x.reverse())
        add('sort', lambda x: x.sort())
        add('sort key', lambda x: x.sort(key=lambda y: -y))
        for n in (1, 2, 3):
            add('sort bad', lambda x, n: x.sort(key=Fails(n)), n)
            add('sort bad key', lambda x, n: x.sort(key=FailsKey(n)), n)
        add('sort rev', lambda x: x.sort(reverse=True))
        add('len', len)
        add('bool', bool)
        add('iter', list)
        add('reversed', lambda x: list(reversed(x)))
        add('clear', lambda x: x.clear())
        add('constructor', lambda x: type(x)(x))
    else:
        for v in (0, 1, 2, 9):
            add('add', lambda x, v: x.add(v), v)
            add('in', lambda x, v: v in x, v)
            add('discard', lambda x, v: x.discard(v), v)
            add('remove', lambda x, v: x.remove(v), v)
        add('pop', lambda x: x.pop())
        add('pop all', pop_all)
        add('add bad', lambda x: x.add([]))
        add('remove bad', lambda x: x.remove([]))
        add('clear', lambda x: x.clear())
        add('len', len)
        add('bool', bool)
        add('iter', lambda x: set(iter(x)))
        add('copy', lambda x: x.copy())
        add('constructor', lambda x: type(x)(x))
        data = [[], [0], [1, 2], [0, 1, 3]]
        for d in data + [None]:
            kinds = ('builtin', 'persistent') if d is not None else ('self',)
            for k in kinds:
                for name, f in (('&', lambda x, a: x & a), ('|', lambda x, a: x | a),
                                ('-', lambda x, a: x - a), ('^', lambda x, a: x ^ a),
                                ('r&', lambda x, a: a & x), ('r|', lambda x, a: a | x),
                                ('r-', lambda x, a: a - x), ('r^', lambda x, a: a ^ x)):
                    add(name, f, Arg(k, d))
                for op in '&|-^':
                    add(op + '=', iop(op), Arg(k, d))
            for k in ('builtin', 'persistent', 'iter') if d is not None else ('self',):
                for m in ('difference', 'intersection', 'union', 'symmetric_difference',
                          'issubset', 'issuperset', 'difference_update', 'intersection_update',
                          'update', 'symmetric_difference_update', 'isdisjoint'):
                    add(m, lambda x, a, m=m: getattr(x, m)(a), Arg(k, d))
            for k in ('persistent',) if d is not None else ('self',):
                add('cmp', lambda x, a: (x < a, x <= a, x == a, x != a, x > a, x >= a), Arg(k, d))
        add('union2', lambda x, a, b: x.union(a, b), Arg('persistent', [5]), Arg('builtin', [6]))
        add('update2', lambda x, a, b: x.update(a, b), Arg('persistent', [1]), Arg('iter', [2]))
        add('inter2', lambda x, a, b: x.intersection(a, b), Arg('persistent', [1, 2]),
            Arg('builtin', [1]))
        add('interup2', lambda x, a, b: x.intersection_update(a, b), Arg('persistent', [1, 2]),
            Arg('builtin', [1]))
        add('union0', lambda x: x.union())
        add('diff0', lambda x: x.difference())
        add('diff2', lambda x, a, b: x.difference(a, b), Arg('persistent', [1]), Arg('iter', [2]))
        add('diffup2', lambda x, a, b: x.difference_update(a, b), Arg('persistent', [1]), Arg('self', None))
        add('diffup0', lambda x: x.difference_update())
        add('inter0', lambda x: x.intersection())
        add('eq other', lambda x: (x == 5, x != 5, x == None)) # noqa
        add('& bad', lambda x: x & 5)
        for op in '&|-^':
            add('r%s bad' % op, lambda x, op=op: eval('[1] %s x' % op, {'x': x}))
            add('%s none' % op, lambda x, op=op: eval('x %s None' % op, {'x': x}))
        for m in ('update', 'union', 'intersection', 'difference'):
            add(m + ' 2 bad', lambda x, m=m: getattr(x, m)([1], 5))
        add('symmetric_difference_update bad', lambda x: x.symmetric_difference_update(5))
        add('symmetric_difference_update bad2', lambda x: x.symmetric_difference_update([1, [], 2]))
        add('update bad2', lambda x: x.update([7, [], 2]))
        add('|= bad', lambda x: iop('|')(x, [1]))
        add('update bad', lambda x: x.update(5))
        add('cmp bad', lambda x: x < 5)
    return o


def attempt(f, x, args):
    try:
        return ('ok', f(x, *args))
    except Exception as e:
        return ('exc', type(e).__name__)


def scribble(x):
    """change a container a function returned"""
    if hasattr(x, 'append'):
        x.append('scribble')
    elif hasattr(x, 'add'):
        x.add('scribble')
    elif hasattr(x, 'update'):
        x.update({'scribble': 1})


def content(x):
    return plain(x)


def one(ctx, kind, impl, state, op):
    """run one operation on both; returns the builtin after it (or None)"""
    B, P = impl
    name, f, args = op
    b, p = B(state), P(state)
    bi, pi = (B, P, B), (B, P, P)
    bargs = [a.make(bi, b) if isinstance(a, Arg) else a for a in args]
    pargs = [a.make(pi, p) if isinstance(a, Arg) else a for a in args]
    ctx.trail = dict(kind=kind, state=state, op=name, args=[repr(a) for a in args])
    rb = attempt(f, b, bargs)
    rp = attempt(f, p, pargs)
    what = '%s.%s%r on %r' % (P.__name__, name, args, state)
    key = 'op:%s.%s%r:%r' % (kind, name, args, state)
    if rb[0] != rp[0] or (rb[0] == 'exc' and rb[1] != rp[1]):
        ctx.violation('%s: %s, builtin: %s' % (what, rp, rb), key=key)
    elif rb[0] == 'ok' and plain(rb[1]) != plain(rp[1]):
        ctx.violation('%s: %r, builtin: %r' % (what, plain(rp[1]), plain(rb[1])), key=key)
    if content(b) != content(p):
        ctx.violation('%s leaves %r, builtin leaves %r' % (what, content(p), content(b)), key=key)
    # operands are unchanged and share no state with the result
    for a, ba, pa in zip(args, bargs, pargs):
        if isinstance(a, Arg) and a.kind in ('builtin', 'persistent'):
            if content(pa) != content(impl[0](a.data)):
                ctx.violation('%s changed its operand to %r' % (what, content(pa)), key=key)
    res = rp[1] if rp[0] == 'ok' else None
    if isinstance(res, (B, P)) and res is not p:
        before = content(p)
        opers = [(pa, content(pa)) for a, pa in zip(args, pargs)
                 if isinstance(a, Arg) and a.kind in ('builtin', 'persistent')]
        scribble(res)
        if content(p) != before:
            ctx.violation('%s: the result shares state with the container' % what, key=key)
        for pa, was in opers:
            if content(pa) != was:
                ctx.violation('%s: the result shares state with an operand' % what, key=key)
        r2 = content(res)
        scribble(p)
        if content(res) != r2:
            ctx.violation('%s: the container shares state with the result' % what, key=key)
    elif rp[0] == 'ok':
        before = content(p)
        for pa in pargs:
            if isinstance(pa, (B, P)) and pa is not p:
                scribble(pa)
        if content(p) != before:
            ctx.violation('%s: the container shares state with an operand' % what, key=key)
    return b


def key_of(kind, b):
    if kind == 'dict':
        return tuple(b.items())
    if kind == 'list':
        return tuple(b)
    return tuple(sorted(b))


def run(unit, ctx):
    kind = unit['kind']
    if kind == 'construct':
        return construct(ctx)
    if kind == 'pairs':
        return sequences(unit, ctx)
    impl = classes()[kind]
    ops = ops_for(kind)
    seen = {()}
    frontier = collections.deque([()])
    no = 0
    while frontier:
        st = frontier.popleft()
        no += 1
        mine = no % unit['parts'] == unit['part']
        if mine:
            ctx.count('states')
        for op in ops:
            if mine:
                b = one(ctx, kind, impl, list(st), op)
                ctx.count('transitions')
                ctx.count('traces_validated_against_impl')
                ctx.outcome(op[0])
            else:
                b = impl[0](st)
                i = (impl[0], impl[1], impl[0])
                attempt(op[1], b, [a.make(i, b) if isinstance(a, Arg) else a for a in op[2]])
            k = key_of(kind, b)
            if len(k) <= unit['n'] and k not in seen:
                try:
                    hash(k)
                except TypeError:
                    continue
                seen.add(k)
                frontier.append(k)
        if no == 3:
            ctx.sample(dict(kind=kind, state=list(st), operations=len(ops)))


def sequences(unit, ctx):
    """All sequences of mutating operations on one long-lived container of each kind."""
    kind = unit['cls']
    B, P = classes()[kind]
    ops = []
    for name, f, args in ops_for(kind):
        if name.split()[0].rstrip('2') in (
                'set', 'del', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'setitem',
                'delitem', 'insert', 'delslice', 'setslice', '+=', 'extend', '*=', 'append',
                'remove', 'reverse', 'sort', 'add', 'discard', '&=', '|=', '-=', '^=',
                'difference_update', 'intersection_update', 'symmetric_difference_update'):
            if kind != 'list' or name not in ('setslice', 'delslice') or len(ops) % 3 == 0:
                ops.append((name, f, args))
    start = dict(dict=[('a', 1), ('b', 2)], list=[0, 1, 2], set=[0, 1, 2])[kind]
    for seq in itertools.product(ops, repeat=unit['depth']):
        b, p = B(start), P(start)
        done = []
        for name, f, args in seq:
            done.append((name, [repr(a) for a in args]))
            bargs = [a.make((B, P, B), b) if isinstance(a, Arg) else a for a in args]
            pargs = [a.make((B, P, P), p) if isinstance(a, Arg) else a for a in args]
            rb, rp = attempt(f, b, bargs), attempt(f, p, pargs)
            ctx.count('transitions')
            if rb[0] != rp[0] or plain(rb[1]) != plain(rp[1]) or content(b) != content(p):
                ctx.violation('%s after %r: %r %r, builtin %r %r' % (
                    P.__name__, done, rp, content(p), rb, content(b)),
                    key='seq:%s:%r' % (kind, done))
                break
        ctx.count('traces_validated_against_impl')


def construct(ctx):
    impl = classes()
    for args, kw in (((), {}), (([],), {}), (([('a', 1)],), {}), (({'a': 1},), {'b': 2}),
                     ((), {'x': 1}), ((5,), {}), (({}, {}), {}), (([1],), {})):
        rb, rp = attempt(lambda x: dict(*args, **kw), 0, ()), attempt(
            lambda x: impl['dict'][1](*args, **kw), 0, ())
        ctx.eq((rp[0], plain(rp[1])), (rb[0], plain(rb[1])), 'PersistentDict(%r, %r)' % (args, kw))
    for args in ((), ([],), ('ab',), ((1, 2),), (5,), ([], [])):
        for k in ('list', 'set'):
            rb = attempt(lambda x: impl[k][0](*args), 0, ())
            rp = attempt(lambda x: impl[k][1](*args), 0, ())
            ctx.eq((rp[0], plain(rp[1])), (rb[0], plain(rb[1])), 'Persistent%s(%r)' % (k, args))
    # the argument of a constructor is copied
    for k, d in (('dict', {'a': 1}), ('list', [1]), ('set', {1})):
        p = impl[k][1](d)
        scribble(d)
        ctx.check('scribble' not in p, 'constructor of %s shares state with its argument', k)
        q = impl[k][1](p)
        scribble(p)
        ctx.check('scribble' not in q, 'constructor of %s shares state with its argument', k)
    # unequal to equal content of other kinds, and independent equality of copies
    ctx.count('transitions', 20)
