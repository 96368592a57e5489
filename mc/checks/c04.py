"""C04: every mutator of every persistent class against commit and abort."""
import copy

from mc.checks import c03

ID = 'C04'
LEVEL = 'model_checking'
RULE = ('for every persistent class, every operation of its alphabet (mutators with all operand '
        'kinds, failing calls, reads) from every starting content and every object status (ghost, '
        'loaded now, loaded in an earlier transaction, already changed, new), then commit or abort, '
        'singly and in pairs around a transaction boundary; the stored and the live content are '
        'compared with a builtin. States are (class, content, status), transitions operations.')
ASSUMPTIONS = ['in-place change of plain (non-persistent) values is outside: it needs an explicit '
               'note by the caller, as documented']

STATUSES = ('ghost', 'loaded', 'earlier', 'changed', 'crawled')


def units(tier):
    q = tier == 'quick'
    out = []
    for mode in ('c', 'py'):
        for kind in ('dict', 'list', 'set', 'attrs', 'slots', 'mixed', 'subslots', 'private', 'btree'):
            for st in STATUSES:
                out.append(dict(kind='single', cls=kind, status=st, mode=mode,
                                cost=9 if kind == 'list' else 1))
            parts = 8 if kind in ('list', 'set') else 2
            for part in range(parts):
                if mode == 'c' or not q:
                    out.append(dict(kind='pairs', cls=kind, part=part, parts=parts,
                                    full=not q, cost=5, mode=mode))
    return out


# ---------------------------------------------------------------- attribute classes

class NS(object):
    """plain object with attributes"""


class NSlots(object):
    __slots__ = ['a', 'b', 'c']


class NSub(object):
    __slots__ = ['a', 'd']


class NPriv(object):
    __slots__ = ['a', '_SPriv__b', '_SPriv2__b']


ATTRS = {'attrs': ['a', 'b', 'zz'], 'slots': ['a', 'b'], 'mixed': ['a', 'zz'], 'subslots': ['a', 'd'],
         'private': ['a', '_SPriv__b', '_SPriv2__b']}


def attr_ops(kind):
    names = ATTRS[kind]
    o = []
    for n in names:
        o.append(('setattr', lambda x, n: setattr(x, n, 'new'), (n,)))
        o.append(('setattr same', lambda x, n: setattr(x, n, 1), (n,)))
        o.append(('setattr equal', lambda x, n: setattr(x, n, True), (n,)))
        o.append(('setattr None', lambda x, n: setattr(x, n, None), (n,)))
        o.append(('delattr', lambda x, n: delattr(x, n), (n,)))
        o.append(('getattr', lambda x, n: getattr(x, n), (n,)))
        o.append(('hasattr', lambda x, n: hasattr(x, n), (n,)))
        o.append(('aug', lambda x, n: setattr(x, n, (getattr(x, n), 1)), (n,)))
    o.append(('two', lambda x: (setattr(x, 'a', 5), setattr(x, names[-1], 6))[:0], ()))
    o.append(('set del', lambda x: (setattr(x, 'a', 5), delattr(x, 'a'))[:0], ()))
    o.append(('noop', lambda x: None, ()))
    return o


READS = ('getitem', 'get', 'get2', 'in', 'has_key', 'len', 'bool', 'list', 'keys', 'values', 'items',
         'iterkeys', 'itervalues', 'iteritems', 'copy', 'eq', 'eq other', 'ne same', 'constructor',
         'getslice', '+', 'r+', 'cmp', 'rcmp', '*', 'r*', 'count', 'index', 'index2', 'index3', 'iter',
         'reversed', '&', '|', '-', '^', 'r&', 'r|', 'r-', 'r^', 'difference', 'intersection', 'union',
         'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint', 'union2', 'inter2', 'union0',
         'inter0', 'diff0', 'diff2', 'cmp bad', '& bad', 'getattr', 'hasattr', 'noop', 'fromkeys', 'fromkeys2',
         'getitem unhashable', 'get unhashable', 'in unhashable', 'min', 'range', 'backward')


def btree_ops():
    o = []

    def add(name, f, *args):
        o.append((name, f, args))
    for k in (0, 1, 5):
        add('set', lambda x, k: x.__setitem__(k, 'n'), k)
        add('set', lambda x, k: x.__setitem__(k, True), k)
        add('del', lambda x, k: x.__delitem__(k), k)
        add('pop2', lambda x, k: x.pop(k, 7), k)
        add('setdefault2', lambda x, k: x.setdefault(k, 's'), k)
        add('getitem', lambda x, k: x[k], k)
        add('get', lambda x, k: x.get(k), k)
        add('in', lambda x, k: k in x, k)
    add('clear', lambda x: x.clear())
    add('update', lambda x: x.update({1: 1.0, 9: 'u'}))
    add('update', lambda x: x.update([(1, 'u'), (9, 'u')]))
    add('update kw', lambda x: x.update(z=1) if not x else None)
    add('len', len)
    add('bool', bool)
    add('list', lambda x: sorted(x))
    add('items', lambda x: sorted(x.items()))
    return o


def table(kind):
    """(builtin class, persistent class, starts, ops, build(cls, start), content)"""
    from mc import pclasses
    from durus.btree import BTree, BNode
    if kind in ('dict', 'list', 'set'):
        B, P = c03.classes()[kind]
        starts = dict(dict=[[], [('a', 1)], [('b', 1), (1, 2)]], list=[[], [2], [1, 0], [1, 0, 2]],
                      set=[[], [0], [1, 2]])[kind]
        if kind == 'dict':
            build = lambda cls, st: cls(st)
        else:
            build = lambda cls, st: cls(st)
        return B, P, starts, c03.ops_for(kind), build, c03.content
    if kind == 'btree':
        def build(cls, st):
            x = cls(BNode) if cls is BTree else cls()
            for k, v in st:
                x[k] = v
            return x
        return (dict, BTree, [[], [(1, 1)], [(i, 1) for i in range(0, 12, 2)]],
                btree_ops(), build, lambda x: [(k, c03.plain(v)) for k, v in sorted(x.items())])
    names = ATTRS[kind] + ['c'] * (kind == 'slots')
    B = {'attrs': NS, 'slots': NSlots, 'mixed': NS, 'subslots': NSub, 'private': NPriv}[kind]
    P = {'attrs': pclasses.P, 'slots': pclasses.S, 'mixed': pclasses.SD, 'subslots': pclasses.SQ,
         'private': pclasses._SPriv2}[kind]

    def build(cls, st):
        x = cls()
        for k, v in st:
            setattr(x, k, v)
        return x

    def content(x):
        return [(n, c03.plain(getattr(x, n))) for n in names if hasattr(x, n)]
    starts = [[], [('a', 1)], [('a', 1), (names[-1], 2)]]
    return B, P, starts, attr_ops(kind), build, content


def rec_storage():
    from durus.storage import MemoryStorage

    class RecStorage(MemoryStorage):
        def __init__(self):
            MemoryStorage.__init__(self)
            self.stored = []

        def store(self, oid, record):
            self.stored.append(oid)
            MemoryStorage.store(self, oid, record)
    return RecStorage()


class Rig(object):
    def __init__(self, kind):
        self.kind = kind
        self.B, self.P, self.starts, self.ops, self.build, self.content = table(kind)
        self.base = {}

    def storage(self, st):
        key = repr(st)
        if key not in self.base:
            from durus.connection import Connection
            s = rec_storage()
            c = Connection(s)
            c.get_root()['x'] = self.build(self.P, st)
            c.get_root()['y'] = self.build(self.P, st)
            c.commit()
            self.base[key] = s
        return copy.deepcopy(self.base[key])

    def open(self, storage, status, st):
        from durus.connection import Connection
        c = Connection(storage)
        x = c.get_root()['x']
        if status == 'loaded':
            self.content(x)
        elif status == 'earlier':
            self.content(x)
            c.abort()
        elif status == 'crawled':
            for o in c.get_crawler():
                pass
        elif status == 'changed':
            x._p_note_change()
        return c, x

    def args(self, op, cls, x):
        pair = (self.B, self.P, cls)
        return [a.make(pair, x) if isinstance(a, c03.Arg) else a for a in op[2]]

    def fresh(self, storage):
        from durus.connection import Connection
        root = Connection(storage).get_root()
        y = root['y']
        return self.content(root['x']), self.content(y)


def result(rig, r):
    if r[0] == 'exc':
        return r
    v = r[1]
    if rig.kind in ATTRS or rig.kind == 'btree':
        return ('ok', v if v is None or isinstance(v, (str, int, tuple, list, bool)) else '?')
    return ('ok', c03.plain(v))


def run(unit, ctx):
    rig = Rig(unit['cls'])
    if unit['kind'] == 'single':
        for st in rig.starts:
            ctx.count('states')
            for op in rig.ops:
                single(ctx, rig, st, op, unit['status'])
    else:
        pairs(unit, ctx, rig)


def ids(op):
    return (op[0], [repr(a) for a in op[2]])


def single(ctx, rig, st, op, status):
    ctx.trail = dict(cls=rig.kind, start=st, op=ids(op), status=status)
    what = '%s %s on %r (%s)' % (rig.P.__name__, ids(op), st, status)
    key = 'single:%s:%s:%r' % (rig.kind, ids(op), st)
    b = rig.build(rig.B, st)
    orig = rig.content(b)
    rb = c03.attempt(op[1], b, rig.args(op, rig.B, b))
    want = rig.content(b)
    ctx.count('transitions', 2)
    ctx.count('traces_validated_against_impl', 2)
    ctx.outcome('%s %s' % (op[0], want == orig))
    # abort
    s = rig.storage(st)
    c, x = rig.open(s, status, st)
    s.stored[:] = []
    rp = c03.attempt(op[1], x, rig.args(op, rig.P, x))
    if result(rig, rb) != result(rig, rp):
        ctx.violation('%s: %s, builtin %s' % (what, rp, rb), key=key)
    if rig.content(x) != want:
        ctx.violation('%s: content %r, expected %r' % (what, rig.content(x), want), key=key)
    c.abort()
    if rig.content(x) != orig:
        ctx.violation('%s: after abort %r, expected %r' % (what, rig.content(x), orig), key=key)
    c.get_root()['z'] = 1
    c.commit()
    if rig.fresh(s) != (orig, orig):
        ctx.violation('%s: stored after abort %r, expected %r' % (what, rig.fresh(s), orig), key=key)
    # commit, in the same connection (the object was aborted before) and in a new one
    for again in (True, False):
        if not again:
            s = rig.storage(st)
            c, x = rig.open(s, status, st)
        s.stored[:] = []
        c03.attempt(op[1], x, rig.args(op, rig.P, x))
        c.commit()
        if rig.fresh(s) != (want, orig):
            ctx.violation('%s: stored after commit %r, expected %r' % (what, rig.fresh(s), want),
                          key=key)
        if rig.content(x) != want:
            ctx.violation('%s: live after commit %r, expected %r' % (
                what, rig.content(x), want), key=key)
        if op[0] in READS and (status != 'changed' or again) and s.stored:
            ctx.violation('%s: a read made commit store %d records' % (what, len(s.stored)), key=key)
    # an abort after the commit changes nothing
    c.abort()
    if rig.content(x) != want:
        ctx.violation('%s: live after commit and abort %r, expected %r' % (
            what, rig.content(x), want), key=key)
    # a new object gets the operation before its first commit
    from durus.connection import Connection
    s2 = rec_storage()
    c2 = Connection(s2)
    n = rig.build(rig.P, st)
    c2.get_root()['x'] = n
    c03.attempt(op[1], n, rig.args(op, rig.P, n))
    c2.get_root()['y'] = rig.build(rig.P, st)
    c2.commit()
    if rig.fresh(s2) != (want, orig):
        ctx.violation('%s: stored new object %r, expected %r' % (what, rig.fresh(s2), want), key=key)


def pairs(unit, ctx, rig):
    muts = [op for op in rig.ops if op[0] not in READS]
    if rig.kind in ('list', 'set') and not unit['full']:
        # one representative per (method, operand kind) in the quick tier
        seen, some = set(), []
        for op in muts:
            k = (op[0], tuple(a.kind if isinstance(a, c03.Arg) else type(a).__name__
                              for a in op[2]))
            if k not in seen:
                seen.add(k)
                some.append(op)
        muts = some
    st = rig.starts[-1]
    n = 0
    for op1 in muts:
        for op2 in muts:
            n += 1
            if n % unit['parts'] != unit['part']:
                continue
            ctx.trail = dict(cls=rig.kind, start=st, ops=[ids(op1), ids(op2)])
            b1 = rig.build(rig.B, st)
            orig = rig.content(b1)
            c03.attempt(op1[1], b1, rig.args(op1, rig.B, b1))
            w1 = rig.content(b1)
            c03.attempt(op2[1], b1, rig.args(op2, rig.B, b1))
            w12 = rig.content(b1)
            b2 = rig.build(rig.B, st)
            c03.attempt(op2[1], b2, rig.args(op2, rig.B, b2))
            w2 = rig.content(b2)
            for plan, want in (('1c2a', w1), ('1a2c', w2), ('12c', w12), ('1c2c', w12),
                               ('12a', orig)):
                s = rig.storage(st)
                c, x = rig.open(s, 'ghost', st)
                for step in plan:
                    if step == '1':
                        c03.attempt(op1[1], x, rig.args(op1, rig.P, x))
                    elif step == '2':
                        c03.attempt(op2[1], x, rig.args(op2, rig.P, x))
                    elif step == 'c':
                        c.commit()
                    else:
                        c.abort()
                ctx.count('transitions')
                ctx.count('traces_validated_against_impl')
                if rig.content(x) != want or rig.fresh(s) != (want, orig):
                    ctx.violation('%s %s %s plan %s: live %r stored %r expected %r' % (
                        rig.P.__name__, ids(op1), ids(op2), plan, rig.content(x),
                        rig.fresh(s), want), key='pair:%s:%s:%s' % (rig.kind, ids(op1), ids(op2)))
