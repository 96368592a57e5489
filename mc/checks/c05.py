"""C05: all histories of a single connection over a small object universe."""
import random

from mc import biglib, storages

ID = 'C05'
LEVEL = 'model_checking'
RULE = ('every sequence up to a depth of: create, link i->j (self links, sharing and cycles '
        'included), unlink, modify, read, drop the application reference, commit, abort, (reopen '
        'the file) over a root and up to 3 objects; after every sequence the live graph and the '
        'graph in a fresh connection are compared with a reference model that tracks committed and '
        'current state. Also transactions that store, change, abort and cut graphs of 20 to 2500 objects of four shapes. A state is one executed history, a transition one operation.')
ASSUMPTIONS = ['histories bounded by depth and number of objects']


# histories that the histories above are too short to extend by enough
CHAINS = [('N', 'N', 'N', 'L12', 'L23', 'L01'),
          ('N', 'N', 'N', 'L32', 'L21', 'L13', 'L02'),
          ('N', 'N', 'N', 'L01', 'C', 'L12', 'L23'),
          ('N', 'N', 'N', 'L01', 'L12', 'C', 'L23', 'L31', 'W2')]


def units(tier):
    q = tier == 'quick'
    out = []

    def add(storage, depth, nobj, cache, mode='c', split=2, pad=0, base=()):
        for first in prefixes(split, nobj, storage in storages.DISK, tuple(base)):
            out.append(dict(storage=storage, depth=depth + len(base), nobj=nobj, cache=cache,
                            mode=mode, pad=pad, first=first, cost=depth))
    add('mem', 6 if q else 7, 1, 100)
    add('mem', 6 if q else 7, 1, 1)
    add('mem', 5 if q else 6, 2, 100)
    add('mem', 5 if q else 6, 2, 1)
    add('mem', 4 if q else 5, 2, 100, 'py')
    for s in storages.DISK:
        add(s, 4 if q else 5, 2, 2)
    # transactions of more than 20000 bytes, for which the writer replaces its pickler
    for pad in (11000, 21000):
        for base in CHAINS:
            add('mem', 2 if q else 3, 3, 100, pad=pad, base=base, split=1)
    add('file', 2, 3, 2, pad=11000, base=CHAINS[0], split=1)
    for base in CHAINS:
        add('mem', 3, 3, 2, base=base, split=1)
    return out + biglib.graph_units(q, 'transactions')


def enabled(n_created, dropped, nobj, reopen):
    ops = []
    if n_created < nobj:
        ops.append('N')
    live = [0] + [i for i in range(1, n_created + 1) if i not in dropped]
    for i in live:
        ops.append('W%d' % i)
        ops.append('U%d' % i)
        for j in live:
            if j:
                ops.append('L%d%d' % (i, j))
        if i:
            ops.append('L%d0' % i)
            ops.append('D%d' % i)
        ops.append('R%d' % i)
    ops += ['C', 'A']
    if reopen:
        ops.append('O')
    return ops


def after(op, n_created, dropped, reopen_state=None):
    if op == 'N':
        return n_created + 1, dropped
    if op[0] == 'D':
        return n_created, dropped | {int(op[1])}
    if op == 'O':
        return n_created, frozenset(range(1, n_created + 1))
    return n_created, dropped


def prefixes(n, nobj, reopen, base=()):
    state = {base: replay_state(base)}
    level = [base]
    for _ in range(n):
        nxt = []
        for p in level:
            for op in enabled(*state[p], nobj, reopen):
                q = p + (op,)
                state[q] = after(op, *state[p])
                nxt.append(q)
        level = nxt
    return [list(p) for p in level]


def PADS(size, made={}):
    """bytes that do not compress"""
    if size not in made:
        made[size] = random.Random(size).randbytes(size)
    return made[size]


class M(object):
    __slots__ = ('v', 'child', 'stored', 'cv', 'cchild', 'changed')

    def __init__(self):
        self.v = 0
        self.child = None
        self.stored = self.changed = False
        self.cv = self.cchild = None


class Model(object):
    def __init__(self):
        root = M()
        self.h = {0: root}
        self.all = [root]
        root.stored = True
        root.cv = 0

    def commit(self):
        todo = [m for m in self.all if m.stored and m.changed]
        seen = set()
        while todo:
            m = todo.pop()
            if id(m) in seen:
                continue
            seen.add(id(m))
            m.stored = True
            m.cv, m.cchild, m.changed = m.v, m.child, False
            if m.child is not None and not m.child.stored:
                todo.append(m.child)

    def abort(self):
        for m in self.all:
            if m.stored and m.changed:
                m.v, m.child, m.changed = m.cv, m.cchild, False

    def reopen(self):
        self.abort()
        self.h = {0: self.h[0]}


def run(unit, ctx):
    if 'big' in unit:
        return biglib.run_graph(unit, ctx)
    rec(unit, ctx, list(unit['first']))


def replay_state(seq):
    st = (0, frozenset())
    for op in seq:
        st = after(op, *st)
    return st


def rec(unit, ctx, seq):
    execute(unit, ctx, seq)
    if len(seq) < unit['depth']:
        st = replay_state(seq)
        for op in enabled(*st, unit['nobj'], unit['storage'] in storages.DISK):
            if redundant(seq, op):
                continue
            rec(unit, ctx, seq + [op])


def redundant(seq, op):
    """Skip only immediate repetitions of an idempotent operation and reads that
    directly follow an access of the same object (they cannot change anything the
    shorter history does not already cover)."""
    if not seq:
        return op[0] == 'R'
    last = seq[-1]
    if op[0] == 'R':
        return last[0] in 'WULR' and last[1] == op[1]
    return op == last and op[0] in 'CAULO'


def execute(unit, ctx, seq):
    from durus.connection import Connection
    from mc.pclasses import P
    ctx.trail = dict(unit=dict(unit, first=None), history=' '.join(seq))
    kind = unit['storage']
    d = ctx.newdir() if kind in storages.DISK else None
    storage = storages.open_storage(kind, d)
    try:
        conn = Connection(storage, cache_size=unit['cache'], root_class=P)
        root = conn.get_root()
        root.v = 0
        root.child = None
        root.pad = pad = PADS(unit.get('pad', 0))
        conn.commit()
        model = Model()
        h = {0: root}
        n = 0
        for op in seq:
            c = op[0]
            if c == 'N':
                n += 1
                o = P()
                o.v = 0
                o.child = None
                o.pad = pad
                h[n] = o
                del o
                m = M()
                model.h[n] = m
                model.all.append(m)
            elif c == 'W':
                i = int(op[1])
                h[i].v += 1
                model.h[i].v += 1
                model.h[i].changed = True
            elif c == 'U':
                i = int(op[1])
                h[i].child = None
                model.h[i].child = None
                model.h[i].changed = True
            elif c == 'L':
                i, j = int(op[1]), int(op[2])
                h[i].child = h[j]
                model.h[i].child = model.h[j]
                model.h[i].changed = True
            elif c == 'R':
                i = int(op[1])
                if h[i].v != model.h[i].v:
                    ctx.violation('%s: object %d has v=%r, expected %r' % (
                        ' '.join(seq), i, h[i].v, model.h[i].v))
            elif c == 'D':
                i = int(op[1])
                del h[i], model.h[i]
            elif c == 'C':
                conn.commit()
                model.commit()
            elif c == 'A':
                conn.abort()
                model.abort()
            elif c == 'O':
                storage.close()
                del root
                h.clear()
                storage = storages.open_storage(kind, d)
                conn = Connection(storage, cache_size=unit['cache'], root_class=P)
                root = conn.get_root()
                h[0] = root
                model.reopen()
        ctx.count('transitions', len(seq))
        ctx.count('states')
        ctx.count('traces_validated_against_impl')
        held = {id(model.h[i]): h[i] for i in h}
        compare(ctx, seq, root, model.h[0], False, held, pad)
        for i in h:
            if h[i].v != model.h[i].v:
                ctx.violation('%s: object %d has v=%r, expected %r' % (
                    ' '.join(seq), i, h[i].v, model.h[i].v))
        if kind in storages.DISK:
            storage.close()
            storage = storages.open_storage(kind, d)
        c2 = Connection(storage, root_class=P)
        nobj = compare(ctx, seq, c2.get_root(), model.h[0], True, {}, pad)
        ctx.outcome('reachable=%d ops=%s' % (nobj, ''.join(o[0] for o in seq if o[0] in 'CAO')))
        if len(seq) == unit['depth']:
            ctx.sample(' '.join(seq), 1)
        conn.abort()
        if kind not in storages.DISK:
            model.abort()
            compare(ctx, seq + ['A'], root, model.h[0], False, held, pad)
    finally:
        if d:
            storage.close()
            ctx.rmdir(d)


def compare(ctx, seq, obj, m, committed, held, pad):
    """isomorphism of the real graph and the model graph"""
    pairs = {}
    back = {}
    todo = [(obj, m, 'root')]
    while todo:
        o, m, path = todo.pop()
        if (o is None) != (m is None):
            ctx.violation('%s: %s is %r, expected %s (%s)' % (
                ' '.join(seq), path, o, m and 'an object', 'stored' if committed else 'live'))
            return
        if m is None:
            continue
        if id(m) in pairs:
            if pairs[id(m)] is not o:
                ctx.violation('%s: %s: sharing lost' % (' '.join(seq), path))
            continue
        if id(o) in back:
            ctx.violation('%s: %s: two objects became one' % (' '.join(seq), path))
        pairs[id(m)] = o
        back[id(o)] = m
        if id(m) in held and held[id(m)] is not o:
            ctx.violation('%s: %s is a second instance of a held object' % (' '.join(seq), path))
        v, child = (m.cv, m.cchild) if committed else (m.v, m.child)
        if o.v != v:
            ctx.violation('%s: %s.v is %r, expected %r (%s)' % (
                ' '.join(seq), path, o.v, v, 'stored' if committed else 'live'))
        if o.pad != pad:
            ctx.violation('%s: %s.pad is not what it was set to (%s)' % (
                ' '.join(seq), path, 'stored' if committed else 'live'))
        todo.append((o.child, child, path + '.child'))
    return len(pairs)
