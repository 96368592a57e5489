"""C01: BTree = sorted mapping, explicit-state search over all reachable shapes."""
from mc import btlib

ID = 'C01'
LEVEL = 'model_checking'
RULE = ('breadth-first search over canonical BTree structures (all node attributes, keys replaced '
        'by ranks) up to a number of items; every insertion point, overwrite, deletion of a present '
        'and of an absent key is a transition executed by the real BTree; every state is '
        'queried in all ways and compared with a sorted list; deletions in larger trees of many levels. A state is a distinct structure.')
ASSUMPTIONS = ['BTree code looks at keys only through comparisons (canonicalisation by rank)',
               'keys are totally ordered', 'number of items bounded as listed in the units']


def units(tier):
    q = tier == 'quick'
    out = []
    for t, n in ([(2, 16), (3, 22), (4, 27)] if q else [(2, 19), (3, 27), (4, 34), (8, 40)]):
        out.append(dict(kind='bfs', t=t, n=n, cost=n * 10 // t))
    out.append(dict(kind='bfs', t=2, n=8 if q else 11, mode='py'))
    for t, n in [(2, 9 if q else 11), (3, 12 if q else 14)]:
        for part in range(4):
            out.append(dict(kind='queries', t=t, n=n, part=part, parts=4, cost=5))
    for t in (2, 3, 4, 8, 16):
        out.append(dict(kind='runs', t=t, n=6 * t * t if q else 14 * t * t))
    for n in (range(24, 61, 6) if q else range(20, 90, 3)):
        out.append(dict(kind='deep', t=2, n=n, cost=n // 4))
    for n in ((60,) if q else (60, 80, 100, 120)):
        out.append(dict(kind='deep', t=3, n=n, cost=n // 4))
    out.append(dict(kind='sequences', depth=4 if q else 5))
    return out


def run(unit, ctx):
    globals()['run_' + unit['kind']](unit, ctx)


def _trail(ctx, hist, op):
    ctx.trail = dict(history=[list(h) for h in hist], then=list(op))


def run_bfs(unit, ctx):
    t = unit['t']

    def on_transition(hist, model, op, tree, model2, err, want):
        _trail(ctx, hist, op)
        ctx.eq(err, want, 'result of %r' % (op,))
        e = btlib.content_error(tree, model2) or btlib.structure_error(tree, t)
        if e:
            ctx.violation('after %r: %s' % (op, e))
        ctx.outcome('%s %s' % (op[0], err))

    def on_state(blob, model, hist):
        ctx.trail = dict(history=[list(h) for h in hist])
        tree = btlib.clone(blob)
        point_queries(ctx, tree, model)
        if len(model) in (5, 9):
            ctx.sample(dict(history=[list(h) for h in hist], items=len(model)), 1)
    s, tr = btlib.explore(t, unit['n'], on_state, on_transition)
    ctx.count('states', s)
    ctx.count('transitions', tr)
    ctx.count('traces_validated_against_impl', tr)


def point_queries(ctx, tree, model):
    d = dict(model)
    keys = [k for k, v in model]
    ctx.eq(list(tree), keys, 'iter')
    ctx.eq(tree.keys(), keys, 'keys')
    ctx.eq(tree.values(), [v for k, v in model], 'values')
    ctx.eq(list(tree.iterkeys()), keys, 'iterkeys')
    ctx.eq(list(tree.itervalues()), [v for k, v in model], 'itervalues')
    ctx.eq(list(reversed(tree)), keys[::-1], 'reversed')
    ctx.eq(list(tree.items_backward()), model[::-1], 'items_backward')
    if model:
        ctx.eq(tree.get_min_item(), model[0], 'min')
        ctx.eq(tree.get_max_item(), model[-1], 'max')
    n = len(model)
    for i, (kind, q) in enumerate(btlib.gaps_and_keys(keys)):
        present = q in d
        ctx.eq(q in tree, present, 'in %r' % q)
        ctx.eq(tree.has_key(q), present, 'has_key %r' % q)
        ctx.eq(tree.get(q, 'zz'), d.get(q, 'zz'), 'get %r' % q)
        try:
            got = tree[q]
        except KeyError:
            got = KeyError
        ctx.eq(got, d[q] if present else KeyError, '[%r]' % q)
        # item index of the first key >= q is i // 2
        lo = i // 2
        hi = lo + (1 if present else 0)
        ctx.eq(list(tree.items_from(q)), model[lo:], 'items_from %r' % q)
        ctx.eq(list(tree.items_from(q, closed=False)), model[hi:], 'items_from open %r' % q)
        ctx.eq(list(tree.items_backward_from(q)), model[:lo][::-1], 'items_backward_from %r' % q)
        ctx.eq(list(tree.items_backward_from(q, closed=True)), model[:hi][::-1],
               'items_backward_from closed %r' % q)
    ctx.count('queries', 10 + 10 * n)


def run_queries(unit, ctx):
    """All range queries and the compound operations in every state."""
    from durus.btree import BTree, BNode4
    t = unit['t']
    no = [0]

    def on_state(blob, model, hist):
        no[0] += 1
        if no[0] % unit['parts'] != unit['part']:
            return
        ctx.trail = dict(history=[list(h) for h in hist])
        tree = btlib.clone(blob)
        keys = [k for k, v in model]
        pos = [q for kind, q in btlib.gaps_and_keys(keys)]
        for a in pos:
            for b in pos:
                for cs in (False, True):
                    for ce in (False, True):
                        if a <= b:
                            want = [(k, v) for k, v in model
                                    if (a < k or (cs and a == k)) and (k < b or (ce and k == b))]
                        else:
                            want = [(k, v) for k, v in model[::-1]
                                    if (k < a or (cs and a == k)) and (b < k or (ce and k == b))]
                        got = list(tree.items_range(a, b, closed_start=cs, closed_end=ce))
                        if got != want:
                            ctx.violation('items_range(%r, %r, %r, %r) = %r, expected %r'
                                          % (a, b, cs, ce, got, want))
                        ctx.count('queries')
        # default ends: closed start, open end
        for a in pos:
            for b in pos:
                ctx.eq(list(tree.items_range(a, b)),
                       list(tree.items_range(a, b, True, False)), 'items_range defaults')
        if model:
            compound(ctx, blob, model, t)
        else:
            for name in ('get_min_item', 'get_max_item'):
                try:
                    getattr(tree, name)()
                except (AssertionError, IndexError, ValueError, KeyError):
                    pass
                else:
                    ctx.violation('%s of an empty tree returns' % name)

    def compound(ctx, blob, model, t):
        d = dict(model)
        keys = [k for k, v in model]
        for kind, q in btlib.gaps_and_keys(keys):
            tree = btlib.clone(blob)
            ctx.eq(tree.setdefault(q, 'sd'), d.get(q, 'sd'), 'setdefault')
            m = dict(d)
            m.setdefault(q, 'sd')
            verify(ctx, tree, m, t, 'setdefault')
            tree = btlib.clone(blob)
            ctx.eq(tree.pop(q, 'dflt'), d.get(q, 'dflt'), 'pop')
            m = dict(d)
            m.pop(q, None)
            verify(ctx, tree, m, t, 'pop')
            tree = btlib.clone(blob)
            tree.add(q)
            m = dict(d)
            m[q] = True
            verify(ctx, tree, m, t, 'add')
            tree = btlib.clone(blob)
            tree.update([(q, 'u1'), (keys[0], 'u2')])
            m = dict(d)
            m.update([(q, 'u1'), (keys[0], 'u2')])
            verify(ctx, tree, m, t, 'update')
            ctx.count('transitions', 4)
        tree = btlib.clone(blob)
        ctx.check(tree.set_bnode_minimum_degree(4) == (t != 4), 'set degree result')
        ctx.eq(tree.items(), model, 'items after set_bnode_minimum_degree')
        e = btlib.structure_error(tree, 4)
        ctx.check(e is None, 'after degree change: %s', e)
        ctx.check(tree.set_bnode_minimum_degree(4) is False, 'second set degree')
        other = BTree(BNode4)
        other.update(tree)
        ctx.eq(other.items(), model, 'update from BTree')
        k, v = tree.popitem()
        m = dict(d)
        ctx.check(m.pop(k, None) == v, 'popitem')
        verify(ctx, tree, m, 4, 'popitem')
        tree.clear()
        verify(ctx, tree, {}, 4, 'clear')
        names = ['k%02d' % i for i in range(len(keys))]
        for new in (names[0], names[-1], 'k', 'z', 'k00x'):
            for args, kw in (((), {new: 1}), (([(new, 1)],), {names[0]: 2}), (({new: 1},), {new: 2}),
                             ((other_names(names),), {new: 3}), (([],), {}), ((), {}),
                             (({new: 1}, {}), {}), ((5,), {}), (([(new, 1), 5],), {})):
                tree = BTree()
                m = {}
                for k in names:
                    tree[k] = m[k] = 0
                ctx.eq(raised(tree.update, args, kw), raised(m.update, args, kw), 'update result')
                verify(ctx, tree, m, 16, 'update of string keys')
                ctx.count('transitions')
        tree = btlib.clone(blob)
        tree.note_change_of_bnode_containing_key(keys[len(keys) // 2])
        verify(ctx, tree, d, t, 'note_change_of_bnode_containing_key')

    def verify(ctx, tree, m, t, what):
        e = btlib.content_error(tree, sorted(m.items())) or btlib.structure_error(tree, t)
        if e:
            ctx.violation('after %s: %s' % (what, e))
        if m:
            ctx.eq(tree.get_min_item(), min(m.items()), 'min after ' + what)
            ctx.eq(tree.get_max_item(), max(m.items()), 'max after ' + what)
    s, tr = btlib.explore(t, unit['n'], on_state)
    ctx.count('query_states', no[0] // unit['parts'])


def other_names(names):
    from durus.btree import BTree
    t = BTree()
    for k in names[::2]:
        t[k] = 'other'
    return t


def raised(f, args, kw):
    try:
        f(*args, **kw)
    except Exception as e:
        return type(e).__name__


def orders(n):
    return {
        'up': list(range(n)),
        'down': list(range(n - 1, -1, -1)),
        'mid': [x for p in zip(range(n // 2 - 1, -1, -1), range(n // 2, 2 * (n // 2))) for x in p],
        'outin': [x for p in zip(range(n // 2), range(n - 1, n - 1 - n // 2, -1)) for x in p],
        'stride': [(i * 7) % n for i in range(n)] if n % 7 else [(i * 11) % n for i in range(n)],
    }


def run_deep(unit, ctx):
    """Trees of many levels: every deletion, then more deletions next to it, in both directions."""
    from durus.btree import BTree
    t, n = unit['t'], unit['n']
    for iname, ins in orders(n).items():
        tree = BTree(btlib.Degrees.node_class(t))
        model = {}
        for k in ins:
            tree[k] = k
            model[k] = k
        blob = btlib.freeze(tree)
        for k in sorted(model):
            for step in (1, -1):
                tree, m = btlib.clone(blob), dict(model)
                x = k
                for i in range(6):
                    ctx.trail = dict(t=t, n=n, insert=iname, delete=[k, step, i])
                    if x not in m:
                        break
                    del tree[x]
                    del m[x]
                    ctx.count('transitions')
                    e = (btlib.content_error(tree, sorted(m.items()))
                         or btlib.structure_error(tree, t) or btlib.count_error(tree))
                    ctx.check(e is None, '%s', e)
                    x += step


def run_runs(unit, ctx):
    """Long histories for the larger degrees: n ascending / descending / interleaved
    insertions, then every deletion order of the same family; all checked at every step."""
    from durus.btree import BTree
    t, n = unit['t'], unit['n']
    for iname, ins in orders(n).items():
        for dname, dels in orders(n).items():
            tree = BTree(btlib.Degrees.node_class(t))
            model = {}
            ctx.trail = dict(t=t, n=n, insert=iname, delete=dname)
            for step, k in enumerate(ins):
                tree[k] = step
                model[k] = step
                if len(tree) != len(model):
                    ctx.violation('len after %d insertions' % (step + 1))
            e = (btlib.content_error(tree, sorted(model.items()))
                 or btlib.structure_error(tree, t))
            ctx.check(e is None, '%s', e)
            for step, k in enumerate(dels):
                if k not in model:
                    continue
                del tree[k]
                del model[k]
                ctx.count('transitions')
                ctx.check(len(tree) == len(model), 'len after deletion %d', step)
                if step % 7 == 0 or len(model) < 3 * t:
                    e = (btlib.content_error(tree, sorted(model.items()))
                         or btlib.structure_error(tree, t))
                    ctx.check(e is None, 'deletion %s of %s: %s', step, k, e)
                    try:
                        del tree[k]
                    except KeyError:
                        pass
                    else:
                        ctx.violation('deleting an absent key succeeded')


def run_sequences(unit, ctx):
    """Every sequence of the compound operations up to a depth from a few starts."""
    import itertools
    from durus.btree import BTree, BNode
    ops = [('set', 1), ('set', 3), ('del', 1), ('del', 2), ('clear',), ('upd',), ('sd', 2),
           ('popitem',), ('degree',), ('pop', 3)]
    for start in (0, 3, 6):
        for seq in itertools.product(ops, repeat=unit['depth']):
            tree = BTree(BNode)
            d = {}
            for k in range(start):
                tree[k] = d[k] = -k
            t = 2
            ctx.trail = dict(start=start, seq=seq)
            for op in seq:
                ctx.count('transitions')
                k = op[1] if len(op) > 1 else None
                if op[0] == 'set':
                    tree[k] = d[k] = 'v'
                elif op[0] in ('del', 'pop'):
                    try:
                        d.pop(k)
                        want = None
                    except KeyError:
                        want = 'KeyError'
                    try:
                        if op[0] == 'del':
                            del tree[k]
                        else:
                            tree.pop(k)
                        got = None
                    except KeyError:
                        got = 'KeyError'
                    ctx.eq(got, want, 'delete')
                elif op[0] == 'clear':
                    tree.clear()
                    d.clear()
                elif op[0] == 'upd':
                    tree.update({2: 'u', 9: 'u'}, a9=1) if False else tree.update({2: 'u', 9: 'u'})
                    d.update({2: 'u', 9: 'u'})
                elif op[0] == 'sd':
                    ctx.eq(tree.setdefault(k, 's'), d.setdefault(k, 's'), 'setdefault')
                elif op[0] == 'popitem':
                    if d:
                        kk, vv = tree.popitem()
                        ctx.check(d.pop(kk, tree) == vv, 'popitem')
                elif op[0] == 'degree':
                    ctx.eq(tree.set_bnode_minimum_degree(4), t != 4, 'degree')
                    t = 4
                e = (btlib.content_error(tree, sorted(d.items()))
                     or btlib.structure_error(tree, t))
                ctx.check(e is None, '%s', e)
