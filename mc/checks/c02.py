"""C02: every BTree mutation on every small stored shape survives commit / is undone by abort."""
import copy
from mc import btlib

ID = 'C02'
LEVEL = 'model_checking'
RULE = ('for every reachable BTree structure with at most n items (explicit-state search, see C01), '
        'stored with and without item counts: every insertion/overwrite/deletion (and pairs of '
        'them, and compound operations; also deletions in trees of more levels) through a cold or warm connection, then commit or abort, '
        'then full comparison of the stored nodes, of a second connection and of the mutating one '
        'with a sorted list. A state is a distinct stored structure.')
ASSUMPTIONS = ['BTree code looks at keys only through comparisons',
               'old format = nodes stored without a count attribute']


def units(tier):
    q = tier == 'quick'
    out = []
    for t, n in ([(2, 11), (3, 15), (4, 19)] if q else [(2, 13), (3, 18), (4, 22)]):
        for old in (0, 1):
            for part in range(4):
                out.append(dict(kind='single', t=t, n=n, old=old, part=part, parts=4, cost=9 - t))
    for t, n in ([(2, 6)] if q else [(2, 8), (3, 9)]):
        for old in (0, 1):
            for part in range(4):
                out.append(dict(kind='pairs', t=t, n=n, old=old, part=part, parts=4, cost=9))
    for n in ((26, 34, 50) if q else range(22, 80, 4)):
        for old in (0, 1):
            out.append(dict(kind='deep', t=2, n=n, old=old, cost=n // 4))
    out.append(dict(kind='single', t=2, n=6, old=0, part=0, parts=1, mode='py'))
    out.append(dict(kind='single', t=2, n=6, old=1, part=0, parts=1, mode='py'))
    return out


def strip_counts(tree):
    """What a version without stored counts would have stored."""
    def walk(node):
        st = dict(node.__getstate__())
        st.pop('_count')
        node.__setstate__(st)
        for child in node.nodes or []:
            walk(child)
    walk(tree.root)


def store(blob, old):
    from durus.connection import Connection
    from durus.storage import MemoryStorage
    tree = btlib.clone(blob)
    if old:
        strip_counts(tree)
    storage = MemoryStorage()
    c = Connection(storage)
    c.get_root()['t'] = tree
    c.get_root()['other'] = 1
    c.commit()
    return storage


def open_tree(storage, warm=False, cache_size=100000):
    from durus.connection import Connection
    c = Connection(storage, cache_size=cache_size)
    tree = c.get_root()['t']
    if warm:
        tree.items()
    return c, tree


def verify(ctx, tree, model, t, what):
    e = btlib.content_error(tree, model) or btlib.structure_error(tree, t)
    if e:
        ctx.violation('%s: %s' % (what, e))
    e = btlib.count_error(tree)
    if e:
        ctx.violation('%s: %s' % (what, e))
    if model:
        ctx.eq(tree.get_min_item(), model[0], what + ' min')
        ctx.eq(tree.get_max_item(), model[-1], what + ' max')
    ctx.eq([k for k, v in model if k not in tree], [], what + ' membership')


def run(unit, ctx):
    if unit['kind'] == 'deep':
        return deep(unit, ctx)
    t, n, old = unit['t'], unit['n'], unit['old']
    no = [0]

    def on_state(blob, model, hist):
        no[0] += 1
        if no[0] % unit['parts'] != unit['part']:
            return
        ctx.count('states')
        base = store(blob, old)
        ctx.trail = dict(unit=unit, history=[list(h) for h in hist])
        c, tree = open_tree(base)
        verify(ctx, tree, model, t, 'just stored')
        canon0 = btlib.canon(tree)
        ops = list(btlib.ops_for(model, n + 1)) + [('clear',), ('degree',), ('update',)]
        if unit['kind'] == 'single':
            for i, op in enumerate(ops):
                for warm in (False, True):
                    step(ctx, base, model, canon0, [op], warm, t, hist)
        else:
            for op in ops:
                for op2 in btlib.ops_for(do_model(model, op)[0], n + 2):
                    step(ctx, base, model, canon0, [op, op2], False, t, hist)
    btlib.explore(t, n, on_state)


def deep(unit, ctx):
    """trees of many levels: every deletion, and pairs of deletions next to each other"""
    from durus.btree import BTree
    from mc.checks import c01
    t, n = unit['t'], unit['n']
    for name, keys in c01.orders(n).items():
        tree = BTree(btlib.Degrees.node_class(t))
        for k in keys:
            tree[k] = k
        model = tree.items()
        ctx.count('states')
        base = store(btlib.freeze(tree), unit['old'])
        canon0 = btlib.canon(open_tree(base)[1])
        for k, v in model:
            step(ctx, base, model, canon0, [('del', k)], False, t, [(name, n)])
            step(ctx, base, model, canon0, [('del', k), ('del', k + 1), ('ins', k, 'n')], False, t, [(name, n)])


def do_model(model, op):
    if op[0] == 'clear':
        return [], None
    if op[0] == 'degree':
        return model, None
    if op[0] == 'update':
        d = dict(model)
        d.update({-5.0: 'u', 5.5: 'u'})
        return sorted(d.items()), None
    return btlib.apply_model(model, op)


def do(tree, op):
    if op[0] == 'clear':
        tree.clear()
    elif op[0] == 'degree':
        tree.set_bnode_minimum_degree(8)
    elif op[0] == 'update':
        tree.update({-5.0: 'u', 5.5: 'u'})
    else:
        return btlib.apply_op(tree, op)


def step(ctx, base, model, canon0, ops, warm, t, hist):
    ctx.trail = dict(history=[list(h) for h in hist], ops=ops, warm=warm, t=t)
    ctx.count('transitions')
    ctx.count('traces_validated_against_impl', 2)
    if ('degree',) in ops:
        t = 8
    # abort leaves everything as it was
    storage = copy.deepcopy(base)
    c, tree = open_tree(storage, warm)
    for op in ops:
        do(tree, op)
    c.abort()
    if btlib.canon(tree) != canon0 or tree.items() != model:
        ctx.violation('abort did not restore the tree: %r, expected %r' % (tree.items(), model))
    # the same operations again, now committed
    m = model
    for op in ops:
        got = do(tree, op)
        m, want = do_model(m, op)
        ctx.eq(got, want, 'result of %r' % (op,))
    c.commit()
    verify(ctx, tree, m, t, 'in the mutating connection')
    c2, tree2 = open_tree(storage)
    verify(ctx, tree2, m, t, 'in a fresh connection')
    if btlib.canon(tree2) != btlib.canon(tree):
        ctx.violation('stored nodes differ from the nodes in memory')
    # reload through a tiny cache in the first connection
    c.set_cache_size(1)
    c.abort()
    verify(ctx, tree, m, t, 'after shrinking the cache')
    ctx.outcome(len(m) - len(model))
