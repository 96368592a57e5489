"""Explicit-state exploration of BTree structures.

A state is the complete stored state of the tree (every attribute of every node,
recursively) with the keys replaced by their ranks and values dropped.  BTree code
only compares keys, so two trees with equal canonical form have the same futures up
to renaming of keys: histories from one map step by step to histories from the other.
"""
import collections
import pickle


class _Val(object):
    pass


def canon(tree):
    """Generic canonical form: walks __getstate__() of the persistent objects."""
    from durus.persistent import PersistentObject
    rank = {}
    for i, k in enumerate(tree.keys()):
        rank[k] = i

    def c(x):
        if isinstance(x, PersistentObject):
            st = x.__getstate__()
            return (type(x).__name__,) + tuple(
                (k, c(st[k])) for k in sorted(st) if k[:3] != '_p_')
        if isinstance(x, list):
            return tuple(c(y) for y in x)
        if isinstance(x, tuple):
            return ('i', rank.get(x[0], -1))
        if x is None or isinstance(x, (int, bool, str)):
            return x
        return type(x).__name__
    return c(tree)


def clone(blob):
    return pickle.loads(blob)


def freeze(tree):
    return pickle.dumps(tree, 2)


class Degrees(object):
    _cache = {}

    @classmethod
    def node_class(klass, t):
        import durus.btree as b
        from mc import pclasses
        if t == 2:
            return b.BNode
        if t == 3:
            return pclasses.BNode3
        return {4: b.BNode4, 8: b.BNode8, 16: b.BNode16}[t]


def structure_error(tree, t):
    """None, or a description of a violated balance invariant."""
    root = tree.root
    depths = set()
    problems = []

    def walk(node, depth, is_root):
        n = len(node.items)
        if n > 2 * t - 1 or (not is_root and n < t - 1):
            problems.append('node with %d items at depth %d (t=%d)' % (n, depth, t))
        if node.nodes is None:
            depths.add(depth)
        else:
            if len(node.nodes) != n + 1:
                problems.append('%d items but %d children' % (n, len(node.nodes)))
            for child in node.nodes:
                walk(child, depth + 1, False)
    walk(root, 1, True)
    if len(depths) != 1:
        problems.append('leaves at depths %s' % sorted(depths))
    elif depths != {tree.get_depth()}:
        problems.append('get_depth()=%s but leaves are at depth %s' % (tree.get_depth(), depths))
    return problems[0] if problems else None


def content_error(tree, model):
    """Cheap agreement test used after every transition. model: sorted list of pairs"""
    got = tree.items()
    if got != model:
        return 'items() = %r, expected %r' % (got, model)
    try:
        n = len(tree)
    except Exception as e:
        return 'len() raised %r' % e
    if n != len(model):
        return 'len() = %r, expected %d' % (n, len(model))
    if bool(tree) != bool(model):
        return 'truth value %r with %d items' % (bool(tree), len(model))
    return None


def count_error(tree):
    """len() of every subtree (except nodes stored without a count)"""
    todo = [tree.root]
    while todo:
        node = todo.pop()
        try:
            n = len(node)
        except TypeError:
            n = None
        if n is not None and n != node.get_count():
            return 'len() of a node = %r, expected %d' % (n, node.get_count())
        todo.extend(node.nodes or [])


def gaps_and_keys(keys):
    """positions 0..2n: even = gap before key i, odd = key i"""
    out = []
    prev = None
    if not keys:
        return [('gap', 0.0)]
    out.append(('gap', keys[0] - 1.0))
    for i, k in enumerate(keys):
        out.append(('key', k))
        nxt = keys[i + 1] if i + 1 < len(keys) else None
        out.append(('gap', (k + nxt) / 2.0 if nxt is not None else k + 1.0))
    return out


def apply_op(tree, op):
    """Returns the exception name or None."""
    try:
        if op[0] == 'ins':
            tree[op[1]] = op[2]
        elif op[0] == 'del':
            del tree[op[1]]
    except KeyError:
        return 'KeyError'
    return None


def apply_model(model, op):
    d = dict(model)
    if op[0] == 'ins':
        d[op[1]] = op[2]
    elif op[0] == 'del':
        if op[1] not in d:
            return model, 'KeyError'
        del d[op[1]]
    return sorted(d.items()), None


def ops_for(model, n_max):
    """Every insertion point, overwrite, deletion of a present and an absent key."""
    keys = [k for k, v in model]
    for kind, k in gaps_and_keys(keys):
        if kind == 'gap':
            if len(keys) < n_max:
                yield ('ins', k, 'n')
            yield ('del', k)
        else:
            yield ('ins', k, 'o')
            yield ('del', k)


def explore(t, n_max, on_state=None, on_transition=None, old_format=False):
    """Breadth-first search over the reachable structures with at most n_max items.
    on_state(blob, model), on_transition(model, op, tree, model2, error)
    Returns (states, transitions)."""
    from durus.btree import BTree
    tree = BTree(Degrees.node_class(t))
    seen = {canon(tree)}
    frontier = collections.deque([(freeze(tree), [], ())])
    states = transitions = 0
    while frontier:
        blob, model, hist = frontier.popleft()
        states += 1
        if on_state:
            on_state(blob, model, hist)
        for op in ops_for(model, n_max):
            transitions += 1
            tree = clone(blob)
            err = apply_op(tree, op)
            model2, want_err = apply_model(model, op)
            if on_transition:
                on_transition(hist, model, op, tree, model2, err, want_err)
            key = canon(tree)
            if key not in seen:
                seen.add(key)
                frontier.append((freeze(tree), model2, hist + (op,)))
    return states, transitions
