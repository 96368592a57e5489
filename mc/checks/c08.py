"""C08: all reads within one transaction come from one committed snapshot."""
from mc import biglib
from mc.checks import c07

ID = 'C08'
LEVEL = 'model_checking'
TECHNIQUE = c07.TECHNIQUE
RULE = ('every history up to a given length of operations of 2 (and 3) clients of one real server, with emphasis on '
        'reading: attribute reads of two objects and of one added by others, steps of a crawl of the whole '
        'database, overwriting, commit, abort, reconnecting, garbage collection, cache sizes 1 and unlimited. After '
        'every read, the values read so far in the transaction must all occur together in one committed state not '
        'older than the begin of the transaction; after every abort a client must see the latest state. '
        'Also graphs of 20 to 2500 objects that another client has in its cache when all, every second, or one of them are changed. '
        'Also every use of held objects of each class that a pack removed.')
ASSUMPTIONS = c07.ASSUMPTIONS


ROLES = [['wx', 'wy', 'wz', 'C'], ['rx', 'ry', 'rz', 'K', 'C']]


OID_ROLES = [['rx', 'ry', 'R', 'K', 'C'], ['wx', 'wz', 'C']]


def plan(q):
    if q:
        return [(('rx', 'ry', 'wx', 'wy', 'C'), 2, 5, 0, 2), (('rx', 'ry', 'wx', 'wy', 'k', 'C'), 2, 5, 0, 2),
                (('rx', 'ry', 'wx', 'wy', 'C', 'A'), 2, 5, 1, 2), (('rx', 'wx', 'n', 'o', 'g', 'C'), 2, 5, 1, 2),
                (('rx', 'ry', 'wx', 'C', 'D'), 3, 4, 0, 2), (('ry', 'wx', 'k', 'C'), 2, 6, 1, 2),
                (('rx', 'ry', 'wx', 'wy', 'C'), 2, 6, 1, 2)]
    return [(('rx', 'ry', 'wx', 'wy', 'C', 'A'), 2, 7, 0, 3), (('rx', 'ry', 'wx', 'wy', 'k', 'C'), 2, 7, 0, 3),
            (('rx', 'ry', 'wx', 'wy', 'C', 'A'), 2, 7, 1, 3), (('rx', 'wx', 'n', 'o', 'g', 'C'), 2, 7, 1, 3),
            (('rx', 'ry', 'wx', 'C', 'D'), 3, 6, 0, 3), (('rx', 'ry', 'wx', 'wy', 'C'), 2, 8, 1, 3)]


def units(tier):
    from mc import txlib
    q = tier == 'quick'
    out = c07.make_units(q, plan(q))
    # one client writes three objects, the other one reads and crawls in batches
    for hold in (True, False):
        for p in txlib.prefixes(2, None, 2, roles=ROLES):
            out.append(dict(prefix=p, roles=ROLES, hold=hold, depth=5 if q else 7, cost=20000))
    out.extend(c07.oid_units(OID_ROLES, 5 if q else 7))
    for kind in ('file', 'file2', 'sqlite'):
        for net in (False, True):
            out.append(dict(removed=kind, net=net, cost=10000))
    return out + biglib.graph_units(q, 'clients')


# uses of a held object, and what they give while it is there
USES = {
    'PersistentDict': [(lambda x: x['a'], 1), (lambda x: x.get('a'), 1), (lambda x: x.get('b', 7), 7),
                       (lambda x: 'a' in x, True), (lambda x: 'b' in x, False), (lambda x: x.setdefault('a', 3), 1),
                       (lambda x: x.setdefault('b', 3), 3), (lambda x: x.pop('a', 5), 1), (lambda x: x.pop('b', 5), 5),
                       (lambda x: sorted(x.items()), [('a', 1)]), (len, 1), (bool, True),
                       (lambda x: x.update(b=2), None), (lambda x: x.__setitem__('a', 2), None)],
    'PersistentSet': [(lambda x: 1 in x, True), (lambda x: 3 in x, False), (sorted, [1]), (len, 1),
                      (lambda x: x.discard(3), None), (lambda x: x.remove(1), None), (lambda x: x.pop(), 1)],
    'PersistentList': [(lambda x: x[0], 1), (len, 1), (list, [1]), (lambda x: x.append(2), None), (lambda x: x.pop(), 1),
                       (lambda x: 1 in x, True), (lambda x: 3 in x, False)],
    'BTree': [(lambda x: x['a'], 1), (lambda x: x.get('b'), None), (lambda x: x.get('b', 7), 7), (lambda x: 'b' in x, False),
              (lambda x: x.setdefault('b', 3), 3), (lambda x: list(x.items()), [('a', 1)]), (len, 1), (bool, True),
              (lambda x: x.pop('b', 5), 5), (lambda x: x.__setitem__('b', 2), None)],
    'P': [(lambda x: x.a, 1), (lambda x: getattr(x, 'b', 7), 7), (lambda x: hasattr(x, 'b'), False),
          (lambda x: setattr(x, 'b', 7), None), (lambda x: delattr(x, 'a'), None), (lambda x: dict(x.__dict__), {'a': 1})],
}


def removed(unit, ctx):
    """An object that the application still holds is removed by a pack: it gives what it was,
    or a conflict, but nothing else."""
    import itertools
    from durus.btree import BTree
    from durus.connection import Connection
    from durus.error import ReadConflictError
    from durus.persistent_dict import PersistentDict
    from durus.persistent_list import PersistentList
    from durus.persistent_set import PersistentSet
    from mc import netlib, pclasses, storages
    make = dict(PersistentDict=lambda: PersistentDict(a=1), PersistentSet=lambda: PersistentSet([1]),
                PersistentList=lambda: PersistentList([1]), BTree=BTree, P=pclasses.P)
    if unit['net']:
        netlib.allow_threads()
    for name, ghost, end, again in itertools.product(sorted(USES), (False, True), 'AC-', (False, True)):
        for n, (use, want) in enumerate(USES[name]):
            label = '%s%s, a held %s%s is removed by a pack%s, use %d%s' % (
                unit['removed'], ' through a server' * unit['net'], name, ' ghost' * ghost,
                {'A': ', abort', 'C': ', commit', '-': ''}[end], n, ' twice' * again)
            ctx.trail = label
            d = ctx.newdir()
            s = storages.open_storage(unit['removed'], d)
            net = None
            try:
                if unit['net']:
                    net = netlib.Net(s)
                    c = Connection(net.client())
                else:
                    c = Connection(s)
                r = c.get_root()
                x = r['x'] = make[name]()
                if name == 'P':
                    x.a = 1
                elif name == 'BTree':
                    x['a'] = 1
                c.commit()
                del r['x']
                c.commit()
                if ghost:
                    x._p_set_status_ghost()
                c.pack()
                while net is not None and net.pack_step():
                    pass
                if end == 'A':
                    c.abort()
                elif end == 'C':
                    r['other'] = 1
                    c.commit()
                for i in range(1 + again):
                    try:
                        got = use(x)
                    except ReadConflictError:
                        ctx.outcome('conflict')
                    except Exception as e:
                        ctx.violation('%s: raises %r' % (label, e))
                    else:
                        ctx.outcome('value')
                        if got != want:
                            ctx.violation('%s: gives %r, expected %r' % (label, got, want))
                    c.abort()
                    ctx.count('transitions')
                r['new'] = PersistentDict(k=i)
                c.commit()
                c.abort()
                c2 = Connection(net.client() if net else s)
                if dict(c2.get_root()['new']) != {'k': i} or 'x' in c2.get_root():
                    ctx.violation('%s: afterwards the root holds %r' % (label, c2.get_root().data))
                ctx.count('states')
                ctx.count('traces_validated_against_impl')
            finally:
                if net is not None:
                    net.kill()
                s.close()
                ctx.rmdir(d)


def run(unit, ctx):
    if 'removed' in unit:
        return removed(unit, ctx)
    if 'hold' in unit:
        from mc import txlib
        kw = dict(hold=True) if unit['hold'] else dict(cache_size=1)
        txlib.explore(ctx, unit['prefix'], unit['depth'], None, ('snapshot',), roles=unit['roles'],
                      names=('x', 'y', 'z'), **kw)
        return
    c07.run(unit, ctx, ('snapshot',))
