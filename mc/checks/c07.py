"""C07: committed transactions of concurrent clients are serializable."""
from mc import biglib, txlib

ID = 'C07'
LEVEL = 'model_checking'
TECHNIQUE = 'stateless exhaustive exploration of client/server interleavings of the real code under a controlled scheduler'
JUDGE = ('serial',)
CORE = ('rx', 'wx', 'ry', 'wy', 'C', 'A')
WIDE = ('rx', 'wx', 'wb', 'rb', 'n', 'o', 'C', 'A', 'D')
RULE = ('every history up to a given length of operations of 2 (and 3) clients of one real server: read or overwrite '
        'either attribute of two objects, add or read an object added by another, commit, abort, break the connection and '
        'reconnect, collect garbage; cache size 1 with every access from the root or by oid, and unlimited with the application keeping the objects. Each is run on real connections over in-memory sockets '
        'under a deterministic scheduler. Every commit that succeeds is replayed on a reference in commit order '
        '(all its reads must be the latest values) and the resulting database is compared with the reference as '
        'seen by another client. Also transactions that change up to 2500 objects that another client has read, and up to 257 clients. transitions = operations executed, states = complete histories.')
ASSUMPTIONS = [
    'reads and in-memory writes of different clients commute (only one order of adjacent ones is run); '
    'the clients, and the objects x and y, are interchangeable',
    'after a conflict error a client aborts']


def plan(q):
    # alphabet, clients, depth, cache size, unit prefix length
    if q:
        return [(('rx', 'wx', 'ry', 'wy', 'C'), 2, 6, 0, 2), (CORE, 2, 5, 0, 2), (WIDE, 2, 4, 0, 2),
                (('wx', 'rb', 'n', 'o', 'C', 'D'), 2, 5, 0, 2),
                (('rx', 'wx', 'C'), 3, 6, 0, 2), (('rx', 'wx', 'ry', 'wy', 'C', 'g'), 2, 5, 1, 2)]
    return [(CORE, 2, 8, 0, 3), (WIDE, 2, 6, 0, 3), (CORE, 2, 7, 1, 3),
            (('rx', 'wx', 'C', 'A'), 3, 8, 0, 3), (('rx', 'wx', 'ry', 'wy', 'C', 'g'), 2, 7, 1, 3)]


def make_units(q, the_plan):
    out = []
    for alphabet, nclients, depth, cache, pre in the_plan:
        for p in txlib.prefixes(pre, alphabet, nclients):
            out.append(dict(alphabet=list(alphabet), nclients=nclients, depth=depth,
                            cache=cache, prefix=p, cost=len(alphabet) ** depth))
    return out


def units(tier):
    q = tier == 'quick'
    return make_units(q, plan(q)) + oid_units(OID_ROLES, 5 if q else 8) + biglib.graph_units(q, 'clients')


OID_ROLES = [['R', 'wy', 'g', 'C'], ['wx', 'C']]


def oid_units(roles, depth):
    # a client with a small cache gets objects by their oids and keeps none of them
    return [dict(prefix=p, roles=roles, depth=depth, cost=20000) for p in txlib.prefixes(2, None, 2, roles=roles)]


def run(unit, ctx, judge=JUDGE):
    if 'big' in unit:
        return biglib.run_graph(unit, ctx)
    if 'roles' in unit:
        txlib.explore(ctx, unit['prefix'], unit['depth'], None, judge, roles=unit['roles'],
                      names=('x', 'y', 'z', 'v', 'w'), by_oid=True, cache_size=1)
        ctx.sample('%s by oid, then all continuations to length %d' % (unit['prefix'], unit['depth']))
        return
    kw = {}
    if unit['cache']:
        kw['cache_size'] = unit['cache']
    else:
        kw['hold'] = True
    txlib.explore(ctx, unit['prefix'], unit['depth'], unit['alphabet'], judge,
                  nclients=unit['nclients'], **kw)
    ctx.sample('%s, then all continuations to length %d' % (unit['prefix'], unit['depth']))
