"""C09: conflicts are recoverable and only raised for real overlaps."""
from mc import rootlib
from mc.checks import c07

ID = 'C09'
LEVEL = 'model_checking'
TECHNIQUE = c07.TECHNIQUE
RULE = ('every history up to a given length of operations of 2 (and 3) clients of one real server (reads, '
        'overwrites of objects read and not read before, new objects, crawling, commit, abort, reconnecting). A write conflict '
        'is accepted only if another client changed an object accessed in the transaction since its begin; at the '
        'end of every history every client aborts, must see the latest state, and repeats its failed transaction '
        '(or a read and write), which must succeed and be what the others see. Also every order of the requests of 2 (3) '
        'clients that connect to an empty database at the same time, one of which may die at any point: each gets the '
        'one root, or a conflict after which connecting again works.')
ASSUMPTIONS = c07.ASSUMPTIONS


def plan(q):
    if q:
        return [(('rx', 'wx', 'ry', 'wy', 'C'), 2, 5, 0, 2), (('rx', 'wx', 'wy', 'C', 'A'), 2, 5, 1, 2),
                (('rx', 'wx', 'n', 'o', 'C', 'D'), 2, 5, 0, 2), (('wx', 'wy', 'C'), 3, 6, 0, 2),
                (('rx', 'wb', 'k', 'C', 'g'), 2, 5, 1, 2), (('rx', 'wx', 'wy', 'C'), 2, 6, 0, 2)]
    return [(('rx', 'wx', 'ry', 'wy', 'C', 'A'), 2, 7, 0, 3), (('rx', 'wx', 'wy', 'C', 'A'), 2, 7, 1, 3),
            (('rx', 'wx', 'n', 'o', 'C', 'D'), 2, 7, 0, 3), (('wx', 'wy', 'C'), 3, 8, 0, 3),
            (('rx', 'wb', 'k', 'C', 'g'), 2, 7, 1, 3)]


def units(tier):
    q = tier == 'quick'
    return c07.make_units(q, plan(q)) + c07.oid_units(OID_ROLES, 5 if q else 7) + root_units(q)


def root_units(q):
    out = []
    for kind, n, depth, deaths in (('mem', 2, 8 if q else 10, 1), ('file', 2, 6 if q else 8, 1), ('file2', 2, 6 if q else 8, 1),
                                   ('sqlite', 2, 5 if q else 7, 1), ('mem', 3, 5 if q else 8, 1)):
        k = 8
        for i in range(k):
            out.append(dict(root=kind, nclients=n, depth=depth, deaths=deaths, part=[i, k], cost=3000))
    return out


def run_root(unit, ctx):
    i, k = unit['part']
    n = 0
    for schedule in rootlib.schedules(unit['nclients'], unit['depth'], unit['deaths']):
        n += 1
        if n % k != i:
            continue
        d = ctx.newdir()
        rootlib.play(ctx, unit['root'], d, unit['nclients'], schedule)
        ctx.rmdir(d)
        ctx.count('states')
        ctx.count('traces_validated_against_impl')
        ctx.count('transitions', len(schedule))
    ctx.sample('%(nclients)d clients of an empty %(root)s database, all schedules of %(depth)d requests' % unit)


OID_ROLES = [['rx', 'R', 'wy', 'C', 'A'], ['wx', 'wz', 'C']]


def run(unit, ctx):
    if 'root' in unit:
        return run_root(unit, ctx)
    c07.run(unit, ctx, ('recover',))
