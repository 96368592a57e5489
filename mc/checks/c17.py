"""C17: every storage is a map from oid to the record last stored."""
import itertools

from mc import biglib, netlib, storages
from mc.crashlib import i8, rec

ID = 'C17'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of all operation sequences on every real storage and a real server, against a map'
RULE = ('memory, temporary, file, file2, sqlite storages, and a client and server over each: every sequence of '
        'a given length of allocating an oid, beginning (also to abandon a transaction), storing an existing or new oid with '
        'references to everything / to nothing / to itself, with empty, short and long data, storing again, ending, syncing, packing, reopening, '
        'from an empty database, one with 3 linked objects and one just packed to its root object; after every sequence every oid (and missing ones) is loaded, '
        'bulk loaded in several orders and with repetitions, all records iterated, and iterated from every oid with batches of 1, 2 and 100; also file2 and sqlite storages created from the records of each kind, with 1 to 5 objects and more commits; wide graphs with all orders of references and batch sizes; '
        'stars, chains and trees of 99 to 66000 objects, and records of 0 to 16 million bytes, around the limits of buffers, counters and batches, '
        'stored, changed, packed, cut, packed with a commit in between, and opened again.')
ASSUMPTIONS = ['records refer only to oids stored before or in the same transaction; an oid is allocated before it is stored']

KINDS = ('mem', 'tmp', 'file', 'file2', 'sqlite')
OPS = ('n', 'b', 'e', 'r', 'y', 'S0', 'S1', 'S3', 'T0', 'T1', 'T3', 'Z1')


def units(tier):
    q = tier == 'quick'
    out = []
    for kind in KINDS:
        for net in (False, True):
            for base, ops in (('chain', OPS), ('empty', ('n', 'b', 'e', 'r', 'S0', 'T0', 'S1', 'T1')),
                              ('packed', ('n', 'b', 'e', 'P', 'S0', 'T0', 'S1', 'T1'))):
                if kind in ('mem', 'tmp'):
                    ops = tuple(o for o in ops if o != 'r' or net)
                depth = 5 if base == 'chain' else 7
                if base == 'packed' and q:
                    if net and kind != 'file':
                        continue
                    depth -= 1
                    if net:
                        depth -= 1
                if q and (net and kind != 'file' or kind in ('tmp', 'sqlite')):
                    depth -= 1
                if not q:
                    depth += 1
                for first in ops:
                    if first in 'nbyP':
                        for second in ops:
                            out.append(dict(kind=kind, net=net, base=base, ops=list(ops), depth=depth,
                                            first=[first, second], cost=(5 if net else 1) * len(ops)))
                    elif first == 'r':
                        out.append(dict(kind=kind, net=net, base=base, ops=list(ops), depth=depth - 1,
                                        first=[first], cost=5))
    for net in (False, True):
        out.append(dict(wide=6 if net or q else 7, net=net, cost=50))
    for kind in ('file2', 'sqlite'):
        for source in KINDS:
            out.append(dict(create=kind, source=source, cost=20))
    return out + biglib.units(q)


def run(unit, ctx):
    if 'wide' in unit:
        return wide(unit, ctx)
    if 'many' in unit or 'large' in unit:
        return biglib.run(unit, ctx)
    if 'create' in unit:
        return create(unit, ctx)
    explore(unit, ctx, unit['first'])


def create(unit, ctx):
    """A storage made from the records of another one is used like any other."""
    kind = unit['create']
    for n, hole, before, start, reopen in itertools.product(
            (1, 2, 3, 5), (False, True), (False, True) if kind == 'file2' else (False,),
            (False, True), (False, True)):
        label = '%s storage created from a %s storage with %d objects%s%s%s%s' % (
            kind, unit['source'], n, ' and unused oids' * hole, ' when it had others' * before,
            ', from its root' * start, ', reopened' * reopen)
        ctx.trail = label
        d = ctx.newdir()
        src = storages.open_storage(unit['source'], d)
        d2 = ctx.newdir()
        s = storages.open_storage(kind, d2)
        try:
            state = {}
            alloc = []
            for k in range(n):
                alloc.append(bytes(src.new_oid()))
                if hole and k:
                    src.new_oid()
            src.begin()
            for k, o in enumerate(alloc):
                state[o] = rec(o, DATA[k], [alloc[j] for j in (k + 1, k - 1) if 0 <= j < n])
                src.store(o, state[o])
            src.end()
            if before:
                s.begin()
                for k in range(n + 2):
                    o = bytes(s.new_oid())
                    s.store(o, rec(o, b'before'))
                s.end()
            ctx.count('transitions')
            s.create_from_records(src.gen_oid_record(start_oid=alloc[0]) if start else src.gen_oid_record())
            if reopen:
                s.close()
                s = storages.open_storage(kind, d2)
            examine(ctx, label, s, state, alloc, kind)
            for k in range(2):
                o = bytes(s.new_oid())
                if o in state:
                    ctx.violation('%s: an oid in use is given out' % label)
                s.begin()
                r = rec(alloc[0], b'again%d' % k, alloc[1:] + [o])
                s.store(alloc[0], r)
                s.store(o, rec(o, b'new%d' % k, alloc[-1:]))
                s.end()
                state[o] = rec(o, b'new%d' % k, alloc[-1:])
                state[alloc[0]] = r
                alloc.append(o)
                examine(ctx, label + ', %d commits' % (k + 1), s, state, alloc, kind)
            s.pack()
            live = reach(state, i8(0))
            examine(ctx, label + ', packed', s, {o: state[o] for o in live}, sorted(live), kind)
            s.close()
            s = storages.open_storage(kind, d2)
            examine(ctx, label + ', packed and reopened', s, {o: state[o] for o in live}, sorted(live), kind)
            ctx.count('states')
            ctx.count('traces_validated_against_impl')
        finally:
            s.close()
            if unit['source'] in storages.DISK:
                src.close()
            ctx.rmdir(d)
            ctx.rmdir(d2)


def wide(unit, ctx):
    """A root with references in any order to objects that refer to more: any batch size."""
    n = unit['wide']
    for perm in itertools.permutations(range(1, n)):
        s = storages.open_storage('mem')
        oids = [bytes(s.new_oid()) for _ in range(2 * n)]
        state = {oids[0]: rec(oids[0], b'r', [oids[i] for i in perm])}
        for k, i in enumerate(perm):
            state[oids[i]] = rec(oids[i], b'%d' % i, [oids[n + k], oids[perm[k - 1]], oids[0]])
            state[oids[n + k]] = rec(oids[n + k], b'-%d' % i, [oids[i], oids[0], oids[n + perm[0] - 1]])
        s.begin()
        for o in state:
            s.store(o, state[o])
        s.end()
        net = netlib.Net(s) if unit['net'] else None
        try:
            front = net.client() if net else s
            for batch in range(1, 2 * n):
                for start in (oids[0], oids[perm[0]]):
                    label = 'memory storage, references %r, batches of %d, from %d' % (perm, batch, start[-1])
                    ctx.trail = label
                    ctx.count('transitions')
                    got = [(bytes(o), bytes(r)) for o, r in front.gen_oid_record(start_oid=start, batch_size=batch)]
                    if sorted(got) != sorted(state.items()):
                        ctx.violation('%s: iteration gives %s' % (label, [o[-1] for o, r in got]))
        finally:
            if net:
                net.kill()
        ctx.count('states')
        ctx.count('traces_validated_against_impl')


def explore(unit, ctx, seq):
    if not legal(seq, unit['base']):
        return
    execute(unit, ctx, seq)
    if len(seq) < unit['depth']:
        for op in unit['ops']:
            explore(unit, ctx, seq + [op])


def legal(seq, base):
    """can this be done, and is it something new?"""
    alloc = {'chain': 3, 'packed': 1, 'empty': 0}[base]
    have = set(range(alloc))
    pend = None
    for k, op in enumerate(seq):
        if op == 'n':
            alloc += 1
        elif op == 'b':
            if k and seq[k - 1] == 'b':
                return False
            pend = set()
        elif op == 'P':
            if k and seq[k - 1] == 'P' or pend is not None or 0 not in have:
                return False
        elif op == 'e':
            if pend is None:
                return False
            have |= pend
            pend = None
        elif op in 'ry':
            if k and seq[k - 1] == op:
                return False
            if op == 'r':
                alloc = max(have) + 1 if have else 0
                pend = None
        else:
            i = int(op[1])
            if pend is None or i >= alloc:
                return False
            if i and 0 not in have and 0 not in pend:
                return False
            pend.add(i)
    return True


DATA = (b'', b'\0', b'some data', b'x' * 300, bytes(range(256)) * 300)


def execute(unit, ctx, seq):
    kind = unit['kind']
    label = '%s storage%s, %s database, %s' % (
        kind, ' behind a server' if unit['net'] else '', unit['base'], ' '.join(seq))
    ctx.trail = label
    d = ctx.newdir() if kind in storages.DISK else None
    if unit['net']:
        netlib.allow_threads()
    s = storages.open_storage(kind, d)
    net = None
    front = s
    try:
        if unit['net']:
            net = netlib.Net(s)
            front = net.client()
            front.oid_pool_size = 1
        state = {}
        alloc = []
        removed = set()

        def pack():
            front.pack()
            while net is not None and net.pack_step():
                pass
            if net is not None:
                net.run()
            live = reach(state, i8(0))
            for o in sorted(set(state) - live):
                try:
                    front.load(o)
                except KeyError:
                    removed.add(o)
                    del state[o]
                    alloc.remove(o)
            if net is not None and not set(front.sync()) <= removed:
                ctx.violation('%s: sync after the pack gives more than the removed objects' % label)

        if unit['base'] != 'empty':
            alloc = [bytes(front.new_oid()) for _ in range(3)]
            front.begin()
            state = {alloc[0]: rec(alloc[0], b'0', [alloc[1]]), alloc[1]: rec(alloc[1], b'1', [alloc[2]]),
                     alloc[2]: rec(alloc[2], b'2')}
            for o in state:
                front.store(o, state[o])
            front.end()
        if unit['base'] == 'packed':
            front.begin()
            state[alloc[0]] = rec(alloc[0], b'2')
            front.store(alloc[0], state[alloc[0]])
            front.end()
            pack()
        pending = None
        version = 0
        twice = False
        for op in seq:
            ctx.count('transitions')
            if op == 'n':
                alloc.append(bytes(front.new_oid()))
            elif op == 'P':
                pack()
            elif op == 'b':
                front.begin()
                pending = {}
            elif op == 'e':
                front.end()
                state.update(pending)
                pending = None
            elif op == 'y':
                got = list(front.sync())
                if not set(got) <= removed:
                    ctx.violation('%s: sync gives %r' % (label, got))
            elif op == 'r':
                if net is not None:
                    front.close()
                    net.kill()
                    net = None
                if kind in storages.DISK:
                    s.close()
                    s = storages.open_storage(kind, d)
                front = s
                if unit['net']:
                    net = netlib.Net(s)
                    front = net.client()
                    front.oid_pool_size = 1
                pending = None
                # oids handed out and not used may be given out again
                high = max([-1] + [int.from_bytes(o, 'big') for o in state])
                alloc = sorted(state)
            else:
                version += 1
                i = int(op[1])
                if i >= len(alloc):
                    # another set of oids is in use than expected: nothing to do here
                    return
                oid = alloc[i]
                if not state and i == 0 and oid != i8(0):
                    return
                if unit['net'] and oid in pending:
                    twice = True
                    return
                known = sorted(set(state) | set(pending))
                refs = [o for o in known if o != oid] if op[0] == 'S' else [] if op[0] == 'T' else [oid]
                pending[oid] = r = rec(oid, DATA[(version + i) % len(DATA)] + b'%d' % (version % 2), refs)
                front.store(oid, r)
            if pending and op != 'r':
                # nothing of a transaction is seen before its end
                for o in pending:
                    check_load(ctx, label, front, o, state)
        if net is not None:
            net.check_alive()
        examine(ctx, label, front, state, alloc, kind)
        if net is not None:
            net.check_alive()
            examine(ctx, label + ' (in the server)', s, state, alloc, kind)
        ctx.count('states')
        ctx.count('traces_validated_against_impl')
        ctx.outcome('%d objects' % len(state))
        if len(seq) == unit['depth']:
            ctx.sample(label, 1)
    finally:
        if net is not None:
            net.kill()
        if d:
            s.close()
            ctx.rmdir(d)


def check_load(ctx, label, s, oid, state):
    try:
        got = bytes(s.load(oid))
    except KeyError as e:
        try:
            str(e), repr(e)
        except Exception as e2:
            ctx.violation('%s: the error of load(%r) cannot be printed: %r' % (label, oid, e2))
        if oid in state:
            ctx.violation('%s: load(%r) raises KeyError' % (label, oid))
        return
    if oid not in state:
        ctx.violation('%s: load(%r) gives something for a missing oid' % (label, oid))
    elif got != state[oid]:
        ctx.violation('%s: load(%r) gives another record' % (label, oid))


def reach(state, start):
    from durus.serialize import unpack_record, split_oids
    out, todo = set(), [start]
    while todo:
        o = todo.pop()
        if o not in out:
            out.add(o)
            todo.extend(split_oids(unpack_record(state[o])[2]))
    return out


def examine(ctx, label, s, state, alloc, kind):
    for oid in set(alloc) | set(state) | {i8(0), i8(1), i8(7), i8(300), i8(2 ** 40), i8(2 ** 62)}:
        check_load(ctx, label, s, oid, state)
    oids = sorted(state)
    for some in (oids, oids[::-1], oids[:1] * 2 + oids[1:], oids[-1:], []):
        got = [bytes(r) for r in s.bulk_load(some)]
        if got != [state[o] for o in some]:
            ctx.violation('%s: bulk_load of %d oids gives other records' % (label, len(some)))
    for some in ([i8(300)], oids + [i8(300)], [i8(300)] + oids):
        try:
            list(s.bulk_load(some))
        except KeyError:
            pass
        else:
            ctx.violation('%s: bulk_load of a missing oid raises no KeyError' % label)
    for it in (iter(s.bulk_load(oids)), s.gen_oid_record()) if len(oids) > 1 else ():
        # the caller looks at the first one only, while it uses the storage otherwise
        next(it)
        check_load(ctx, label, s, oids[-1], state)
        del it
        check_load(ctx, label, s, oids[0], state)
    if not state:
        return
    got = [(bytes(o), bytes(r)) for o, r in s.gen_oid_record()]
    live = reach(state, i8(0))
    if len(got) != len(set(o for o, r in got)) or not live <= set(o for o, r in got) or any(
            o not in state or r != state[o] for o, r in got):
        ctx.violation('%s: iteration gives %s' % (label, [o[-1] for o, r in got]))
    for start in oids:
        want = reach(state, start)
        for batch in (1, 2, 100):
            got = [(bytes(o), bytes(r)) for o, r in s.gen_oid_record(start_oid=start, batch_size=batch)]
            if len(got) != len(want) or set(o for o, r in got) != want or any(
                    r != state[o] for o, r in got):
                ctx.violation('%s: iteration from %d with batches of %d gives %s, expected %s' % (
                    label, start[-1], batch, [o[-1] for o, r in got], sorted(o[-1] for o in want)))
    check_load(ctx, label, s, oids[0], state)
