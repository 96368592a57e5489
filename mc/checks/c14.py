"""C14: packing keeps exactly the live objects, whatever commits run meanwhile."""
import errno
import itertools
import os
import shutil

from mc import packlib, storages
from mc.crashlib import i8, dump, reachable
from mc.packlib import Model

ID = 'C14'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state enumeration of every interleaving of commits with the steps of the real incremental packer'
RULE = ('for file, file2 and sqlite storages x 8 object graphs (x a file whose objects are all recent / '
        'partly in the packed part): every placement of 0, 1 and 2 operations (modify, create+link, unlink, '
        'link live or unreachable object, move, clear links, create unreachable; over all objects of the '
        'graph for 1; a core set on some graphs for 2; thorough: all pairs and core triples) before, after and between all steps of the '
        'incremental packer, and loads at every step; one graph also on a file system without hard links, and with a relative file name and the working directory changed at '
        'every step (to one with and one without a database of the same name). After every run: the live records, the oids reported removed, new oids, '
        'another pack and reopening are compared with a reference graph. states = distinct reference graphs at the end.')
ASSUMPTIONS = [
    'an object unreachable both before and during a pack is not linked again after the pack has finished']


QUICK_PAIRS = {
    'file': [('dead', 'recent'), ('dead', 'packed'), ('reorder', 'recent'), ('high', 'packed'), ('shared', 'recent')],
    'file2': [('dead', 'recent'), ('shared', 'recent'), ('reorder', 'recent')],
    'sqlite': [('dead', 'recent'), ('shared', 'recent'), ('low', 'recent')],
}


def units(tier):
    q = tier == 'quick'
    out = []
    for kind in storages.DISK:
        for g in sorted(packlib.GRAPHS):
            for base in ('recent', 'packed'):
                size = max(max(c) for c in packlib.GRAPHS[g]) + 1
                out.append(dict(kind=kind, graph=g, base=base, n=1, cost=5))
                for first in range(len(core_ops(size))):
                    if q and (g, base) not in QUICK_PAIRS[kind]:
                        continue
                    out.append(dict(kind=kind, graph=g, base=base, n=2, first=first,
                                    ops='core' if q else 'all', cost=30))
                if not q:
                    for first in range(len(core_ops(size))):
                        for second in range(len(core_ops(size))):
                            out.append(dict(kind=kind, graph=g, base=base, n=3, first=first,
                                            second=second, ops='core', cost=300))
        for size in ((45,) if kind == 'file' else (45, 230)):
            for garbage in (0, 1):
                out.append(dict(kind=kind, graph='long%d' % size, size=size, garbage=garbage,
                                base='recent', n=1, cost=50))
    for kind in storages.DISK:
        for there in ('nothing', 'database'):
            out.append(dict(kind=kind, graph='dead', base='packed', n='C', there=there, ops='core', cost=10))
    for kind in ('file', 'file2'):
        for no in ('EPERM', 'ENOSYS', 'EOPNOTSUPP', 'EMLINK'):
            out.append(dict(kind=kind, graph='dead', base='packed', n=1, ops='core', nolink=no, cost=5))
    return out


def core_ops(size):
    last, mid = size - 1, size // 2
    return [('N', 0), ('M', 1), ('U', 0, 1), ('L', 0, last), ('L', last, 1), ('V', 1, last, 0),
            ('V', 0, 1, last), ('O', mid), ('L', 1, mid), ('G',)]


def run(unit, ctx):
    kind = unit['kind']
    if 'size' in unit:
        packlib.normal_increments()
        size = unit['size']
        ops = [('M', 1), ('N', size // 3), ('U', 0, 3), ('O', size - 3), ('L', 0, size - 1),
               ('V', size // 3, size // 3 + 1, 0), ('L', 0, size - 3)]
    else:
        packlib.small_increments()
        size = max(max(c) for c in packlib.GRAPHS[unit['graph']]) + 1
        ops = packlib.operations(None, range(size)) if unit.get('ops') != 'core' else core_ops(size)
    tmpl = ctx.newdir()
    seen = set()
    link = os.link
    if 'nolink' in unit:
        def no_link(*args, **kw):
            raise OSError(getattr(errno, unit['nolink']), 'no hard links here')
        os.link = no_link
    try:
        refs, state, serial = template(unit, tmpl)
        steps = one(unit, ctx, tmpl, refs, state, serial, [], seen)
        if unit['n'] == 1:
            if 'size' in unit and steps > 60:
                at = sorted(set(range(0, 12)) | set(range(12, steps, steps // 40)) | set(range(steps - 8, steps + 1)))
            else:
                at = range(steps + 1)
            for op in ops:
                for p in at:
                    if one(unit, ctx, tmpl, refs, state, serial, [(p, op)], seen) is None:
                        break
        elif unit['n'] == 'C':
            for p in range(steps + 2):
                one(unit, ctx, tmpl, refs, state, serial, [(p, ('C',))], seen)
                for op in ops:
                    for p2 in range(p, steps + 4):
                        if one(unit, ctx, tmpl, refs, state, serial, [(p, ('C',)), (p2, op)], seen) is None:
                            break
        elif unit['n'] == 2:
            # the number of steps grows when objects are added
            op1 = core_ops(size)[unit['first']]
            for op2 in ops:
                for p in range(steps + 1):
                    for p2 in range(p, steps + 4):
                        if one(unit, ctx, tmpl, refs, state, serial, [(p, op1), (p2, op2)],
                               seen) is None:
                            break
        else:
            op1 = core_ops(size)[unit['first']]
            op2 = core_ops(size)[unit['second']]
            for op3 in ops:
                for p in range(0, steps + 1):
                    for p2 in range(p, steps + 1, 2):
                        for p3 in range(p2, steps + 1, 2):
                            one(unit, ctx, tmpl, refs, state, serial,
                                [(p, op1), (p2, op2), (p3, op3)], seen)
        ctx.count('states', len(seen))
        ctx.sample('%s %s: %d pack steps' % (kind, unit['graph'], steps))
    finally:
        os.link = link
        ctx.rmdir(tmpl)


def template(unit, d):
    s = storages.open_storage(unit['kind'], d)
    m = Model(s)
    if 'size' in unit:
        packlib.fill_chain(m, unit['size'], unit['garbage'])
    else:
        packlib.fill(m, unit['graph'])
        if unit['base'] == 'packed':
            # everything is in the packed part except the root and one more
            full = {n: list(r) for n, r in m.refs.items()}
            live = m.live()
            m.commit({0: sorted(set(full) - {0})})
            s.close()
            m.s = s = storages.open_storage(unit['kind'], d)
            s.pack()
            s.sync()
            m.drop(m.live())
            last = max(full)
            m.commit({0: full[0], last: full[last]})
            if m.live() != live:
                m.commit({n: full[n] for n in full})
    s.close()
    for p in os.listdir(d):
        if p.endswith('.prepack'):
            os.unlink(os.path.join(d, p))
    return m.refs, m.state, m.serial


def one(unit, ctx, tmpl, refs, state, serial, schedule, seen):
    """One execution; returns the number of packer steps, None if an operation of the
    schedule makes no sense."""
    kind = unit['kind']
    d = ctx.newdir()
    s = None
    cwd = os.getcwd()
    other = os.path.join(d, 'other')
    try:
        for f in os.listdir(tmpl):
            shutil.copyfile(os.path.join(tmpl, f), os.path.join(d, f))
        if 'there' in unit:
            os.mkdir(other)
            for f in os.listdir(tmpl) if unit['there'] == 'database' else ():
                shutil.copyfile(os.path.join(tmpl, f), os.path.join(other, f))
            before = contents(other)
            os.chdir(d)
        s = storages.open_storage(kind, '' if 'there' in unit else d)
        m = Model(s)
        m.refs = {n: list(r) for n, r in refs.items()}
        m.state = dict(state)
        m.serial = serial
        label = '%s, graph %s (%s), %s' % (
            kind, unit['graph'], unit['base'],
            '; '.join('%s at step %d' % (op, p) for p, op in schedule) or 'nothing interleaved')
        ctx.trail = label
        ctx.count('transitions', 1 + len(schedule))
        before_pack = set(m.refs)
        todo = list(schedule)
        if todo and todo[0][0] == 0:
            # operations before the pack starts
            pass
        steps = 0
        packer = s.get_packer()
        it = iter(packer)
        interleaved = False
        early = {}
        while True:
            while todo and todo[0][0] <= steps:
                p, op = todo.pop(0)
                if op == ('C',):
                    os.chdir(other)
                elif not packlib.apply(m, op):
                    return None
                interleaved = interleaved or op != ('C',)
                check_live(ctx, s, m, label + ', right after it')
            try:
                next(it)
            except StopIteration:
                break
            steps += 1
            ctx.count('transitions')
            if steps % (3 if 'size' not in unit else 40) == 0 or (todo and 'size' not in unit):
                check_loads(ctx, s, m, label, steps)
        late = bool(todo)
        # the removed objects are gone, everything else is there
        check_live(ctx, s, m, label + ', after the pack')
        present = {packlib.from_oid(o) for o in dump(s)}
        live = m.live()
        if not interleaved and present != live:
            ctx.violation('%s: after the pack the storage holds %s, the live objects are %s' % (
                label, sorted(present), sorted(live)))
        # new oids before and after the sync
        fresh = packlib.from_oid(s.new_oid())
        reported = {packlib.from_oid(o) for o in s.sync()}
        gone = set(m.refs) - present
        if gone - reported:
            ctx.violation('%s: the removed objects %s are not reported as invalid' % (
                label, sorted(gone - reported)))
        if reported & live:
            ctx.violation('%s: the live objects %s are reported as removed' % (
                label, sorted(reported & live)))
        if fresh in present or fresh in reported or fresh in gone:
            ctx.violation('%s: new_oid() gave %d, which is %s' % (
                label, fresh, 'in use' if fresh in present else 'removed but not yet reported'))
        m.drop(present)
        # the same state after reopening, and one more operation
        while todo:
            p, op = todo.pop(0)
            if op == ('C',):
                os.chdir(other)
            elif not packlib.apply(m, op):
                return None
            check_live(ctx, s, m, label + ', right after it')
        if (len(schedule) != 1 or schedule[0][0] % 4 == 0):
            s.close()
            s = m.s = storages.open_storage(kind, d)
            check_live(ctx, s, m, label + ', reopened')
        n = packlib.new(m)
        if n in present:
            ctx.violation('%s: then new_oid() gave %d, which is in use' % (label, n))
        m.commit({n: [], 0: m.refs[0] + [n]})
        check_live(ctx, s, m, label + ', one more commit')
        # a second pack removes the rest
        s.pack()
        live = m.live()
        got = dump(s)
        want = {i8(x): m.state[i8(x)] for x in live}
        if got != want:
            ctx.violation('%s, a second pack: the storage holds %s, the live objects are %s' % (
                label, sorted(packlib.from_oid(o) for o in got), sorted(live)))
        gone = set(m.refs) - live
        reported = {packlib.from_oid(o) for o in s.sync()}
        if reported != gone:
            ctx.violation('%s, a second pack: removed %s, reported %s' % (
                label, sorted(gone), sorted(reported)))
        s.close()
        s = storages.open_storage(kind, d)
        if dump(s) != want:
            ctx.violation('%s, a second pack, reopened: other records' % label)
        if 'there' in unit and contents(other) != before:
            ctx.violation('%s: another directory has changed: %s' % (label, sorted(contents(other))))
        key = repr(sorted((n, tuple(r)) for n, r in m.refs.items()))
        seen.add(key)
        ctx.count('traces_validated_against_impl')
        ctx.outcome('%d removed' % len(gone))
        return None if late else steps
    finally:
        os.chdir(cwd)
        if s is not None:
            s.close()
        ctx.rmdir(d)


def contents(d):
    out = {}
    for name in os.listdir(d):
        with open(os.path.join(d, name), 'rb') as f:
            out[name] = f.read()
    return out


def check_loads(ctx, s, m, label, steps):
    for n in m.live():
        if bytes(s.load(i8(n))) != m.state[i8(n)]:
            ctx.violation('%s: at step %d load(%d) gives a wrong record' % (label, steps, n))


def check_live(ctx, s, m, label):
    live = m.live()
    for n in live:
        try:
            got = bytes(s.load(i8(n)))
        except KeyError:
            ctx.violation('%s: the live object %d is lost' % (label, n))
            continue
        if got != m.state[i8(n)]:
            ctx.violation('%s: object %d has another record' % (label, n))
    try:
        got = {bytes(o): bytes(r) for o, r in s.gen_oid_record(start_oid=i8(0))}
    except KeyError as e:
        ctx.violation('%s: iteration fails: KeyError %s' % (label, e))
        return
    if got != {i8(n): m.state[i8(n)] for n in live}:
        ctx.violation('%s: iteration from the root gives %s, the live objects are %s' % (
            label, sorted(packlib.from_oid(o) for o in got), sorted(live)))
