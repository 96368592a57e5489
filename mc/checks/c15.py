"""C15: a crash or error during a pack loses nothing acknowledged."""
import errno
import os
import shutil

from mc import crashlib, fslog, packlib, storages
from mc.crashlib import i8, dump, reachable
from mc.packlib import Model

ID = 'C15'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive crash-point and single-fault enumeration over packs with interleaved commits on the real code'
NEEDS_SHIM = True
RULE = ('for file, file2 and sqlite x 6 object graphs (quick: 4) x every placement of 0 or 1 (thorough 2) commits among the packer '
        'steps plus one commit after the pack: (a) a crash after every file-system call, inside every write, '
        'and a power failure with every combination of surviving unsynced data per file; every distinct image is opened under '
        'the normal name, compared with the acknowledged state, used for another commit and another pack; '
        '(b) every mutating file-system call made to fail (without effect, half done, disk full): the process '
        'goes on, must show the acknowledged state, commit, pack again, and reopen to the right state.')
ASSUMPTIONS = [
    'a power failure keeps a prefix of the bytes appended since the last fsync and keeps name changes in order',
    'one fault condition per execution']

GRAPHS = ('low', 'high', 'dead', 'shared', 'reorder', 'cycle')
OPS = {
    'low': [('N', 0), ('U', 0, 3), ('M', 3)],
    'high': [('N', 1), ('L', 0, 4), ('M', 0)],
    'dead': [('N', 2), ('L', 2, 3), ('M', 0)],
    'shared': [('N', 3), ('V', 1, 3, 0), ('U', 0, 2)],
    'reorder': [('N', 1), ('U', 0, 4), ('V', 4, 2, 0)],
    'cycle': [('N', 2), ('O', 1), ('M', 0)],
}
MODES = [(errno.EIO, 0, 0), (errno.ENOSPC, 1, 0), (errno.ENOSPC, 0, 1)]


def units(tier):
    q = tier == 'quick'
    out = []
    for kind in storages.DISK:
        for g in GRAPHS:
            for base in ('recent', 'packed'):
                if q and (g not in ('low', 'dead', 'shared') or (base == 'packed' and g != 'dead')):
                    continue
                ops = [None] + OPS[g]
                for a in ops:
                    for b in ([None] if q or a is None else ops):
                        for what in ('crash', 'fault'):
                            out.append(dict(kind=kind, graph=g, base=base, what=what,
                                            ops=[o for o in (a, b) if o],
                                            cost=3 if what == 'crash' else 4))
    return out


def run(unit, ctx):
    packlib.small_increments()
    from mc.checks import c14
    tmpl = ctx.newdir()
    try:
        refs, state, serial = c14.template(unit, tmpl)
        start = (refs, state, serial)
        steps = play(unit, ctx, tmpl, start, [], None, None)
        n = len(unit['ops'])
        q = ctx.tier == 'quick'
        if n == 0:
            places = [()]
        elif n == 1:
            places = [(p,) for p in range(0, steps + 1)]
            if q and steps > 14:
                if unit['what'] == 'fault':
                    places = places[:4] + places[4:-6:6] + places[-6:]
                else:
                    places = places[:6] + places[6:-8:3] + places[-8:]
        else:
            places = [(p, p2) for p in range(0, steps + 1, 3) for p2 in range(p, steps + 3, 4)]
        for place in places:
            schedule = list(zip(place, [tuple(o) for o in unit['ops']]))
            if unit['what'] == 'crash':
                play(unit, ctx, tmpl, start, schedule, 'crash', None)
            else:
                for mode in MODES:
                    at = 1
                    while play(unit, ctx, tmpl, start, schedule, 'fault', (at,) + mode):
                        at += 1
                        if at > 3000:
                            ctx.violation('too many calls in one pack')
                            return
        ctx.sample('%s %s %s: %d pack steps, %d placements' % (
            unit['kind'], unit['graph'], unit['ops'], steps, len(places)))
    finally:
        ctx.rmdir(tmpl)


def play(unit, ctx, tmpl, start, schedule, what, fault):
    kind = unit['kind']
    d = ctx.newdir()
    s = None
    try:
        for f in os.listdir(tmpl):
            shutil.copyfile(os.path.join(tmpl, f), os.path.join(d, f))
        s = storages.open_storage(kind, d)
        m = Model(s)
        m.refs = {n: list(r) for n, r in start[0].items()}
        m.state = dict(start[1])
        m.serial = start[2]
        label = '%s, graph %s (%s), %s' % (
            kind, unit['graph'], unit['base'],
            '; '.join('%s at step %d' % (op, p) for p, op in schedule) or 'nothing interleaved')
        if fault:
            label += ', call %d fails (%s%s%s)' % (
                fault[0], errno.errorcode[fault[1]], ', half written' if fault[2] else '',
                ', and all further' if fault[3] else '')
        ctx.trail = label
        if what is None:
            n = sum(1 for x in s.get_packer())
            return n
        initial = fslog.snapshot(d)
        states = [m.state.copy()]          # acknowledged states
        marks = [0]

        def commit_done():
            states.append(dict(m.state))
            fslog.mark(len(states) - 1)

        fslog.start(d)
        if fault:
            fslog.fail(*fault)
        failed = None
        tried = []
        steps = 0
        todo = list(schedule)
        it = None
        try:
            it = iter(s.get_packer())
            while True:
                while todo and todo[0][0] <= steps:
                    op = todo.pop(0)[1]
                    attempt(ctx, m, op, tried, commit_done, fault, label)
                next(it)
                steps += 1
        except StopIteration:
            pass
        except Exception as e:
            if not fault or not fslog.fired():
                raise
            failed = type(e).__name__
        it = None
        if not fault:
            attempt(ctx, m, ('N', 0), tried, commit_done, fault, label)
            fslog.stop()
            ops = fslog.log()
            s.close()
            s = None
            images(ctx, kind, d, label, initial, ops, states)
            return True
        fired = fslog.fired()
        if not fired:
            if failed:
                ctx.violation('%s: %s without a fault' % (label, failed))
            return False
        ctx.count('evaluations')
        ctx.outcome('%s %s' % (kind, failed if failed else
                               'commit failed' if tried else 'not noticed'))
        ctx.count('distinct_nontrivial')
        # the process goes on, the condition is still there
        now = check(ctx, s, [m.state] + tried, label)
        restart(ctx, kind, d, label + ', restart at this point', [m.state] + tried)
        fslog.fail(0, 0)
        fslog.stop()
        if now is not None:
            m.state = dict(now)
        fix_refs(m)
        while todo:
            packlib.apply(m, todo.pop(0)[1])
        packlib.apply(m, ('N', 0))
        check(ctx, s, [m.state], label + ', after one more commit')
        restart(ctx, kind, d, label + ', after one more commit and a restart', [m.state])
        s.pack()
        got = dump(s)
        if got != reachable(m.state):
            ctx.violation('%s: a later pack %s' % (
                label, 'removed nothing' if len(got) > len(reachable(m.state)) else
                'gives a wrong state'))
        s.sync()
        keep = {packlib.from_oid(o) for o in got}
        m.drop(keep)
        packlib.apply(m, ('N', 0))
        check(ctx, s, [m.state], label + ', after a later pack')
        s.close()
        s = storages.open_storage(kind, d)
        check(ctx, s, [m.state], label + ', after a later pack, reopened')
        return True
    finally:
        fslog.fail(0, 0)
        fslog.stop()
        if s is not None:
            try:
                s.close()
            except Exception:
                pass
        ctx.rmdir(d)


def attempt(ctx, m, op, tried, commit_done, fault, label):
    """One interleaved commit; with a fault it may raise, and then it did not happen."""
    before = (dict(m.state), {n: list(r) for n, r in m.refs.items()})
    try:
        if packlib.apply(m, op):
            commit_done()
    except Exception as e:
        if not fault or not fslog.fired():
            raise
        # it must not have happened
        m.state, m.refs = before


def fix_refs(m):
    from durus.serialize import unpack_record, split_oids
    m.refs = {packlib.from_oid(o): [packlib.from_oid(x) for x in split_oids(unpack_record(r)[2])]
              for o, r in m.state.items()}


def same(got, state):
    """all that is reachable, and nothing that was never there"""
    r = reachable(state)
    return reachable(got) == r and all(state.get(o) == x for o, x in got.items())


def check(ctx, s, states, label):
    try:
        got = dump(s)
        for o in got:
            s.load(o)
        walk = {bytes(o): bytes(r) for o, r in s.gen_oid_record(start_oid=i8(0))}
    except Exception as e:
        ctx.violation('%s: cannot be read: %s: %s' % (label, type(e).__name__, e))
        return None
    for st in states:
        if same(got, st) and walk == reachable(st):
            return st
    ctx.violation('%s: not the acknowledged state (%d records, expected %d)' % (
        label, len(got), len(states[0])))
    return None


def restart(ctx, kind, d, label, states):
    img = ctx.newdir()
    try:
        for n in os.listdir(d):
            shutil.copyfile(os.path.join(d, n), os.path.join(img, n))
        try:
            r = open_again(kind, img)
        except Exception as e:
            ctx.violation('%s: cannot be opened: %s: %s' % (label, type(e).__name__, e))
            return
        check(ctx, r, states, label)
        r.close()
    finally:
        ctx.rmdir(img)


def open_again(kind, d):
    if not os.path.exists(storages.path_of(kind, d)):
        raise IOError('there is no file with the normal name')
    return storages.open_storage(kind, d, **({} if kind == 'sqlite' else dict(repair=True)))


def images(ctx, kind, d, label, initial, ops, states):
    img = ctx.newdir()
    seen = set()
    acked = {}
    n = 0
    for i, o in enumerate(ops):
        acked[i] = n
        if o.op == 'mark':
            n = o.ino
    acked[len(ops)] = n
    main = storages.path_of(kind, d)
    ctx.count('fs_calls', len(ops))
    kw = {}
    if kind == 'sqlite':
        kw['torn'] = lambda k: sorted({1, k // 2, k - 1} | set(range(512, k, 512)) - {0, k})
        kw['cuts'] = lambda steps, total: sorted({0, 1, total - 1, total} | set(range(0, total, 512)))
    else:
        kw['cuts'] = lambda steps, total: range(total + 1) if total < 60 else sorted(
            set(range(20)) | set(range(20, total - 20, 7)) | set(range(total - 20, total + 1)))
    try:
        for idx, how, image in fslog.crash_states(initial, ops, **kw):
            ctx.count('evaluations')
            lo = acked[idx]
            hi = min(len(states) - 1, lo + 1)
            rest = tuple(sorted((os.path.basename(p), len(c)) for p, c in image.items() if p != main))
            opened = (image.get(main), rest if kind == 'sqlite' else None,
                      image.get(main + '-journal'), lo)
            key = (opened, None if kind == 'sqlite' else rest[:1])
            if opened in seen:
                if key in seen or 'inside' in how:
                    continue
            first = opened not in seen
            seen.add(opened)
            seen.add(key)
            ctx.count('distinct_nontrivial')
            what = '%s, %s' % (label, how)
            crashlib.write_image(img, d, image)
            try:
                s = open_again(kind, img)
            except Exception as e:
                ctx.violation('%s: cannot be opened: %s: %s' % (what, type(e).__name__, e))
                continue
            try:
                st = check(ctx, s, states[lo:hi + 1], what)
                if st is None:
                    continue
                m = Model(s)
                m.state = dict(st)
                m.serial = 100
                present = dump(s)
                m.state = {o: m.state[o] for o in present}
                fix_refs(m)
                packlib.apply(m, ('N', 0))
                check(ctx, s, [m.state], what + ', recovered, one more commit')
                if first or not any(n.endswith('.pack') for n, k in rest):
                    s.close()
                    s = m.s = storages.open_storage(kind, img)
                    check(ctx, s, [m.state], what + ', recovered, one more commit, reopened')
                s.pack()
                if dump(s) != reachable(m.state):
                    ctx.violation('%s, recovered: the next pack gives a wrong state' % what)
                s.close()
                s = m.s = storages.open_storage(kind, img)
                check(ctx, s, [reachable(m.state)], what + ', recovered, packed, reopened')
                ctx.count('continuations')
            except Exception as e:
                import traceback
                ctx.violation('%s, recovered: %s: %s' % (what, type(e).__name__, e),
                              detail=traceback.format_exc())
            finally:
                s.close()
    finally:
        ctx.rmdir(img)
