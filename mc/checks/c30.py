"""C30: an I/O error during a commit leaves the storage at the previous state."""
import errno
import os
import shutil

from mc import crashlib, fslog, storages
from mc.crashlib import dump, do_commit, plan, rec, i8, payload

ID = 'C30'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive single-fault enumeration: every file-system call of a commit made to fail, on the real code'
NEEDS_SHIM = True
RULE = ('for every storage back-end x starting file x history of up to N commits (6 kinds): every mutating '
        'file-system call of the last commit made to fail in 4 ways (error without effect; half a write, '
        'then an error; error and every later write that extends a file failing until space is freed; half a write, then the '
        'rest accepted), also with a pack in progress at any step, followed by {reading in the same process, reopening a copy, closing and reopening, '
        'a different commit, the same commit again} with all states compared to the reference.')
ASSUMPTIONS = ['one fault condition per commit; truncating a file and closing it do not fail at the same time']

MODES = {
    'error': (errno.EIO, 0, 0),
    'half': (errno.ENOSPC, 1, 0),
    'full': (errno.ENOSPC, 0, 1),
    'halffull': (errno.ENOSPC, 1, 1),
}


def units(tier):
    q = tier == 'quick'
    out = []
    for kind in ('file', 'file2', 'sqlite'):
        for setup in ('fresh', 'grown', 'packed', 'packed+'):
            if kind == 'sqlite' and setup == 'packed+':
                continue
            for style in ('zero', 'ascii'):
                depth = (3 if style == 'zero' else 2) if q else 4
                for h in crashlib.histories('MNBTSE', depth):
                    if kind == 'sqlite' and h[-1] == 'E':
                        continue
                    out.append(dict(kind=kind, setup=setup, style=style, commits=h, cost=len(h)))
        for setup in ('fresh', 'grown', 'packed'):
            for h in ('H', 'MH', 'HM'):
                out.append(dict(kind=kind, setup=setup, style='ascii', commits=h, cost=3))
        for steps in range(1, 24):
            for h in 'MNBS':
                out.append(dict(kind=kind, setup='grown', style='zero', commits=h, packing=steps, cost=1))
    return out


def run(unit, ctx):
    kind, style = unit['kind'], unit['style']
    n = None
    at = 1
    tmpl = ctx.newdir()
    base_ref = crashlib.build(kind, unit['setup'], tmpl, style)
    try:
        while True:
            fired = False
            for mode in MODES:
                for then in ('close', 'other', 'same'):
                    fired |= one(unit, ctx, tmpl, base_ref, at, mode, then)
            if not fired:
                break
            at += 1
            if at > 500:
                ctx.violation('more than 500 calls in one commit')
                return
        ctx.sample('%s %s %s: %d calls' % (kind, unit['setup'], unit['commits'], at - 1))
    finally:
        ctx.rmdir(tmpl)


def one(unit, ctx, tmpl, base_ref, at, mode, then):
    kind, style = unit['kind'], unit['style']
    d = ctx.newdir()
    img = ctx.newdir()
    s = None
    try:
        for f in os.listdir(tmpl):
            shutil.copyfile(os.path.join(tmpl, f), os.path.join(d, f))
        ref = crashlib.Ref()
        ref.states = list(base_ref.states)
        s = storages.open_storage(kind, d)
        commits = unit['commits']
        for i, k in enumerate(commits[:-1]):
            crashlib.step(s, ref, k, i, style)
        packer = None
        if unit.get('packing'):
            packer = crashlib.start_pack(s, unit['packing'])
            if packer is None:
                return False
            ref.states[-1] = dump(s)
        before = ref.now
        if then == 'other':
            # the storage has been read since the last commit
            dump(s)
        records = plan(commits[-1], before, s, len(commits), style)
        err, partial, sticky = MODES[mode]
        label = '%s, setup %s, commits %s (%s records), call %d of the last: %s' % (
            kind, unit['setup'], commits, style, at, mode)
        if packer:
            label += ', while a pack was at step %d' % unit['packing']
        ctx.trail = label
        fslog.start(d)
        fslog.fail(at, err, partial, sticky)
        raised = None
        try:
            do_commit(s, records)
        except Exception as e:
            raised = type(e).__name__
        fired = fslog.fired()
        if not fired and mode != 'half':
            if raised:
                ctx.violation('%s: %s without any fault' % (label, raised))
            return False
        ctx.count('evaluations')
        if raised is None:
            if not fired and mode == 'half':
                return False
            # Legitimate only if the write could be completed after all (an in-place
            # write on a full disk, the rest of a short write accepted): then the
            # commit must be entirely there.
            if kind != 'sqlite' and mode in ('error', 'half'):
                ctx.violation('%s: the commit did not report the error' % label)
                return True
            fslog.fail(0, 0)
            fslog.stop()
            state = dict(before)
            state.update(records)
            same(ctx, s, state, label + ': accepted, the same process')
            s.close()
            if packer:
                return True
            s = storages.open_storage(kind, d)
            same(ctx, s, state, label + ': accepted, then closed and reopened')
            ctx.outcome('%s completed' % kind)
            return True
        ctx.count('distinct_nontrivial')
        ctx.outcome('%s %s' % (kind, raised))
        # the running process, while the fault condition lasts
        same(ctx, s, before, label + ': the same process')
        # a restart at this moment
        for n in os.listdir(d):
            shutil.copyfile(os.path.join(d, n), os.path.join(img, n))
        r = storages.open_storage(kind, img, **({} if kind == 'sqlite' else dict(repair=True)))
        same(ctx, r, before, label + ': after a restart')
        r.close()
        fslog.fail(0, 0)
        fslog.stop()
        same(ctx, s, before, label + ': the same process, fault gone')
        state = dict(before)
        if then != 'close':
            if then == 'same':
                again = records
            else:
                n = s.new_oid()
                if n in state:
                    ctx.violation('%s: then new_oid() gave an oid in use' % label)
                again = {n: rec(n, payload('ascii', 6, 1))}
                if not state:
                    again = {i8(0): rec(i8(0), b'xyz')}
                else:
                    again[i8(0)] = rec(i8(0), payload(style, 6, 2), [n])
            try:
                do_commit(s, again)
            except Exception as e:
                ctx.violation('%s: then %s commit fails: %s: %s' % (
                    label, 'the same' if then == 'same' else 'another', type(e).__name__, e))
                return True
            state.update(again)
            same(ctx, s, state, label + ': after one more commit')
        if packer is not None:
            try:
                for x in packer:
                    pass
                got = dump(s)
            except Exception as e:
                ctx.violation('%s: then the pack fails: %s: %s' % (label, type(e).__name__, e))
                return True
            if any(state.get(o) != r for o, r in got.items()) or any(o not in got for o in crashlib.reachable(state)):
                ctx.violation('%s: after the pack another state' % label)
            state = got
        s.close()
        s = None
        try:
            s = storages.open_storage(kind, d)
        except Exception as e:
            if then != 'close' or kind == 'sqlite':
                ctx.violation('%s: then (%s) the file does not open: %s: %s' % (
                    label, then, type(e).__name__, e))
                return True
        if s is None:
            s = storages.open_storage(kind, d, repair=True)
        same(ctx, s, state, label + ': then %s, closed and reopened' % then)
        return True
    finally:
        fslog.fail(0, 0)
        fslog.stop()
        if s is not None:
            try:
                s.close()
            except Exception:
                pass
        ctx.rmdir(d)
        ctx.rmdir(img)


def same(ctx, s, want, what):
    try:
        got = dump(s)
        for oid in want:
            if bytes(s.load(oid)) != want[oid]:
                got = None
    except Exception as e:
        ctx.violation('%s: cannot be read: %s: %s' % (what, type(e).__name__, e))
        return
    if got != want:
        ctx.violation('%s: not the expected state' % what)
