"""Crash enumeration for the single-file storages (used by C11, C12, C13).

Commits are made through the storage interface with records whose contents are known,
so that the expected state after every commit is a plain dict."""
import itertools
import os

from mc import fslog, storages


def rec(oid, data, refs=()):
    from durus.serialize import pack_record
    return pack_record(oid, data, b''.join(refs))


def i8(n):
    from durus.utils import int8_to_str
    return int8_to_str(n)


def payload(style, n, i):
    """Record contents chosen to confuse a resynchronising parser."""
    if style == 'zero':
        return b'\0' * n
    if style == 'ones':
        return b'\xff' * n
    if style == 'len':       # looks like small big-endian lengths
        return (i8(16) * (n // 8 + 1))[:n]
    if style == 'ascii':
        return (b'%04d' % i) * (n // 4 + 1)
    raise ValueError(style)


class Ref(object):
    """reference state: the stored records"""

    def __init__(self):
        self.states = [{}]

    @property
    def now(self):
        return self.states[-1]


def plan(kind, now, storage, serial, style):
    """The records of one commit."""
    live = sorted(now)
    z = i8(0)
    out = {}
    if kind == 'E':          # an empty commit
        return {}
    if not live:
        assert storage.new_oid() == z
        out[z] = rec(z, payload(style, 9 + serial, serial))
        if kind == 'M':
            return out
    if kind == 'M':          # overwrite one small record
        out[z] = rec(z, payload(style, 9 + serial, serial))
    elif kind == 'N':        # a new object, linked from the root
        n = storage.new_oid()
        out[n] = rec(n, payload(style, 3, serial), [z])
        out[z] = rec(z, payload(style, 5, serial), [n])
    elif kind == 'B':        # a big new object (length needs two bytes)
        n = storage.new_oid()
        out[z] = rec(z, payload(style, 5, serial), [n])
        out[n] = rec(n, payload(style, 280, serial))
    elif kind == 'T':        # rewrite everything there is
        for o in live:
            out[o] = rec(o, payload(style, 4 + serial % 3, serial), live[:3])
        if not live:
            pass
    elif kind == 'H':        # more than buffers of 4096 and 8192 bytes hold
        new = [storage.new_oid() for i in range(12)]
        out[z] = rec(z, payload(style, 5, serial), new)
        for i, n in enumerate(new):
            out[n] = rec(n, payload(style, 9000 if i == 4 else 1000 + i, serial))
    elif kind == 'S':        # an empty payload
        n = storage.new_oid()
        out[n] = rec(n, b'')
    return out


def do_commit(storage, records, order=None):
    storage.begin()
    for oid in records:
        storage.store(oid, records[oid])
    storage.end()


def dump(storage):
    out = {}
    for oid, record in storage.gen_oid_record():
        out[bytes(oid)] = bytes(record)
    return out


def reachable(state):
    """The records reachable from the root."""
    from durus.serialize import unpack_record, split_oids
    out, todo = {}, [i8(0)]
    while todo:
        o = todo.pop()
        if o in out or o not in state:
            continue
        out[o] = state[o]
        todo.extend(split_oids(unpack_record(state[o])[2]))
    return out


def step(s, ref, k, serial, style, before=None):
    """One commit (or pack) with the reference state following it."""
    if k == 'P':
        if before:
            before()
        s.pack()
        ref.states.append(reachable(ref.now))
    else:
        r = plan(k, ref.now, s, serial, style)
        if before:
            before()
        do_commit(s, r)
        ref.states.append({**ref.now, **r})


def name_states(states, got):
    for i in range(len(states) - 1, -1, -1):
        if states[i] == got:
            return i
    return None


def build(kind, setup, d, style):
    """An initial file; returns the reference state."""
    ref = Ref()
    s = storages.open_storage(kind, d)
    if setup != 'fresh':
        for i, k in enumerate('NBTN'):
            r = plan(k, ref.now, s, 50 + i, style)
            do_commit(s, r)
            ref.states.append({**ref.now, **r})
        if setup in ('packed', 'packed+'):
            s.close()
            s = storages.open_storage(kind, d)
            s.pack()
            alive = dump(s)
            ref.states.append(alive)
            for p in os.listdir(d):
                if p.endswith('.prepack'):
                    os.unlink(os.path.join(d, p))
        if setup == 'packed+':
            r = plan('N', ref.now, s, 60, style)
            do_commit(s, r)
            ref.states.append({**ref.now, **r})
    s.close()
    ref.states = [ref.now]
    return ref


def write_image(d, d0, image):
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    for p, data in image.items():
        assert p.startswith(d0 + '/')
        with open(os.path.join(d, p[len(d0) + 1:]), 'wb') as f:
            f.write(data)


def judge(ctx, kind, d, what, states, lo, hi, seen, repair=True, style='ascii'):
    """d holds a crash image; it must recover to states[lo..hi]."""
    kw = dict(repair=True) if repair else {}
    try:
        s = storages.open_storage(kind, d, **kw)
    except Exception as e:
        ctx.violation('%s: the file cannot be opened: %s: %s' % (what, type(e).__name__, e))
        return
    try:
        try:
            got = dump(s)
        except Exception as e:
            ctx.violation('%s: the reopened storage cannot be read: %s: %s' % (
                what, type(e).__name__, e))
            return
        k = name_states(states[:hi + 1], got)
        if k is None or k < lo:
            ctx.violation('%s: recovered %s, expected the state after commit %s' % (
                what, 'a state that never existed (%d records)' % len(got) if k is None else
                'the state after commit %d' % k,
                lo if lo == hi else '%d..%d' % (lo, hi)))
            return
        ctx.outcome('recovered to %s commit' % ('the acknowledged' if k == lo else 'the unacknowledged'))
        path = storages.path_of(kind, d)
        key = (open(path, 'rb').read(), k)
        if key in seen:
            return
        seen.add(key)
        usable(ctx, kind, d, s, what, dict(states[k]), style)
        s = None
    finally:
        if s is not None:
            s.close()


def usable(ctx, kind, d, s, what, state, style):
    """The recovered storage takes new commits, and they are there after a restart."""
    for r in range(2):
        for oid in state:
            if bytes(s.load(oid)) != state[oid]:
                ctx.violation('%s: load gives another record than iteration' % what)
        new = {}
        n = s.new_oid()
        if n in state or (state and n == i8(0)):
            ctx.violation('%s: after recovery new_oid() gave the oid %r of an existing object' % (what, n))
        new[n] = rec(n, payload('ascii', 7, r))
        if state:
            new[i8(0)] = rec(i8(0), payload(style, 8, r), [n])
        if r == 0:
            before = dict(state)
            initial = fslog.snapshot(d)
            fslog.start(d)
        do_commit(s, new)
        state.update(new)
        if r == 0:
            fslog.mark(1)
            fslog.stop()
            ops = fslog.log()
            second_crash(ctx, kind, d, initial, ops, [before, dict(state)], what)
        got = dump(s)
        if got != state:
            ctx.violation('%s: a commit after recovery shows %d records, expected %d' % (
                what, len(got), len(state)))
        s.close()
        try:
            s = storages.open_storage(kind, d)
            got = dump(s)
        except Exception as e:
            ctx.violation('%s: after recovery and one more commit the file cannot be opened: %s: %s'
                          % (what, type(e).__name__, e))
            return
        if got != state:
            ctx.violation('%s: a commit made after recovery is lost or changed on reopening' % what)
    ctx.count('continuations')
    s.close()


def second_crash(ctx, kind, d, initial, ops, states, what):
    """Crash again, during the first commit after recovery."""
    img = ctx.newdir()
    ack_at = [i for i, o in enumerate(ops) if o.op == 'mark'][0]
    seen = set()
    kw = dict(repair=True) if kind != 'sqlite' else {}
    try:
        for idx, how, image in crash_list(initial, ops, ack_at):
            lo = 1 if idx >= ack_at else 0
            key = (tuple(sorted(image.items())), lo)
            if key in seen:
                continue
            seen.add(key)
            ctx.count('second_crashes')
            write_image(img, d, image)
            label = '%s; recovered, then in the next commit %s' % (what, how)
            try:
                s = storages.open_storage(kind, img, **kw)
                got = dump(s)
                s.close()
            except Exception as e:
                ctx.violation('%s: the file cannot be opened: %s: %s' % (label, type(e).__name__, e))
                continue
            k = name_states(states, got)
            if k is None or k < lo:
                ctx.violation('%s: recovered a wrong state' % label)
    finally:
        ctx.rmdir(img)


def start_pack(s, steps):
    """an incremental pack after some steps; None if it has not so many"""
    from mc import packlib
    packlib.small_increments()
    packer = s.get_packer()
    for i in range(steps):
        if next(packer, packer) is packer:
            return None
    return packer


def huge_units(kind, q):
    out = []
    for setup in ('fresh', 'grown', 'packed', 'packed+'):
        if kind == 'sqlite' and setup == 'packed+':
            continue
        for style in ('zero', 'ascii') if q else ('zero', 'ascii', 'len', 'ones'):
            for h in ('H', 'MH', 'HM', 'HH') + (() if q else ('HT', 'HN', 'TH', 'HB', 'HMH')):
                if kind == 'sqlite' and q and (style == 'zero' or h == 'HM'):
                    continue
                out.append(dict(kind=kind, setup=setup, style=style, commits=h, cost=100))
    return out


def sparse(n):
    return sorted(i for i in set(range(33)) | set(range(n - 32, n + 1)) | set(
        i + j for i in range(0, n, 512) for j in (-1, 0, 1)) if 0 <= i <= n)


def offsets(unit, base, size, ends):
    """where a file of that size is cut"""
    if 'H' not in unit['commits']:
        return range(base, size + 1)
    return sorted(i for i in set(base + j for j in sparse(size - base)) | set(
        e + j for e in ends for j in range(-32, 33)) if base <= i <= size)


def pack_units(kind, q):
    """commits during a pack and after a pack by the same process"""
    out = []
    for setup in ('grown', 'packed+') if kind != 'sqlite' else ('grown', 'packed'):
        for steps in range(1, 30):
            for h in histories('MNBTSE', 1 if q else 2):
                out.append(dict(kind=kind, setup=setup, style='zero', commits=h, packing=steps, cost=len(h)))
        for h in histories('MNBTSE', 2):
            if kind != 'sqlite':
                out.append(dict(kind=kind, setup=setup, style='zero', commits='P' + h, cost=3))
                out.append(dict(kind=kind, setup=setup, style='zero', commits=h[0] + 'P' + h[1:], cost=3))
    return [u for u in out if u['commits'][-1] != 'P']


def run_history(unit, ctx, again=False):
    """Perform the commits of a history, enumerate every crash during the last one."""
    kind, style = unit['kind'], unit['style']
    d = ctx.newdir()
    img = ctx.newdir()
    try:
        ref = build(kind, unit['setup'], d, style)
        s = storages.open_storage(kind, d)
        commits = unit['commits']
        for i, k in enumerate(commits[:-1]):
            step(s, ref, k, i, style)
        packer = None
        if unit.get('packing'):
            packer = start_pack(s, unit['packing'])
            if packer is None:
                s.close()
                return
            now = dump(s)
            if now not in (ref.now, reachable(ref.now)):
                ctx.violation('%s: another state during a pack' % kind)
            ref.states[-1] = now
        initial = fslog.snapshot(d)
        step(s, ref, commits[-1], len(commits), style, lambda: fslog.start(d))
        fslog.mark(1)
        fslog.stop()
        ops = fslog.log()
        if packer is not None:
            packer.close()
        s.close()
        last = len(ref.states) - 1
        seen_img, seen = set(), set()
        ack_at = [i for i, o in enumerate(ops) if o.op == 'mark'][0]
        ctx.count('fs_calls', len(ops) - 1)
        if not [o for o in ops if o.op == 'write'] and kind != 'sqlite':
            ctx.violation('commit %s wrote nothing to the file' % commits)
        kw = {}
        if 'H' in commits and kind != 'sqlite':
            # long writes: torn near both ends and at multiples of 512
            kw = dict(torn=lambda n: [i for i in sparse(n) if 0 < i < n] if n > 1000 else range(1, n),
                      cuts=lambda steps, total: sparse(total))
        for idx, what, image in crash_list(initial, ops, ack_at, **kw):
            acked = idx >= ack_at
            key = (tuple(sorted(image.items())), acked)
            ctx.count('evaluations')
            if key in seen_img:
                continue
            seen_img.add(key)
            ctx.count('distinct_nontrivial')
            label = '%s, setup %s, commits %s (%s records), %s' % (
                kind, unit['setup'], commits, style, what)
            if packer is not None:
                label += ', while a pack was at step %d' % unit['packing']
            ctx.trail = label
            write_image(img, d, image)
            judge(ctx, kind, img, label, ref.states, last if acked else last - 1, last, seen,
                  repair=(kind != 'sqlite'), style=style)
        ctx.sample('%s %s %s: %d file system calls' % (kind, unit['setup'], commits, len(ops) - 1))
    finally:
        fslog.stop()
        ctx.rmdir(d)
        ctx.rmdir(img)


def crash_list(initial, ops, ack_at, **kw):
    # one entry is before the first call: covered by the previous history
    if any(p.endswith('.sqlite') for p in initial):
        # pages are long: tear writes at 512-byte and a few odd lengths
        kw['torn'] = lambda n: sorted({1, n // 2, n - 1} | set(range(512, n, 512)) - {0, n})
        kw['cuts'] = lambda steps, total: sorted(
            {0, 1, total - 1, total} | set(range(0, total, 512)))
    for x in fslog.crash_states(initial, ops, **kw):
        yield x


def histories(kinds, depth):
    for n in range(1, depth + 1):
        for t in itertools.product(kinds, repeat=n):
            yield ''.join(t)
