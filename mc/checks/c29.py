"""C29: damage is reported, not hidden; only repair truncates."""
import os

from mc import crashlib, storages

ID = 'C29'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of all cut positions of the files of all short commit histories'
RULE = ('for every history of up to N commits over 5 commit kinds x 4 starting files x record contents x '
        '{FileStorage, FileStorage2}: the final file cut at every length from the end of its initial part, '
        'opened normally, read-only, with repair, and read-only with a missing tail; bytes before and after '
        'and the resulting state are compared with what the cut position requires.')
ASSUMPTIONS = ['damage is a missing tail']


def units(tier):
    q = tier == 'quick'
    out = []
    for kind in ('file', 'file2'):
        for setup in ('fresh', 'grown', 'packed', 'packed+'):
            for style in ('zero', 'len', 'ascii', 'ones'):
                depth = ({'zero': 3, 'len': 2}.get(style, 1)) if q else 4
                for h in crashlib.histories('MNBTS', depth):
                    out.append(dict(kind=kind, setup=setup, style=style, commits=h, cost=len(h)))
    for kind in ('file', 'file2'):
        for setup in ('fresh', 'grown', 'packed', 'packed+'):
            for style in ('zero', 'len') if q else ('zero', 'len', 'ascii', 'ones'):
                for h in ('H', 'MH', 'HM'):
                    out.append(dict(kind=kind, setup=setup, style=style, commits=h, cost=20))
    return out


def run(unit, ctx):
    kind, style = unit['kind'], unit['style']
    d = ctx.newdir()
    path = storages.path_of(kind, d)
    try:
        ref = crashlib.build(kind, unit['setup'], d, style)
        s = storages.open_storage(kind, d)
        base = os.path.getsize(path)
        ends = [base]
        for i, k in enumerate(unit['commits']):
            crashlib.step(s, ref, k, i, style)
            ends.append(os.path.getsize(path))
        s.close()
        final = open(path, 'rb').read()
        for cut in crashlib.offsets(unit, base, len(final), ends):
            data = final[:cut]
            k = max(i for i, e in enumerate(ends) if e <= cut)
            whole = cut in ends
            for kw in ({}, dict(readonly=True), dict(repair=True)):
                label = '%s, setup %s, commits %s (%s records): cut at %d of %d, opened with %s' % (
                    kind, unit['setup'], unit['commits'], style, cut, len(final), kw or 'no options')
                ctx.trail = label
                with open(path, 'wb') as f:
                    f.write(data)
                ctx.count('evaluations')
                want = data
                expect_error = not whole
                if kw.get('repair'):
                    want = final[:ends[k]]
                    expect_error = False
                try:
                    s = storages.open_storage(kind, d, **kw)
                except Exception as e:
                    if not expect_error:
                        ctx.violation('%s: %s: %s' % (label, type(e).__name__, e))
                    else:
                        ctx.outcome('refused: ' + type(e).__name__)
                else:
                    if expect_error:
                        ctx.violation('%s: the damage was not reported' % label)
                    got = crashlib.dump(s)
                    s.close()
                    ctx.eq(got, ref.states[k], label + ': records')
                    ctx.outcome('opened')
                after = open(path, 'rb').read()
                if after != want:
                    ctx.violation('%s: the file has %d bytes afterwards, %s' % (
                        label, len(after), 'expected %d' % len(want) if len(after) != len(want)
                        else 'changed in place'))
                extra = [n for n in os.listdir(d) if n != os.path.basename(path)]
                if extra:
                    ctx.violation('%s: left %s behind' % (label, extra))
        ctx.count('distinct_nontrivial', len(final) + 1 - base)
        ctx.sample('%s %s %s: %d cuts' % (kind, unit['setup'], unit['commits'], len(final) + 1 - base))
    finally:
        ctx.rmdir(d)
