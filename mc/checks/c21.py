"""C21: every copy or prefix of a data file is a usable earlier state."""
import os

from mc import crashlib, fslog, storages

ID = 'C21'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of copies: all cut lengths and all two-part non-atomic copies over all short commit histories'
NEEDS_SHIM = True
RULE = ('for every history of up to N commits over 5 commit kinds x 4 starting files x record contents x '
        '{FileStorage, FileStorage2}: the final file cut at every length from the end of its initial part '
        'on; the file as it was after every file-system call of the last commit; and every non-atomic copy '
        'made of a first part read after one call and the rest read after a later call, for every boundary '
        'offset inside the transactions. Each distinct content is opened with repair and compared with the '
        'reference states; cuts at transaction ends are also opened without repair. Bytes of earlier '
        'transactions are compared after every commit.')
ASSUMPTIONS = ['a copy reads each byte once, front to back, in at most two bursts']


def units(tier):
    q = tier == 'quick'
    out = []
    for kind in ('file', 'file2'):
        for setup in ('fresh', 'grown', 'packed', 'packed+'):
            for style in ('zero', 'len', 'ascii', 'ones'):
                depth = (2 if style in ('zero', 'len') else 1) if q else 3
                for h in crashlib.histories('MNBTS', depth):
                    out.append(dict(kind=kind, setup=setup, style=style, commits=h, cost=len(h)))
    for kind in ('file', 'file2'):
        for setup in ('fresh', 'grown', 'packed', 'packed+'):
            for style in ('zero', 'len') if q else ('zero', 'len', 'ascii', 'ones'):
                for h in ('H', 'MH', 'HM'):
                    out.append(dict(kind=kind, setup=setup, style=style, commits=h, cost=20))
    return out


def run(unit, ctx):
    kind, style = unit['kind'], unit['style']
    d = ctx.newdir()
    img = ctx.newdir()
    path = storages.path_of(kind, d)
    try:
        ref = crashlib.build(kind, unit['setup'], d, style)
        s = storages.open_storage(kind, d)
        base = os.path.getsize(path)
        ends = [base]
        fslog_files = []
        fslog.start(d)
        first = fslog.snapshot(d)
        for i, k in enumerate(unit['commits']):
            before = open(path, 'rb').read()
            crashlib.step(s, ref, k, i, style)
            now = open(path, 'rb').read()
            if now[:len(before)] != before:
                ctx.violation('%s: commit %d of %s changed bytes of earlier transactions' % (
                    kind, i + 1, unit['commits']))
            ends.append(len(now))
        fslog.stop()
        ops = fslog.log()
        s.close()
        final = open(path, 'rb').read()
        # the file after every call
        fs = fslog.FS(first)
        versions = [fs.image()[path]]
        for o in ops:
            fs.apply(o)
            v = fs.image().get(path)
            if v is not None and v != versions[-1]:
                versions.append(v)
        seen = set()
        usable = set()
        # cuts
        for cut in crashlib.offsets(unit, base, len(final), ends):
            k = max(i for i, e in enumerate(ends) if e <= cut)
            label = '%s, setup %s, commits %s (%s records): cut at %d of %d' % (
                kind, unit['setup'], unit['commits'], style, cut, len(final))
            ctx.trail = label
            ctx.count('evaluations')
            seen.add(final[:cut])
            put(img, kind, final[:cut])
            crashlib.judge(ctx, kind, img, label, ref.states, k, k, usable, style=style)
            if cut in ends:
                put(img, kind, final[:cut])
                crashlib.judge(ctx, kind, img, label + ', no repair', ref.states, k, k, set(),
                               repair=False, style=style)
        # copies made while commits run
        for a in range(len(versions)):
            for b in range(a, len(versions)):
                va, vb = versions[a], versions[b]
                for p in (crashlib.offsets(unit, base, len(va), ends) if b > a else [0]):
                    c = va[:p] + vb[p:]
                    ctx.count('evaluations')
                    if c in seen:
                        continue
                    seen.add(c)
                    label = '%s, setup %s, commits %s (%s records): copy of %d bytes after call %d, ' \
                        'the rest after call %d' % (kind, unit['setup'], unit['commits'], style, p, a, b)
                    ctx.trail = label
                    put(img, kind, c)
                    crashlib.judge(ctx, kind, img, label, ref.states, 0, len(ref.states) - 1,
                                   usable, style=style)
        ctx.count('distinct_nontrivial', len(seen))
        ctx.sample('%s %s %s: %d versions' % (kind, unit['setup'], unit['commits'], len(versions)))
    finally:
        fslog.stop()
        ctx.rmdir(d)
        ctx.rmdir(img)


def put(img, kind, data):
    with open(storages.path_of(kind, img), 'wb') as f:
        f.write(data)
