"""C22: the index structures under a shelf, and the shelf itself."""
import io
import itertools
import os

ID = 'C22'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of all operation sequences on the real structures, in lock step with builtin containers'
RULE = ('ByteArray, Byte, BitArray, WordArray, IntArray, IntSet, OffsetMap: every sequence of a given length of writes, growth, reads, '
        'over every small size, word width and position in the file, plus a sweep of all sizes around the 8, 256, '
        '8196 and 65536 boundaries; after every sequence all indexes from below -size to above size are read, iterated '
        '(also with other reads between), and the structure is opened again from its file. Shelf: every sequence of storing batches, drawing '
        'unused names, storing them, reopening, rebuilding, for 6 initial contents; then values, '
        'positions, iteration and the following unused names are compared with a dictionary.')
ASSUMPTIONS = ['slices given to ByteArray are not empty and lie inside it', 'IntSet members are not negative; IntArray values '
               'do not exceed the maximum it was made for']


def units(tier):
    q = tier == 'quick'
    out = []
    for part in ('bytes', 'bits', 'words', 'ints', 'intset', 'offsets', 'sweep', 'byte'):
        out.append(dict(part=part, q=q, cost=10))
    # a word of the offset map gets one byte more where start + largest name + 3 is 256, 65536
    for k in range(6):
        out.append(dict(part='wide', q=q, tops=list(range(k * 50, k * 50 + 50)), cost=1000))
    for k in range(65496, 65506) if q else range(65440, 65545):
        out.append(dict(part='wide', q=q, tops=[k], cost=1000))
    for base in range(6):
        for first in SHELF_OPS:
            for real in (False, True):
                out.append(dict(part='shelf', base=base, first=first, real=real,
                                depth=(3 if real or base in (0, 2, 4) else 4) if q else 5, cost=100 if real else 300))
    return out


def run(unit, ctx):
    globals()['do_' + unit['part']](unit, ctx)


def same(ctx, label, got, want):
    if got != want:
        ctx.violation('%s: got %.200r, expected %.200r' % (label, got, want))


def raises(ctx, label, f, *excs):
    try:
        got = f()
    except excs:
        return
    ctx.violation('%s: no %s but %r' % (label, excs[0].__name__, got))


class Pre(object):
    """BytesIO with something before the structure, which must stay"""

    @staticmethod
    def make(n):
        f = io.BytesIO()
        f.write(b'P' * n)
        return f


def kept(ctx, label, f, n):
    same(ctx, label + ': data before it', f.getvalue()[:n], b'P' * n)


# ----------------------------------------------------------------- arrays

def do_bytes(unit, ctx):
    from durus.utils import ByteArray
    for size in range(0, 5):
        ops = [('set', j, v) for j in (0, 1, size - 1, size, -1) for v in (b'\0', b'a', b'\xff')] + \
              [('slice', j, k, v) for j in range(3) for k in range(j + 1, 5) for v in (b'xyzw'[:k - j],)] + \
              [('grow', n, i) for n in (size, size + 1, size + 3) for i in (b'\0', b'i')]
        for pre in (0, 3):
            for seq in itertools.product(ops, repeat=2 if unit['q'] else 3):
                f = Pre.make(pre)
                a = ByteArray(size=size, file=f)
                m = [b'\0'] * size
                label = 'ByteArray(%d) at %d: %r' % (size, pre, seq)
                ctx.trail = label
                for op in seq:
                    ctx.count('transitions')
                    if op[0] == 'set':
                        j, v = op[1:]
                        if 0 <= j < len(m):
                            a[j] = v
                            m[j] = v
                        else:
                            raises(ctx, label, lambda: a.__setitem__(j, v), IndexError)
                    elif op[0] == 'slice':
                        j, k, v = op[1:]
                        if k <= len(m):
                            a[j:k] = v
                            m[j:k] = [v[i:i + 1] for i in range(len(v))]
                            raises(ctx, label, lambda: a.__setitem__(slice(j, k), v + b'x'), ValueError)
                        else:
                            raises(ctx, label, lambda: a.__setitem__(slice(j, k), v), IndexError)
                    elif op[1] >= len(m):
                        a.set_size(op[1], init_byte=op[2])
                        m += [op[2]] * (op[1] - len(m))
                examine_list(ctx, label, a, m, False)
                for j in range(len(m)):
                    for k in range(j + 1, len(m) + 1):
                        same(ctx, label, a[j:k], b''.join(m[j:k]))
                kept(ctx, label, f, pre)
                f.seek(pre)
                examine_list(ctx, label + ' reopened', ByteArray(size=len(m), file=f), m, False)
                same(ctx, label, f.getvalue()[pre:], b''.join(m))
                ctx.count('states')


def examine_list(ctx, label, a, m, negative):
    ctx.count('traces_validated_against_impl')
    same(ctx, label + ': len', len(a), len(m))
    same(ctx, label + ': iteration', list(a), m)
    got = []
    for x in a:
        got.append(x)
        if m:
            a[0], a[len(m) - 1]           # other reads meanwhile
        if len(got) > len(m):
            break
    same(ctx, label + ': iteration with other reads', got, m)
    for j in range(-len(m) - 2, len(m) + 2):
        if 0 <= j < len(m) or negative and -len(m) <= j < 0:
            same(ctx, '%s: [%d]' % (label, j), a[j], m[j])
        else:
            raises(ctx, '%s: [%d]' % (label, j), lambda: a[j], IndexError)


def do_byte(unit, ctx):
    from durus.utils import Byte
    for v in range(256):
        for how in (v, bytes([v])):
            b = Byte(how)
            bits = [int(c) for c in '{:08b}'.format(v)]
            same(ctx, 'Byte(%r)' % v, [b[j] for j in range(8)], bits)
            same(ctx, 'Byte(%r)' % v, [b[j] for j in range(-8, 0)], bits)
            for j in (-9, 8, 100):
                raises(ctx, 'Byte[%d]' % j, lambda: b[j], IndexError)
                raises(ctx, 'Byte[%d]' % j, lambda: b.__setitem__(j, 1), IndexError)
            for j in range(-8, 8):
                for x in (0, 1, True, 5):
                    c = Byte(how)
                    c[j] = x
                    want = list(bits)
                    want[j] = int(bool(x))
                    same(ctx, 'Byte(%d)[%d] = %r' % (v, j, x), [c[k] for k in range(8)], want)
                    same(ctx, 'Byte(%d)[%d] = %r' % (v, j, x), c.byte(), bytes([int(''.join(map(str, want)), 2)]))
                    same(ctx, 'Byte', int(c), int(''.join(map(str, want)), 2))
                    ctx.count('states')
                    ctx.count('transitions')
    ctx.count('traces_validated_against_impl')
    for bad in (-1, 256):
        raises(ctx, 'Byte(%d)' % bad, lambda: Byte(bad), TypeError, ValueError)


def do_bits(unit, ctx):
    from durus.utils import BitArray
    for size in (0, 1, 5, 8, 9, 16, 17):
        ops = [('set', j, v) for j in sorted({0, 1, 7, 8, size - 1, size, -1, -size, -size - 1}) for v in (0, 1)] + \
              [('grow', n) for n in (size, size + 1, size + 7, size + 8, size + 9)]
        for pre in (0, 3):
            for seq in itertools.product(ops, repeat=3):
                f = Pre.make(pre)
                a = BitArray(size, file=f)
                m = [0] * size
                label = 'BitArray(%d) at %d: %r' % (size, pre, seq)
                ctx.trail = label
                for op in seq:
                    ctx.count('transitions')
                    if op[0] == 'set':
                        j, v = op[1:]
                        if -len(m) <= j < len(m):
                            a[j] = v
                            m[j] = v
                        else:
                            raises(ctx, label, lambda: a.__setitem__(j, v), IndexError)
                    elif op[1] >= len(m):
                        a.set_size(op[1])
                        m += [0] * (op[1] - len(m))
                examine_list(ctx, label, a, m, True)
                same(ctx, label, str(a), ''.join(map(str, m)))
                same(ctx, label, a.get_size(), len(m))
                kept(ctx, label, f, pre)
                f.seek(pre)
                examine_list(ctx, label + ' reopened', BitArray(len(m), file=f), m, True)
                ctx.count('states')


def do_words(unit, ctx):
    from durus.utils import WordArray
    for width in (1, 2, 3, 8):
        for n in (0, 1, 2, 3):
            for pre in (0, 5, None):
                ops = [(j, bytes([v]) * width) for j in range(-n - 1, n + 1) for v in (0, 1, 255)]
                for seq in itertools.product(ops, repeat=2 if n < 3 else 1 + (not unit['q'])):
                    f = None if pre is None else Pre.make(pre)
                    a = WordArray(file=f, bytes_per_word=width, number_of_words=n)
                    m = [b'\0' * width] * n
                    label = 'WordArray(%d x %d): %r' % (n, width, seq)
                    ctx.trail = label
                    for j, v in seq:
                        ctx.count('transitions')
                        if -n <= j < n:
                            a[j] = v
                            m[j] = v
                            raises(ctx, label, lambda: a.__setitem__(j, v + b'x'), ValueError)
                        else:
                            raises(ctx, label, lambda: a.__setitem__(j, v), IndexError)
                    examine_list(ctx, label, a, m, True)
                    same(ctx, label, a.get_bytes_per_word(), width)
                    ctx.count('states')
                    if f is not None:
                        kept(ctx, label, f, pre)
                        # data after the array, as in a shelf file
                        f.seek(0, 2)
                        f.write(b'after')
                        f.seek(pre)
                        b = WordArray(file=f)
                        examine_list(ctx, label + ' reopened', b, m, True)
                        same(ctx, label, f.getvalue()[-5:], b'after')


def do_ints(unit, ctx):
    from durus.utils import IntArray
    for maximum in (None, 0, 1, 253, 254, 255, 256, 65534, 65535, 65536, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32):
        values = sorted({0, 1} | ({2 ** 40, 255} if maximum is None else {maximum, maximum // 2}))
        values = [v for v in values if maximum is None or v <= maximum]
        for n in (0, 1, 2, 3):
            ops = [(j, v) for j in range(-n - 1, n + 1) for v in values]
            for seq in itertools.product(ops, repeat=2):
                f = Pre.make(2)
                a = IntArray(file=f, number_of_ints=n, maximum_int=maximum)
                m = [None] * n
                label = 'IntArray(%d, max %r): %r' % (n, maximum, seq)
                ctx.trail = label
                for j, v in seq:
                    ctx.count('transitions')
                    if -n <= j < n:
                        a[j] = v
                        m[j] = v
                    else:
                        raises(ctx, label, lambda: a.__setitem__(j, v), IndexError)
                for again in (False, True):
                    if again:
                        f.seek(2)
                        a = IntArray(file=f)
                    blank = a.get_blank_value()
                    examine_list(ctx, label, a, [blank if v is None else v for v in m], True)
                    same(ctx, label, list(a.items()), [(j, v) for j, v in enumerate(m) if v is not None])
                    same(ctx, label, list(a.iteritems()), [(j, v) for j, v in enumerate(m) if v is not None])
                    for j in range(-n - 2, n + 2):
                        want = m[j] if -n <= j < n and m[j] is not None else 'no'
                        same(ctx, '%s: get(%d)' % (label, j), a.get(j, 'no'), want)
                        same(ctx, '%s: get(%d)' % (label, j), a.get(j), None if want == 'no' else want)
                if maximum is not None:
                    raises(ctx, label + ': too big', lambda: n and a.__setitem__(0, 256 * (maximum + 2)) or 1 // n,
                           ValueError, ZeroDivisionError)
                kept(ctx, label, f, 2)
                ctx.count('states')


def do_intset(unit, ctx):
    from durus.utils import IntSet
    numbers = (0, 1, 2, 7, 8, 9, 30, 1023, 1024, 5000)
    ops = [(o, n) for n in numbers for o in 'ad']
    for size in (0, 1, 7, 8, 9, 20, 1023, None):
        for seq in itertools.product(ops, repeat=3 if unit['q'] else 4):
            a = IntSet() if size is None else IntSet(size)
            m = set()
            label = 'IntSet(%r): %r' % (size, seq)
            ctx.trail = label
            for op, n in seq:
                ctx.count('transitions')
                if op == 'a':
                    a.add(n)
                    m.add(n)
                else:
                    a.discard(n)
                    m.discard(n)
            near = {x + k for x in numbers for k in (-1, 0, 1) if x + k >= 0} | {10 ** 6}
            same(ctx, label, {x for x in near if x in a}, m)
            ctx.count('states')
            ctx.count('traces_validated_against_impl')


def do_offsets(unit, ctx):
    from durus.shelf import OffsetMap
    for max_oid in (-2, -1, 0, 1, 2, 3, 5):
        size = max_oid + 2
        for pre in (1, 3, 250, 300):
            for used in itertools.chain.from_iterable(
                    itertools.combinations(range(size - 1), k) for k in range(size)):
                f = Pre.make(pre)
                a = OffsetMap(f, max_oid, pre - 1)
                label = 'OffsetMap(%d) at %d with %r' % (max_oid, pre, used)
                ctx.trail = label
                m = {}
                for i, j in enumerate(used):
                    a[j] = m[j] = (i * 100) % pre
                    ctx.count('transitions')
                for again in (False, True):
                    same(ctx, label, list(a), sorted(m))
                    same(ctx, label, list(a.items()), sorted(m.items()))
                    same(ctx, label, list(a.iteritems()), sorted(m.items()))
                    for j in range(0, size + 3):
                        same(ctx, '%s: get(%d)' % (label, j), a.get(j, 'no'), m.get(j, 'no'))
                        if j in m:
                            same(ctx, label, a[j], m[j])
                        else:
                            raises(ctx, '%s: [%d]' % (label, j), lambda: a[j], IndexError)
                    same(ctx, label, a.get_array_size(), size)
                    same(ctx, label, a.get_start(), pre)
                    if not again:
                        for _ in a.gen_stitch():
                            pass
                    same(ctx, label + ': holes', sorted(a.gen_holes()), [j for j in range(size) if j not in m])
                    f.seek(pre)
                    a = OffsetMap(f)
                    ctx.count('traces_validated_against_impl')
                kept(ctx, label, f, pre)
                ctx.count('states')


def do_sweep(unit, ctx):
    """sizes around the chunk and word boundaries"""
    from durus.utils import ByteArray, BitArray, IntSet
    sizes = list(range(8180, 8200)) + list(range(16384, 16400)) + [24588, 24589, 65535, 65536, 65537]
    for size in sizes:
        for init in (b'\0', b'\xff'):
            for first in (0, 1, 8195, 8196):
                f = io.BytesIO()
                a = ByteArray(file=f)
                a.set_size(first, b'a')
                if size < first:
                    continue
                a.set_size(size, init)
                label = 'ByteArray grown from %d to %d' % (first, size)
                ctx.trail = label
                same(ctx, label, f.getvalue(), b'a' * first + init * (size - first))
                same(ctx, label, a[size - 1], init if size > first else b'a')
                raises(ctx, label, lambda: a[size], IndexError)
                ctx.count('states')
                ctx.count('transitions')
    for n in range(0, 1400):
        s = IntSet(5)
        s.add(n)
        s.add(n + 1)
        s.discard(n)
        same(ctx, 'IntSet with %d' % n, [x for x in range(0, 1500) if x in s], [n + 1])
        b = BitArray(n)
        same(ctx, 'BitArray(%d)' % n, list(b), [0] * n)
        if n:
            b[-1] = 1
            same(ctx, 'BitArray(%d)' % n, list(b), [0] * (n - 1) + [1])
        ctx.count('states')
        ctx.count('transitions', 3)
    ctx.count('traces_validated_against_impl')


# ----------------------------------------------------------------- shelf

def name(n):
    return n.to_bytes(8, 'big')


def do_wide(unit, ctx):
    """one shelf for every largest name around the word boundaries"""
    from durus.shelf import Shelf
    from durus.file import File
    for top in unit['tops']:
        for others in ((), (0,), tuple(range(0, 40))) if top < 300 else ((),):
            for size in (0, 1, 40) if top < 300 else (0,):
                items = {name(n): b'v' * size for n in set(others) | {top} if n <= top}
                label = 'Shelf with largest name %d and %d others, values of %d bytes' % (top, len(items) - 1, size)
                ctx.trail = label
                s = Shelf(file=File(), items=sorted(items.items(), reverse=bool(top % 2)))
                same(ctx, label, dict(s.iteritems()), items)
                for n in (0, 1, top - 1, top, top + 1, top + 2, 2 ** 40):
                    if n >= 0:
                        same(ctx, label, s.get_value(name(n)), items.get(name(n)))
                if top < 300:
                    got = [s.next_name() for _ in range(top + 4 - len(items) + 3)]
                    same(ctx, label + ': unused names', sorted(got)[:top + 4 - len(items)],
                         [name(n) for n in range(top + 4) if name(n) not in items])
                s.close()
                ctx.count('states')
                ctx.count('transitions')
    ctx.count('traces_validated_against_impl')


BASES = (None, (), (0,), (0, 1, 2), (1, 3), (5, 0, 2))
SHELF_OPS = ('s0', 's1', 's2', 's13', 's45', 's01', 's9', 'e', 'n', 'N', 'u', 'r', 'p', 'd')


def do_shelf(unit, ctx):
    from durus.shelf import Shelf
    for tail in itertools.product(SHELF_OPS, repeat=unit['depth'] - 1):
        h = (unit['first'],) + tail
        if h[-1] in ('d', 'e') or any(a == b and a in 'rpd' for a, b in zip(h, h[1:])) or not unit['real'] and 'r' in h:
            continue
        if unit['real'] and 'r' not in h:
            continue
        if 'u' in h and not ('n' in h[:h.index('u')] or 'N' in h[:h.index('u')]):
            continue
        shelf(unit, ctx, h)


def shelf(unit, ctx, h):
    from durus.shelf import Shelf
    from durus.file import File
    base = BASES[unit['base']]
    label = 'shelf with %s: %s' % ('no items' if base is None else 'names %r' % (base,), ' '.join(h))
    ctx.trail = label
    d = ctx.newdir() if unit['real'] else None
    try:
        number = 0
        path = os.path.join(d, 'shelf') if d else None
        items = None if base is None else [(name(n), b'first%d' % n) for n in base]
        s = Shelf(file=File(path), items=items)
        m = dict(items or [])
        drawn = []
        unstored = []
        for op in h:
            ctx.count('transitions')
            number += 1
            if op[0] == 's':
                batch = [(name(int(c)), b'%d' % number * (int(c) * 40 + number % 2)) for c in op[1:]]
                store(ctx, label, s, m, batch)
                unstored = [n for n in unstored if n not in m]
            elif op == 'e':
                store(ctx, label, s, m, [])
            elif op == 'd':
                # a name twice in one batch
                store(ctx, label, s, m, [(name(3), b'one'), (name(3), b'two%d' % number)], True)
                unstored = [n for n in unstored if n not in m]
            elif op in 'nN':
                for _ in range(1 if op == 'n' else 4):
                    n = s.next_name()
                    if n in m or n in drawn:
                        ctx.violation('%s: next_name gives %r, which %s' % (
                            label, n, 'is used' if n in m else 'it gave before'))
                    drawn.append(n)
                    unstored.append(n)
            elif op == 'u':
                if not unstored:
                    return
                n = unstored.pop(0)
                store(ctx, label, s, m, [(n, b'new%d' % number)])
            elif op == 'r':
                s.close()
                s = Shelf(file=File(path))
                drawn, unstored = [], []
            elif op == 'p':
                # what a pack does
                new = Shelf(file=File(path + '.new' if path else None), items=s.iteritems())
                s.close()
                if path:
                    new.get_file().rename(path)
                s = new
                drawn, unstored = [], []
        check_shelf(ctx, label, s, m)
        # every unused name comes, none twice
        rest = []
        top = max([15] + [int.from_bytes(n, 'big') for n in m]) + 3
        for _ in range(top + 8):
            rest.append(s.next_name())
        same(ctx, label + ': unused names', sorted(n for n in rest + drawn if n not in m and n < name(top)),
             [name(n) for n in range(top) if name(n) not in m])
        if len(set(rest + drawn)) != len(rest + drawn) or any(n in m for n in rest):
            ctx.violation('%s: then next_name gives used names or some twice: %r' % (label, rest))
        check_shelf(ctx, label, s, m)
        s.close()
        if path:
            for ro in (True, False):
                s = Shelf(file=File(path, readonly=ro), readonly=ro)
                check_shelf(ctx, label + ' reopened', s, m)
                s.close()
        ctx.count('states')
        ctx.count('traces_validated_against_impl')
        ctx.outcome('%d names, %d drawn' % (len(m), len(drawn)))
    finally:
        if d:
            ctx.rmdir(d)


def store(ctx, label, s, m, batch, twice=False):
    before = {n: s.get_position(n) for n, v in batch}
    got = s.store(iter(batch))
    m.update(batch)
    if not twice:
        same(ctx, label + ': store', [(n, old) for n, old, new in got], [(n, before[n]) for n, v in batch])
        for n, old, new in got:
            same(ctx, label + ': store', s.get_position(n), new)
        for n, v in batch:
            if before[n] is not None:
                same(ctx, label + ': old position', s.get_item_at_position(before[n])[0], n)


def check_shelf(ctx, label, s, m):
    same(ctx, label + ': items', sorted(s.iteritems()), sorted(m.items()))
    same(ctx, label + ': items', sorted(s.items()), sorted(m.items()))
    same(ctx, label + ': names', sorted(s), sorted(m))
    same(ctx, label + ': index', sorted((n, s.get_position(n)) for n in m), sorted(s.iterindex()))
    for n in [name(i) for i in range(14)] + [name(300), name(2 ** 40), name(2 ** 64 - 1)]:
        same(ctx, '%s: value of %r' % (label, n), s.get_value(n), m.get(n))
        same(ctx, label, n in s, n in m)
        p = s.get_position(n)
        same(ctx, label, p is None, n not in m)
        if p is not None:
            same(ctx, label, s.get_item_at_position(p), (n, m[n]))
