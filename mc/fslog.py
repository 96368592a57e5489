"""File-system call log, fault injection and crash-state enumeration.

The preload shim (fsshim.c) records every mutating call below a scratch directory.
Crash states are rebuilt from the log, never guessed:

process crash   the file system after every prefix of the log, the last write torn at
                every byte length.
power failure   in addition any part of what was not yet forced to disk may be missing:
                for each file with writes since its last fsync, the appended bytes survive
                up to any length, and each in-place overwrite (of bytes already in the file)
                survives or not, independently.  Name changes survive in order.
"""
import ctypes
import itertools
import os
import struct

OPS = {1: 'create', 2: 'write', 3: 'trunc', 4: 'fsync', 5: 'rename', 6: 'link', 7: 'unlink',
       8: 'mark', 9: 'failed'}
HEAD = struct.Struct('<4I4Q')

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ['FSSHIM'])
        _lib.shim_start.argtypes = [ctypes.c_char_p]
        _lib.shim_mark.argtypes = [ctypes.c_long]
        _lib.shim_fail.argtypes = [ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_int]
        _lib.shim_opno.restype = ctypes.c_long
        _lib.shim_len.restype = ctypes.c_long
        _lib.shim_buf.restype = ctypes.c_void_p
    return _lib


def start(prefix):
    lib().shim_start(os.fsencode(prefix))
    for fd in os.listdir('/proc/self/fd'):
        try:
            target = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if target.startswith(prefix):
            lib().shim_track(int(fd), 2 if os.path.isdir(target) else 1)


def sched(w, r):
    """(in a forked process) let the owner of the other ends decide when each call happens"""
    lib().shim_sched(w, r)


def stop():
    lib().shim_stop()


def mark(n):
    lib().shim_mark(n)


def fail(at, err, partial=0, sticky=0):
    """make the at-th mutating call from now fail (0: stop failing)"""
    lib().shim_fail(at, err, partial, sticky)


def fired():
    return bool(lib().shim_fired())


def opno():
    return lib().shim_opno()


class Op(object):
    __slots__ = ('op', 'ino', 'off', 'aux', 'p1', 'p2', 'data')

    def __repr__(self):
        if self.op == 'write':
            return 'write(%d @%d +%d)' % (self.ino % 1000, self.off, len(self.data))
        if self.op in ('rename', 'link'):
            return '%s(%s -> %s)' % (self.op, os.path.basename(self.p1), os.path.basename(self.p2))
        if self.op in ('create', 'unlink'):
            return '%s(%s)' % (self.op, os.path.basename(self.p1))
        if self.op == 'mark':
            return 'mark(%d)' % self.ino
        return '%s(%d, %d)' % (self.op, self.ino % 1000, self.off)


def log():
    n = lib().shim_len()
    if not n:
        return []
    raw = ctypes.string_at(lib().shim_buf(), n)
    out = []
    i = 0
    while i < n:
        a, l1, l2, _, ino, off, aux, dl = HEAD.unpack_from(raw, i)
        i += HEAD.size
        o = Op()
        o.op = OPS[a]
        o.ino, o.off, o.aux = ino, off, aux
        if o.ino >= 1 << 63 and o.op == 'mark':
            o.ino -= 1 << 64
        o.p1 = os.fsdecode(raw[i:i + l1])
        i += l1
        o.p2 = os.fsdecode(raw[i:i + l2])
        i += l2
        o.data = raw[i:i + dl]
        i += dl
        out.append(o)
    return out


class F(object):
    """one file: its contents and what of it is not yet forced to disk"""
    __slots__ = ('data', 'synced', 'pending', 'isdir')

    def __init__(self, data=b'', isdir=False):
        self.data = bytearray(data)
        self.synced = bytes(data)
        self.pending = []        # ('w', off, data) or ('t', len), since the last fsync
        self.isdir = isdir

    def write(self, off, data):
        if off > len(self.data):
            self.data.extend(b'\0' * (off - len(self.data)))
        self.data[off:off + len(data)] = data


class FS(object):
    def __init__(self, initial):
        """initial: {path: (ino, bytes)} existing files, taken to be on disk"""
        self.names = {}
        self.inos = {}
        for path, (ino, data) in initial.items():
            f = self.inos.get(ino) or F(data)
            self.inos[ino] = f
            self.names[path] = f

    def file(self, ino):
        if ino not in self.inos:
            self.inos[ino] = F()
        return self.inos[ino]

    def apply(self, o):
        k = o.op
        if k == 'create':
            f = F(isdir=bool(o.aux))
            self.inos[o.ino] = f
            self.names[o.p1] = f
        elif k == 'write':
            f = self.file(o.ino)
            f.write(o.off, o.data)
            f.pending.append(('w', o.off, o.data))
        elif k == 'trunc':
            f = self.file(o.ino)
            if o.off < len(f.data):
                del f.data[o.off:]
            else:
                f.data.extend(b'\0' * (o.off - len(f.data)))
            f.pending.append(('t', o.off))
        elif k == 'fsync':
            f = self.file(o.ino)
            f.synced = bytes(f.data)
            del f.pending[:]
        elif k == 'rename':
            if o.p1 in self.names and o.p1 != o.p2:
                self.names[o.p2] = self.names.pop(o.p1)
        elif k == 'link':
            self.names[o.p2] = self.names[o.p1]
        elif k == 'unlink':
            self.names.pop(o.p1, None)

    def image(self, replace=None):
        """{path: bytes}"""
        out = {}
        for p, f in self.names.items():
            if not f.isdir:
                if replace and id(f) in replace:
                    out[p] = replace[id(f)]
                else:
                    out[p] = bytes(f.data)
        return out


def snapshot(d):
    """initial argument for FS"""
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            out[p] = (os.stat(p).st_ino, open(p, 'rb').read())
    return out


def survivors(f, cuts=None):
    """All contents of one file that a power failure may leave."""
    out = set()
    appended = []
    overwrites = []
    base = bytearray(f.synced)
    size = len(base)
    # A truncation orders what was written before it; treat it as surviving.
    size_now = size
    steps = []
    for p in f.pending:
        if p[0] == 't':
            steps.append(('t', p[1]))
            size_now = p[1]
        else:
            off, data = p[1], p[2]
            over = data[:max(0, size_now - off)]
            app = data[len(over):]
            if over:
                steps.append(('o', off, over))
            if app:
                steps.append(('a', off + len(over), app))
                size_now = off + len(data)
    n_over = [i for i, s in enumerate(steps) if s[0] == 'o']
    total = sum(len(s[2]) for s in steps if s[0] == 'a')
    if len(n_over) > 3:
        sets = [set(n_over[:i]) for i in range(len(n_over) + 1)] + [{i} for i in n_over]
    else:
        sets = [set(c) for r in range(len(n_over) + 1)
                for c in itertools.combinations(n_over, r)]
    lens = range(total + 1) if cuts is None else [min(c, total) for c in cuts(steps, total)]
    for keep in sets:
        for cut in lens:
            data = bytearray(base)
            left = cut
            for i, s in enumerate(steps):
                if s[0] == 't':
                    if s[1] < len(data):
                        del data[s[1]:]
                elif s[0] == 'a':
                    part = s[2][:left]
                    left -= len(part)
                    if part and s[1] <= len(data):
                        data[s[1]:s[1] + len(part)] = part
                elif i in keep:
                    part = s[2][:max(0, len(data) - s[1])]
                    if part:
                        data[s[1]:s[1] + len(part)] = part
            out.add(bytes(data))
    return out


def crash_states(initial, ops, power=True, first=0, torn=None, cuts=None):
    """Yields (index, description, image) for every crash point at or after op number
    `first`: index is the number of log entries that happened before the crash."""
    fs = FS(initial)
    for i, o in enumerate(ops):
        if i >= first:
            if o.op == 'write':
                f = fs.file(o.ino)
                if id(f) in [id(x) for x in fs.names.values()]:
                    old = bytes(f.data)
                    for n in (range(1, len(o.data)) if torn is None else torn(len(o.data))):
                        g = bytearray(old)
                        if o.off > len(g):
                            g.extend(b'\0' * (o.off - len(g)))
                        g[o.off:o.off + n] = o.data[:n]
                        yield i, 'killed inside %r after %d bytes' % (o, n), \
                            fs.image({id(f): bytes(g)})
        fs.apply(o)
        if i >= first:
            if o.op == 'mark':
                continue
            yield i + 1, 'killed after %r' % (o,), fs.image()
            if power:
                dirty = []
                for f in set(fs.names.values()):
                    if f.pending and not f.isdir:
                        dirty.append(f)
                dirty.sort(key=lambda f: min(p for p, g in fs.names.items() if g is f))
                if dirty:
                    alts = [sorted(survivors(f, cuts) | {f.synced}) for f in dirty]
                    if len(dirty) > 1:
                        # bound the product: every file alone, others kept or lost
                        combos = []
                        for k, f in enumerate(dirty):
                            for a in alts[k]:
                                for rest in itertools.product(*[
                                        (bytes(g.data), g.synced) for g in dirty[:k] + dirty[k + 1:]]):
                                    combos.append(rest[:k] + (a,) + rest[k:])
                        combos = sorted(set(combos))
                    else:
                        combos = [(a,) for a in alts[0]]
                    for c in combos:
                        yield i + 1, 'power failure after %r' % (o,), \
                            fs.image({id(f): a for f, a in zip(dirty, c)})
