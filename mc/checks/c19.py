"""C19: the server survives its clients, and packet boundaries mean nothing."""
import itertools
import os
import signal
import socket
import struct
import time
import zlib

from mc import core, storages

ID = 'C19'
LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of connection failures (every byte of every request and response), malformed '
             'requests and packet boundaries on the real server and client over in-memory sockets')
RULE = ('the real serve() loop and client over sockets of the harness. A failing client sends every prefix of every request '
        'and then closes, half-closes, resets or times out, or its responses break at every byte; it sends every mutation of '
        'the length fields of a commit, every truncation of it, every one and two byte string; meanwhile a bystander with '
        'cached objects goes on, with and without a pack in progress. For the packet boundaries, a client program runs with '
        'both streams cut at every position, in both directions. On real sockets of each family, own or inherited, a client stops '
        'in the middle of each request or does not read its response. A state is one execution.')
ASSUMPTIONS = ['the quit command is meant to stop the server',
               'the server does not look into the records it is given: a client that commits garbage makes those objects unusable']

KINDS = ('mem', 'file', 'file2', 'sqlite')
MODES = ('close', 'half-close', 'reset', 'timeout')
CONTEXTS = ('plain', 'invalid', 'packing')
FAMILIES = ('path', 'abstract', 'inet', 'inet6')


def units(tier):
    q = tier == 'quick'
    out = []
    for kind in KINDS:
        parts = 4 if q else 16
        for part in range(parts):
            out.append(dict(what='breaks', kind=kind, part=part, parts=parts, quick=q and kind != 'mem', half=q, cost=5))
            out.append(dict(what='malformed', kind=kind, part=part, parts=parts, quick=q and kind != 'mem', cost=5))
        out.append(dict(what='two', kind=kind))
        out.append(dict(what='accept', kind=kind))
        if kind == 'mem' or not q:
            out.append(dict(what='client', kind=kind, cost=3))
    for side in ('client recv', 'client send', 'server recv', 'server send'):
        for kind in ('mem',) if q else KINDS:
            for part in range(2 if q else 4):
                out.append(dict(what='split', kind=kind, side=side, part=part, parts=2 if q else 4, cost=4))
    for part in range(8):
        out.append(dict(what='short', kind='mem', part=part, parts=8, quick=q, cost=3))
    # what the server logs, and looks at for that, must not matter
    for part in range(4):
        out.append(dict(what='malformed', kind='mem', part=part, parts=4, quick=q, verbose=True, cost=5))
    out.append(dict(what='two', kind='mem', verbose=True))
    for kind in ('mem', 'file'):
        for first in range(len(ODD)):
            out.append(dict(what='odd', kind=kind, first=first, depth=2 if q or kind == 'file' else 3, verbose=True, cost=2))
    for side in ('client recv', 'client send', 'server recv', 'server send'):
        out.append(dict(what='large', kind='mem', side=side, cost=2))
    for family in FAMILIES:
        for given in (False, True):
            out.append(dict(what='stall', family=family, given=given, cost=9))
    return out


def setup(mode):
    global P
    from mc import netlib
    from mc.pclasses import P
    netlib.allow_threads()


class Scene(object):
    """a server, a bystander that has everything cached, and the connection of the client that fails"""

    def __init__(self, ctx, kind, context):
        from durus.connection import Connection
        from mc.netlib import Net
        self.ctx, self.kind = ctx, kind
        self.dir = ctx.newdir() if kind in storages.DISK else None
        self.storage = storages.open_storage(kind, self.dir)
        c = Connection(self.storage)
        r = c.get_root()
        r['x'], r['y'], r['g'] = P(), P(), P()
        r['x'].v = r['y'].v = 0
        c.commit()
        self.garbage = r['g']._p_oid
        del r['g']
        c.commit()
        self.root, self.x, self.y = r._p_oid, r['x']._p_oid, r['y']._p_oid
        del c, r
        self.net = Net(self.storage)
        self.b = Connection(self.net.client())
        r = self.b.get_root()
        self.bx, self.by = r['x'], r['y']
        self.bx.v, self.by.v
        # an oid that belongs to the bystander
        self.foreign = self.b.new_oid()
        self.e = self.net.connect()
        self.s = self.e.peer
        self.e.send(b'M\x02')
        self.net.run()
        got = self.e.recv(16)
        self.new = [got[:8], got[8:]]
        if context == 'invalid':
            self.by.v = 7
            self.b.commit()
        if context == 'packing':
            self.b.pack()
            self.net.pack_step()
            self.net.pack_step()
        self.state = self.stored()

    def stored(self):
        out = {}
        for oid in [self.root, self.x, self.y] + self.new + [self.foreign]:
            try:
                out[oid] = self.storage.load(oid)
            except KeyError:
                out[oid] = None
        return out

    def record(self, oid, value, refs=()):
        import pickle
        from durus.serialize import pack_record
        data = pickle.dumps(P, 2) + pickle.dumps({'v': value}, 2)
        return pack_record(oid, data, b''.join(refs))

    def close(self):
        self.net.kill()
        self.b = None
        self.storage.close()
        if self.dir:
            self.ctx.rmdir(self.dir)


def frame(oid, record):
    return struct.pack('>L', 8 + len(record)) + oid + record


def commit(*frames):
    t = b''.join(frames)
    return b'C' + struct.pack('>L', len(t)) + t


def requests(sc):
    """(name, bytes)"""
    missing = struct.pack('>Q', 200)
    rx, ry = sc.record(sc.x, 5), sc.record(sc.y, 6)
    n0, n1 = sc.new
    return [
        ('N', b'N'), ('M0', b'M\x00'), ('M1', b'M\x01'), ('M32', b'M\x20'), ('M255', b'M\xff'),
        ('L', b'L' + sc.x), ('Ly', b'L' + sc.y), ('L missing', b'L' + missing), ('L large', b'L' + b'\xff' * 8),
        ('B0', b'B\0\0\0\0'), ('B1', b'B\0\0\0\1' + sc.y), ('B4', b'B\0\0\0\4' + sc.x + missing + sc.y + sc.root),
        ('S', b'S'), ('P', b'P'), ('V', b'V\0\0\0\1'), ('V2', b'V\0\0\0\2'), ('.', b'.'),
        ('C0', commit()), ('Cx', commit(frame(sc.x, rx))), ('Cxy', commit(frame(sc.x, rx), frame(sc.y, ry))),
        ('Cnew', commit(frame(sc.x, sc.record(sc.x, 5, [n0, n1])), frame(n0, sc.record(n0, 8)), frame(n1, sc.record(n1, 9)))),
        ('CC', commit(frame(sc.x, rx)) + commit(frame(sc.x, sc.record(sc.x, 55)))),
        ('NCLS', b'N' + commit(frame(sc.y, ry)) + b'L' + sc.y + b'S'),
        ('C foreign', commit(frame(sc.x, rx), frame(sc.foreign, sc.record(sc.foreign, 3)))),
    ]


def effect(sc, data, partly=False):
    """the states that the commits in these bytes may lead to, by a parser of our own;
    with partly, the server may have stopped before any of the requests"""
    st = dict(sc.state)
    before = [st]
    i = 0

    def take(n):
        nonlocal i
        if len(data) - i < n:
            return None
        i += n
        return data[i - n:i]
    while i < len(data):
        c = take(1)
        if c in b'NSP':
            continue
        if c in b'MLV':
            a = take({b'M': 1, b'L': 8, b'V': 4}[c])
            if a is None or c == b'V' and a != b'\0\0\0\1':
                break
            continue
        if c == b'B':
            a = take(4)
            if a is None or take(8 * struct.unpack('>L', a)[0]) is None:
                break
            continue
        if c != b'C':
            break
        a = take(4)
        t = a and take(struct.unpack('>L', a)[0])
        if t is None:
            break
        frames = decode(t)
        if frames is None:
            break
        new = dict(st)
        sure = True
        seen = set()
        for oid, record in frames:
            if oid == sc.foreign:
                new = None
                break
            if oid in seen or oid not in sc.state or record[:8] != oid or len(record) < 12:
                sure = False    # nonsense that the storage may or may not reject
            seen.add(oid)
            if oid not in sc.state:
                continue
            new[oid] = record
            if not sane(sc, {oid: record}):
                new[oid] = Junk()       # what the storage makes of it is its business
        if new is None:
            break
        if not sure:
            return before + [new]
        st = new
        before = before + [st] if partly else [st]
    return before


class Junk(object):
    """equal to any record"""

    def __eq__(self, other):
        return other is not None

    __hash__ = None


def sane(sc, st):
    for oid, record in st.items():
        if record is None or record == sc.state.get(oid):
            continue
        if record[:8] != oid or len(record) < 12:
            return False
        n = 12 + struct.unpack('>L', record[8:12])[0]
        if n > len(record) or (len(record) - n) % 8:
            return False
        if len(st) > 1 and any(st.get(record[k:k + 8]) is None for k in range(n, len(record), 8)):
            return False
    return True


def decode(t):
    out = []
    i = 0
    while i < len(t):
        if len(t) - i < 12:
            return None
        n, = struct.unpack('>L', t[i:i + 4])
        if n < 8 or len(t) - i - 4 < n:
            return None
        out.append((t[i + 4:i + 12], t[i + 12:i + 4 + n]))
        i += 4 + n
    return out


def send(sc, data):
    """the server may drop the connection before it has everything"""
    try:
        sc.e.send(data)
    except BrokenPipeError:
        pass


def fail(sc, mode):
    if mode == 'close':
        sc.e.close()
    elif mode == 'half-close':
        sc.e.shutdown(1)
    elif mode == 'reset':
        sc.s.fault = ConnectionResetError(104, 'Connection reset by peer')
    elif mode == 'timeout':
        sc.s.fault = socket.timeout('timed out')
    else:
        raise ValueError(mode)


def aftermath(sc, allowed, how, strict=True):
    """the others must not notice anything but a complete commit"""
    from durus.error import ConflictError
    ctx, net = sc.ctx, sc.net
    before = sc.state
    if how == 'commit':
        # (otherwise the server gets its request together with the failure)
        net.run()
        # the bystander goes on with what it has in its cache
        sc.bx.v = sc.bx.v + 100
        try:
            sc.b.commit()
            conflict = False
        except ConflictError:
            conflict = True
            sc.b.abort()
    else:
        conflict = None
        sc.b.abort()
        net.run()
        sc.b.abort()
    net.run()
    ctx.check(not net.done, 'the server died: %s', (net.died or '')[-900:])
    ctx.check(sc.s.closed, 'the server kept the broken connection')
    now = sc.stored()
    mine = {}
    if how == 'commit' and not conflict:
        # its own commit is on top
        mine[sc.x] = now[sc.x]
        ctx.check(any(a[sc.x] == before[sc.x] for a in allowed),
                  'no conflict with the commit of the other client')
        for a in allowed:
            if a[sc.x] == before[sc.x] and all(now[o] == a[o] for o in a if o not in mine):
                break
        else:
            ctx.violation('lost update, or a partial commit: %r', detail=repr(now))
    else:
        if now not in allowed:
            ctx.violation('stored objects after the failure: %s, allowed %s' % (
                brief(sc, now), [brief(sc, a) for a in allowed]))
        if conflict:
            ctx.check(now[sc.x] != before[sc.x] or now[sc.y] != before[sc.y], 'a conflict with nothing')
    # what the bystander sees
    look(sc, now)
    # packs still work
    sc.b.pack()
    while net.pack_step():
        pass
    ctx.check(not net.done, 'the server died in the pack: %s', (net.died or '')[-900:])
    if strict and sc.kind in storages.DISK and sane(sc, now):
        sc.b.pack()
        while net.pack_step():
            pass
        try:
            sc.storage.load(sc.garbage)
            ctx.check(False, 'the pack did not remove the garbage')
        except KeyError:
            pass
    # a new client, and a new commit
    from durus.connection import Connection
    c = Connection(net.client())
    r = c.get_root()
    ctx.eq((r['x'].v, r['y'].v), (sc.bx.v, sc.by.v), 'a new client')
    r['y'].v = 1000
    r['z'] = P()
    c.commit()
    sc.b.abort()
    ctx.eq(sc.by.v, 1000, 'the next commit, seen by the bystander')
    ctx.eq(sc.b.get_root()['z']._p_oid, r['z']._p_oid, 'new object')
    sc.by.v = 1001
    sc.b.commit()
    c.abort()
    ctx.eq(r['y'].v, 1001, 'the commit of the bystander')
    ctx.check(not net.done, 'the server died: %s', (net.died or '')[-900:])


def value(record):
    import io
    import pickle
    from durus.serialize import unpack_record
    f = io.BytesIO(unpack_record(record)[1])
    pickle.load(f)
    state = f.read()
    if state[:1] == b'x':
        state = zlib.decompress(state)
    return pickle.loads(state)['v']


def brief(sc, st):
    out = {}
    for o, n in ((sc.x, 'x'), (sc.y, 'y'), (sc.new[0], 'n0'), (sc.new[1], 'n1'), (sc.foreign, 'foreign')):
        try:
            out[n] = value(st[o]) if st[o] else None
        except Exception:
            out[n] = st[o]
    return out


def look(sc, now):
    for o, want in ((sc.bx, now[sc.x]), (sc.by, now[sc.y])):
        try:
            want = value(want)
        except Exception:
            continue        # garbage was committed
        sc.ctx.eq(o.v, want, 'what the bystander sees')


def execute(ctx, unit, context, name, data, mode, how, sent=None, broken=None):
    """sent: number of bytes sent before the failure; broken: the response breaks after that many bytes"""
    from mc.netlib import Stuck
    sc = Scene(ctx, unit['kind'], context)
    if callable(data):
        data = data(sc)
    ctx.trail = dict(kind=unit['kind'], context=context, request=name, bytes=data[:300], sent=sent, mode=mode, broken=broken, then=how)
    ctx.count('states')
    ctx.count('transitions')
    ctx.count('traces_validated_against_impl')
    try:
        part = data if sent is None else data[:sent]
        allowed = effect(sc, part)
        if broken is not None:
            sc.s.send_fault = (broken, dict(reset=ConnectionResetError(104, 'Connection reset by peer'),
                                            timeout=socket.timeout('timed out'), close=BrokenPipeError(32, 'Broken pipe'))[mode])
            allowed = effect(sc, part, True)
            send(sc, part)
            sc.net.run()
            fail(sc, 'close')
        else:
            send(sc, part)
            if mode == 'half-close' and sent is not None and sent % 2:
                sc.net.run()
            if mode == 'close':
                # the server may find out while it answers, and not get to the rest
                allowed = effect(sc, part, True)
            fail(sc, mode)
        try:
            aftermath(sc, allowed, how)
        except Stuck:
            ctx.check(not sc.net.done, 'the server died: %s', (sc.net.died or '')[-900:])
            ctx.violation('the bystander gets no answer')
    finally:
        sc.close()


def names(ctx, unit):
    sc = Scene(ctx, 'mem', 'plain')
    try:
        return [(n, len(d)) for n, d in requests(sc)]
    finally:
        sc.close()


_cache = {}


def cached(f, sc):
    key = f, sc.x, sc.y, sc.root, tuple(sc.new), sc.foreign
    if key not in _cache:
        _cache[key] = dict(f(sc))
    return _cache[key]


def picker(n):
    return lambda sc: cached(requests, sc)[n]


def breaks(ctx, unit):
    k = 0
    contexts = CONTEXTS if unit['kind'] not in ('mem',) else CONTEXTS[:2]
    for name, length in names(ctx, unit):
        for context in contexts:
            # the request
            for sent in range(length + 1):
                for mode in MODES:
                    for how in ('abort', 'commit'):
                        k += 1
                        if k // 2 % unit['parts'] != unit['part']:
                            continue
                        if unit['half'] and (sent + MODES.index(mode) + k) % 2:
                            continue
                        if unit['quick'] and (sent > 20 and sent < length - 2 and sent % 7 or mode in ('reset', 'timeout')
                                              and sent not in (0, 1, 6, length)):
                            continue
                        execute(ctx, unit, context, name, picker(name), mode, how, sent=sent)
            # the response
            total = response_length(ctx, unit, context, name)
            for broken in range(total):
                for mode in ('close', 'reset', 'timeout'):
                    for how in ('abort', 'commit'):
                        k += 1
                        if k // 2 % unit['parts'] != unit['part']:
                            continue
                        if unit['half'] and (broken + k) % 2:
                            continue
                        if unit['quick'] and mode != 'close' and broken not in (0, 4, total - 1):
                            continue
                        if broken > 40 and broken < total - 8 and (unit['quick'] and broken % 37 or name in ('M32', 'M255') and broken % 8 > 1):
                            continue
                        execute(ctx, unit, context, name, picker(name), mode, how, broken=broken)


def response_length(ctx, unit, context, name):
    sc = Scene(ctx, unit['kind'], context)
    try:
        send(sc, picker(name)(sc))
        sc.net.run()
        return len(sc.e.inbuf)
    finally:
        sc.close()


LENGTHS = (0, 1, 3, 4, 7, 8, 9, 11, 12)


def malformations(sc):
    """(name, bytes)"""
    rx, ry = sc.record(sc.x, 5), sc.record(sc.y, 6)
    fx, fy = frame(sc.x, rx), frame(sc.y, ry)
    t = fx + fy
    # every truncation of the data, with a fitting length
    for k in range(1, len(t)):
        yield 'cut%d' % k, b'C' + struct.pack('>L', k) + t[:k]
    for k in range(1, 14):
        for fill in (b'\0', b'\xff'):
            yield 'extra%d%r' % (k, fill), b'C' + struct.pack('>L', len(t) + k) + t + fill * k
    # every interesting length of either record, and of the whole
    for which, true in ((0, 8 + len(rx)), (1, 8 + len(ry))):
        for n in LENGTHS + (true - 8, true - 4, true - 1, true + 1, true + 4, true + 12, len(t) - 4, len(t),
                            2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
            m = struct.pack('>L', n)
            u = (m + fx[4:] + fy) if which == 0 else fx + m + fy[4:]
            yield 'rlen%d=%d' % (which, n), b'C' + struct.pack('>L', len(u)) + u
    for n in (len(t) + 1, len(t) + 1000, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1):
        yield 'len=%d' % n, b'C' + struct.pack('>L', n) + t
        yield 'B%d' % n, b'B' + struct.pack('>L', n) + sc.x
    # records
    for size in range(0, 24):
        yield 'record%d' % size, commit(fx, frame(sc.new[0], b'\xff' * size))
        yield 'zeros%d' % size, commit(fx, frame(sc.new[0], (sc.new[0] + bytes(24))[:size]))
    for size in range(0, len(rx)):
        yield 'short%d' % size, commit(frame(sc.new[0], sc.record(sc.new[0], 1)[:size]), fx)
    yield 'ragged', commit(frame(sc.new[0], sc.record(sc.new[0], 1, [b'abc'])), fx)
    # oids
    for other in (struct.pack('>Q', 999), struct.pack('>Q', 2 ** 31), struct.pack('>Q', 2 ** 32), struct.pack('>Q', 2 ** 63 - 1),
                  struct.pack('>Q', 2 ** 63), b'\xff' * 8):
        yield 'oid%r' % other, commit(fx, frame(other, sc.record(other, 3)))
        yield 'oid%r first' % other, commit(frame(other, sc.record(other, 3)), fx)
    # (dangling references to much larger oids make the bitmap of a pack use all the memory)
    yield 'dangling', commit(frame(sc.new[0], sc.record(sc.new[0], 3, [struct.pack('>Q', 999)])), fx)
    yield 'twice', commit(fx, frame(sc.x, sc.record(sc.x, 66)))
    yield 'foreign', commit(fx, frame(sc.foreign, sc.record(sc.foreign, 3)))
    yield 'foreign first', commit(frame(sc.foreign, sc.record(sc.foreign, 3)), fx)


def malformed(ctx, unit):
    sc = Scene(ctx, 'mem', 'plain')
    try:
        cases = [n for n, d in malformations(sc)]
    finally:
        sc.close()
    k = 0
    for name in cases:
        for context in CONTEXTS:
            for mode in ('half-close', 'close') if not unit['quick'] else ('half-close',):
                for how in ('abort', 'commit'):
                    k += 1
                    if k % unit['parts'] != unit['part']:
                        continue
                    if unit['quick'] and context == 'invalid' and how == 'abort':
                        continue
                    execute(ctx, unit, context, name, lambda sc: cached(malformations, sc)[name], mode, how)


def two(ctx, unit):
    """two clients fail in the same round, while the bystander's request waits"""
    from mc.netlib import Stuck
    for name1, name2 in itertools.product(('N', 'L', 'Cx', 'C foreign', 'P', 'B4', '.'), repeat=2):
        for m1, m2 in itertools.product(('close', 'half-close', 'reset'), repeat=2):
            for cut in (0, 1):
                for context in ('plain', 'packing'):
                    sc = Scene(ctx, unit['kind'], context)
                    ctx.trail = dict(kind=unit['kind'], requests=(name1, name2), modes=(m1, m2), cut=cut, context=context)
                    ctx.count('states')
                    ctx.count('transitions')
                    ctx.count('traces_validated_against_impl')
                    try:
                        first = sc.e, sc.s
                        second = sc.net.connect()
                        states = [sc.state]
                        for (e, s), name, mode in ((first, name1, m1), ((second, second.peer), name2, m2)):
                            data = picker(name)(sc)
                            data = data[:len(data) - cut]
                            for a in effect(sc, data):
                                states.append(a)
                            sc.e, sc.s = e, s
                            send(sc, data)
                            fail(sc, mode)
                        sc.e, sc.s = first
                        try:
                            aftermath(sc, states, 'abort')
                        except Stuck:
                            ctx.check(not sc.net.done, 'the server died: %s', (sc.net.died or '')[-900:])
                            ctx.violation('the bystander gets no answer')
                        ctx.check(second.peer.closed, 'the server kept the second connection')
                    finally:
                        sc.close()


def accept(ctx, unit):
    """clients that are gone before they are accepted"""
    from mc.netlib import Stuck
    for fault in (ConnectionAbortedError(103, 'Software caused connection abort'), OSError(22, 'Invalid argument'),
                  ConnectionResetError(104, 'Connection reset by peer'), 'option', 'close', 'close2'):
        for context in CONTEXTS:
            for how in ('abort', 'commit'):
                sc = Scene(ctx, unit['kind'], context)
                ctx.trail = dict(kind=unit['kind'], fault=repr(fault), context=context, then=how)
                ctx.count('states')
                ctx.count('transitions')
                ctx.count('traces_validated_against_impl')
                try:
                    e = sc.net.connect()
                    if fault == 'option':
                        e.peer.option_fault = OSError(22, 'Invalid argument')
                    elif fault == 'close':
                        e.close()
                    elif fault == 'close2':
                        e.send(b'L')
                        e.close()
                    else:
                        sc.net.listener.fault = fault
                    sc.e.close()
                    try:
                        aftermath(sc, [sc.state], how)
                    except Stuck:
                        ctx.check(not sc.net.done, 'the server died: %s', (sc.net.died or '')[-900:])
                        ctx.violation('the bystander gets no answer')
                    ctx.check(e.peer.closed, 'the server kept a dead connection')
                finally:
                    sc.close()


def short(ctx, unit):
    """every string of one and two bytes (three bytes over the command letters)"""
    letters = sorted(set(b'NMLCSPBV.QX\0\1\2\xff'))
    first = range(256)
    for a in first:
        if a % unit['parts'] != unit['part'] or a == ord('Q'):
            continue
        sc = Scene(ctx, unit['kind'], 'plain')
        try:
            for rest in itertools.chain([b''], (bytes([b]) for b in range(256)),
                                        (bytes(t) for t in itertools.product(letters, repeat=2)) if not unit['quick'] or a in letters else ()):
                if b'Q' in rest:
                    continue
                data = bytes([a]) + rest
                ctx.trail = dict(bytes=data)
                e = sc.net.connect()
                sc.net.run()
                try:
                    e.send(data)
                except BrokenPipeError:
                    pass
                e.shutdown(1)
                sc.net.run()
                ctx.count('states')
                ctx.count('transitions')
                ctx.count('traces_validated_against_impl')
                ctx.check(not sc.net.done, 'the server died: %s', (sc.net.died or '')[-900:])
                ctx.check(e.peer.closed, 'the server kept the connection')
            while sc.net.pack_step():
                pass
            sc.e.close()
            aftermath(sc, [sc.state], 'commit', strict=False)
        finally:
            sc.close()


# ------------------------------------------------------------------ packet boundaries

class Cut(object):
    """deliver at most so many bytes that position t of the stream is the end of a packet; t None: single bytes"""

    def __init__(self, t):
        self.t, self.n = t, 0

    def __call__(self, n):
        if self.t is None:
            k = 1
        elif isinstance(self.t, tuple):
            k = self.t[0]
        elif self.n < self.t < self.n + n:
            k = self.t - self.n
        else:
            k = n
        self.n += min(k, n)
        return k


def program(ctx, kind, side, t):
    """everything a client does, with its connection cut -> what it and the others saw, bytes per direction"""
    from durus.client_storage import ClientStorage
    from durus.connection import Connection
    from durus.error import ConflictError, ReadConflictError
    sc = Scene(ctx, kind, 'plain')
    net = sc.net
    out = []
    try:
        connect = net.connect
        ends = []

        def cut_connect():
            e = connect()
            if e is not None and not ends:
                ends.append(e)
                e.count = [0, 0]
                end = e if side.startswith('client') else e.peer
                if side.endswith('recv'):
                    end.recv_chunk = Cut(t)
                else:
                    end.send_chunk = Cut(t)
            return e
        net.connect = cut_connect
        s = ClientStorage(address=net.address)
        c = Connection(s)
        r = c.get_root()
        out.append((r['x'].v, r['y'].v))
        # others change something
        sc.by.v = 3
        sc.b.commit()
        r['x'].v = 'hidden'
        c.abort()
        out.append((r['x'].v, r['y'].v))
        sc.by.v = 4
        sc.b.commit()
        r['y'].v = 5
        try:
            c.commit()
            out.append('no conflict')
        except ConflictError:
            out.append('conflict')
            c.abort()
        out.append(r['y'].v)
        # a commit with invalidations of something it has not used
        c.abort()
        sc.by.v = 6
        sc.b.commit()
        r['n'] = [P() for i in range(3)]
        for i, o in enumerate(r['n']):
            o.text = 'x' * 30 * i
        c.commit()
        out.append([o._p_oid for o in r['n']])
        out.append(r['y'].v)
        # the storage interface
        s.sync()
        out.append(list(s.bulk_load([sc.x, sc.y, r['n'][1]._p_oid])))
        try:
            s.load(struct.pack('>Q', 777))
        except KeyError as e:
            out.append(type(e).__name__)
        sc.by.v = 8
        sc.b.commit()
        for f in (lambda: s.load(sc.y), lambda: list(s.bulk_load([sc.x, sc.y, struct.pack('>Q', 777), sc.root]))):
            try:
                out.append(f())
            except (KeyError, ReadConflictError) as e:
                out.append(type(e).__name__)
        out.append(s.sync())
        out.append(s.sync())
        out.append([s.new_oid() for i in range(40)])
        s.pack()
        while net.pack_step():
            pass
        s.begin()
        s.end()
        c.abort()
        out.append((r['x'].v, r['y'].v, [o.text for o in r['n']]))
        s.close()
        net.run()
        out.append(ends[0].peer.closed)
        net.check_alive()
        sc.b.abort()
        b = sc.b.get_root()
        out.append((b['x'].v, b['y'].v, [o.text for o in b['n']]))
        return out
    finally:
        sc.close()


def split(ctx, unit):
    """where the stream ends is found by going on until a cut makes no difference any more"""
    kind, side = unit['kind'], unit['side']
    want = program(ctx, kind, 'client recv', 10 ** 9)
    for t in (None, (2,), (3,), (7,)):
        one(ctx, kind, side, t, want)
    total = [0]
    real = Cut.__call__

    def counting(self, n):
        k = real(self, n)
        total[0] = max(total[0], self.n)
        return k
    Cut.__call__ = counting
    try:
        program(ctx, kind, side, 10 ** 9)
    finally:
        Cut.__call__ = real
    ctx.check(total[0] > 200, 'stream length (harness)')
    for t in range(1, total[0]):
        if t % unit['parts'] == unit['part']:
            one(ctx, kind, side, t, want)


def one(ctx, kind, side, t, want):
    ctx.trail = dict(kind=kind, side=side, cut=t)
    ctx.count('states')
    ctx.count('transitions')
    ctx.count('traces_validated_against_impl')
    ctx.eq(program(ctx, kind, side, t), want, 'client program with the stream cut')


def large(ctx, unit):
    """records of more than a megabyte, larger than one read"""
    from durus.client_storage import ClientStorage
    from durus.connection import Connection
    side = unit['side']
    for size in (999900, 1000000, 1000100, 2000000, 2500000):
        for t in (10 ** 9, 1, 5, 999999, 1000000, 1000001, (65536,), (999999,)):
            sc = Scene(ctx, unit['kind'], 'plain')
            ctx.trail = dict(side=side, size=size, cut=t)
            ctx.count('states')
            ctx.count('transitions')
            ctx.count('traces_validated_against_impl')
            try:
                for reading in (False, True):
                    s = ClientStorage(address=sc.net.address)
                    e = s.s
                    end = e if side.startswith('client') else e.peer
                    setattr(end, 'recv_chunk' if side.endswith('recv') else 'send_chunk', Cut(t))
                    c = Connection(s)
                    r = c.get_root()
                    if not reading:
                        r['x'].text = 'abcdefg' * (size // 7)
                        c.commit()
                        sc.b.abort()
                    ctx.check(r['x'].text == 'abcdefg' * (size // 7), 'large record')
                ctx.check(sc.bx.text == 'abcdefg' * (size // 7), 'large record, by the bystander')
            finally:
                sc.close()


# ------------------------------------------------------------------ the server fails

OPERATIONS = dict(
    connect=None,
    load=lambda sc, s: s.load(sc.x),
    bulk=lambda sc, s: list(s.bulk_load([sc.x, sc.root])),
    bulk2=lambda sc, s: list(s.bulk_load([sc.x, sc.y])),
    sync=lambda sc, s: s.sync(),
    oid=lambda sc, s: s.new_oid(),
    pack=lambda sc, s: s.pack(),
    commit=lambda sc, s: (s.begin(), s.store(sc.x, sc.record(sc.x, 5)), s.end(lambda oids: None))[2])


def client(ctx, unit):
    """the answers break off at every byte: the client raises, and never makes up a result"""
    for name in sorted(OPERATIONS):
        for context in ('plain', 'invalid'):
            want = broken_answer(ctx, unit['kind'], name, context, 10 ** 9, 'close')
            at = 0
            while True:
                ends = set()
                for mode in ('close', 'reset', 'timeout'):
                    got = broken_answer(ctx, unit['kind'], name, context, at, mode)
                    if got[0] != 'broken':
                        ctx.eq(got, want, 'the result')
                    ends.add(got[0])
                ctx.eq(len(ends), 1, 'kinds of ends')
                if got[0] != 'broken':
                    break
                at += 1
            ctx.check(at > 0, 'answer length (harness)')


def broken_answer(ctx, kind, name, context, at, mode):
    from durus.client_storage import ClientStorage
    from durus.error import ReadConflictError
    sc = Scene(ctx, kind, context)
    try:
        op = OPERATIONS[name]
        ctx.trail = dict(kind=kind, operation=name, after=at, mode=mode, context=context)
        ctx.count('states')
        ctx.count('transitions')
        ctx.count('traces_validated_against_impl')
        exc = dict(close=None, reset=ConnectionResetError(104, 'reset'), timeout=socket.timeout('timed out'))[mode]
        connect = sc.net.connect

        def arm(e):
            e.peer.send_fault = (at, BrokenPipeError(32, 'Broken pipe'))
            real = e.recv

            def recv(n, flags=0):
                if not e._avail():
                    sc.net.run()
                if not e._avail() or not e.inbuf:
                    if exc is not None:
                        raise exc
                    return b''
                return real(n)
            e.recv = recv
            return e
        if op is None:
            sc.net.connect = lambda: arm(connect())
        else:
            s = ClientStorage(address=sc.net.address)
            if context == 'invalid':
                sc.by.v = 9
                sc.b.commit()
            arm(s.s)
        try:
            if op is None:
                s = ClientStorage(address=sc.net.address)
                return ('connected', s.s.peer.closed)
            return ('result', op(sc, s))
        except ReadConflictError as e:
            return ('conflict', list(e.args[0]))      # the answer was complete
        except (OSError, EOFError):
            return ('broken',)
    finally:
        sc.close()


# records: data with 0, 1, 2 and 3 lines, and ones that are too short for any
ODD = [b'', b'x', b'\n', b'a\nb', b'a\nb\nc', b'a\nb\nc\nd', b'\xff\xfe\n\xff\n', None, 0, 5]


def odd_record(oid, what):
    if what is None:
        return b''
    if isinstance(what, int):
        return oid + b'\0' * what
    return oid + struct.pack('>L', len(what)) + what


def odd(ctx, unit):
    """a client stores records that are no pickles; it and the bystander load them, and go on"""
    ops = ['L0', 'L1', 'Lx', 'B', 'S', 'C', 'bx', 'bC', 'b0']
    seconds = [i for i in range(len(ODD)) if i == unit['first'] or i in (1, 4)]
    for second in seconds:
        for n in range(unit['depth'] + 1):
            for seq in itertools.product(ops, repeat=n):
                odd_history(ctx, unit, second, seq)


def odd_history(ctx, unit, second, seq):
    from mc.netlib import Stuck
    sc = Scene(ctx, unit['kind'], 'plain')
    ctx.trail = dict(kind=unit['kind'], records=[ODD[unit['first']], ODD[second]], history=seq)
    ctx.count('states')
    ctx.count('transitions', len(seq) + 2)
    ctx.count('traces_validated_against_impl')
    try:
        recs = [odd_record(sc.new[0], ODD[unit['first']]), odd_record(sc.new[1], ODD[second])]

        def ask(data):
            sc.e.send(data)
            sc.net.run()
            ctx.check(not sc.net.done, 'the server died: %s', (sc.net.died or '')[-900:])
            out = bytes(sc.e.inbuf)
            del sc.e.inbuf[:]
            return out

        def put(*frames):
            out = ask(commit(*frames))
            ctx.check(len(out) >= 5 and out[-1:] == b'O', 'the commit is answered with %s', out)

        def loaded(record):
            return b'O' + struct.pack('>L', len(record)) + record
        put(frame(sc.new[0], recs[0]), frame(sc.new[1], recs[1]))
        v = 10
        fresh = set()           # what the client does not have the current state of
        for op in seq:
            if op in ('L0', 'L1'):
                i = int(op[1])
                ctx.eq(ask(b'L' + sc.new[i]), loaded(recs[i]), 'load')
            elif op == 'Lx':
                got = ask(b'L' + sc.x)
                ctx.eq(got, b'I' if sc.x in fresh else loaded(sc.storage.load(sc.x)), 'load of x')
            elif op == 'B':
                ctx.eq(ask(b'B\0\0\0\2' + sc.new[0] + sc.new[1]), loaded(recs[0]) + loaded(recs[1]), 'bulk load')
            elif op == 'S':
                got = ask(b'S')
                ctx.eq(got, struct.pack('>L', len(fresh)) + b''.join(fresh), 'sync')
                fresh.clear()
            elif op == 'C':
                v += 1
                put(frame(sc.y, sc.record(sc.y, v)), frame(sc.new[0], recs[0]))
                fresh.clear()
                sc.b.abort()
                ctx.eq(sc.by.v, v, 'what the bystander sees of a commit')
            elif op == 'bx':
                sc.b.abort()
                sc.bx._p_set_status_ghost()
                sc.bx.v
            elif op == 'bC':
                v += 1
                sc.b.abort()
                sc.bx.v = v
                sc.b.commit()
                fresh.add(sc.x)
            elif op == 'b0':
                sc.b.abort()
                for i in (0, 1):
                    ctx.eq(sc.b.get_storage().load(sc.new[i]), recs[i], 'load by the bystander')
            ctx.check(not sc.s.closed, '%s: the server closed the connection', op)
        v += 1
        put(frame(sc.x, sc.record(sc.x, v)))
        sc.b.abort()
        ctx.eq(sc.bx.v, v, 'what the bystander sees of the last commit')
        sc.bx.v = v + 1
        sc.b.commit()
        ctx.eq(ask(b'S'), struct.pack('>L', 1) + sc.x, 'the last sync')
    except Stuck:
        ctx.check(not sc.net.done, 'the server died: %s', (sc.net.died or '')[-900:])
        ctx.violation('the bystander gets no answer')
    finally:
        sc.close()


# ------------------------------------------------------------------ clients that stop, on real sockets

STALLS = [b'', b'V', b'V\0\0', b'L', b'L' + b'\0' * 7, b'M', b'B', b'B\0\0\0', b'B\0\0\0\2' + b'\0' * 9, b'C', b'C\0\0\0',
          b'C\0\0\0\x30', b'C\0\0\0\x30\0\0\0\x2c' + b'\0' * 20, b'B\0\0\0\x20' + b'\0\0\0\0\0\0\0\1' * 32,
          b'L' + b'\0' * 7 + b'\1']


def stall(ctx, unit):
    from durus.connection import Connection
    from durus.client_storage import ClientStorage
    from durus.storage import MemoryStorage
    d = ctx.newdir()
    child = 0
    socks = []
    try:
        host = {'inet': '127.0.0.1', 'inet6': '::1'}.get(unit['family'])
        if host:
            s = socket.socket(socket.AF_INET6 if host == '::1' else socket.AF_INET)
            try:
                s.bind((host, 0))
            except OSError:
                s.close()
                ctx.outcome('no ' + unit['family'])
                return
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            address = s.getsockname()[:2]
        else:
            s = socket.socket(socket.AF_UNIX)
            address = d + '/s' if unit['family'] == 'path' else '@durusmc-%d-stall' % os.getpid()
            if unit['given']:
                s.bind(address.replace('@', '\0'))
        if not unit['given']:
            s.close()
        else:
            s.listen(5)
        storage = MemoryStorage()
        c = Connection(storage)
        c.get_root()['big'] = P('x' * 2000000)
        c.commit()
        ctx.eq(c.get_root()['big']._p_oid[-1], 1, 'oid (harness)')
        child = os.fork()
        if not child:
            try:
                signal.alarm(300)
                core.end_with_parent()
                if unit['given']:
                    os.dup2(s.fileno(), 103)
                    s.close()
                    os.dup2(103, 3)
                    os.environ.update(LISTEN_PID=str(os.getpid()), LISTEN_FDS='1')
                import durus.storage_server as module
                if hasattr(module, 'TIMEOUT'):
                    module.TIMEOUT = 0.3
                module.StorageServer(storage, address=d + '/own' if unit['given'] else address).serve()
            finally:
                os._exit(0)
        s.close()

        def connect():
            from durus.storage_server import SocketAddress
            for i in range(600):
                try:
                    e = SocketAddress.new(address).get_connected_socket()
                except OSError:
                    e = None
                if e is not None:
                    e.settimeout(30)
                    socks.append(e)
                    return e
                time.sleep(.05)
            ctx.violation('no server at %s' % (address,))

        def answer(e, data, want):
            e.sendall(data)
            got = b''
            try:
                while len(got) < len(want):
                    more = e.recv(len(want) - len(got))
                    if not more:
                        break
                    got += more
            except socket.timeout:
                ctx.violation('the bystander gets no answer for 30 seconds')
            ctx.eq(got, want, 'the answer')
        b = connect()
        answer(b, b'V\0\0\0\1', b'\0\0\0\1')
        for data in STALLS:
            ctx.trail = dict(family=unit['family'], inherited=unit['given'], sent=data)
            a = connect()
            a.sendall(data)
            time.sleep(0.02)
            answer(b, b'S', b'\0\0\0\0')
            e = connect()
            answer(e, b'V\0\0\0\1', b'\0\0\0\1')
            ctx.count('states')
            ctx.count('transitions', 2)
            ctx.count('traces_validated_against_impl')
        root = Connection(ClientStorage(address=address)).get_root()
        ctx.eq(sorted(root), ['big'], 'the root')
        ctx.outcome('goes on')
    finally:
        if child:
            try:
                os.kill(child, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(child, 0)
        for e in socks:
            e.close()
        ctx.rmdir(d)


def run(unit, ctx):
    from durus.logger import logger
    logger.setLevel(1 if unit.get('verbose') else 20)
    globals()[unit['what']](ctx, unit)
