"""C28: a file is always opened with the storage that wrote it."""
import itertools
import os
import sqlite3
import sys

from mc import storages

ID = 'C28'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of file contents times openers on the real code'
RULE = ('every file (each format in several histories, an empty file, every proper prefix and every one-byte change of each magic '
        'header, other SQLite databases, foreign contents) under several names, times every opener (helper, helper with each '
        'named class, each class, Connection by name, pack command) times readonly / repair, plus a missing file: '
        'the objects, the class used and the bytes of the directory afterwards are compared. '
        'A state is one (file, opener, options) combination.')
ASSUMPTIONS = ['an empty file may be refused or become a new storage',
               'contents after an intact header are those that the format wrote (see C02, C04 for damaged files)']

CLASSES = {'file': 'durus.file_storage.FileStorage', 'file2': 'durus.file_storage2.FileStorage2',
           'sqlite': 'durus.sqlite_storage.SqliteStorage'}
OPTIONS = [{}, dict(readonly=False, repair=False), dict(readonly=None, repair=None), dict(repair=True), dict(readonly=True),
           dict(readonly=True, repair=False)]
HEADER = {'file': b'SHELF-1\n', 'file2': b'DFS20\0', 'sqlite': b'SQLite format 3\0'}


def klass(kind):
    from durus.__main__ import import_class
    return import_class(CLASSES[kind])


def units(tier):
    q = tier == 'quick'
    out = []
    for name in ('db', 'db.sqlite') if q else ('db', 'db.sqlite', 'x.durus', 'DFS20', 'SHELF-1'):
        for kind in CLASSES:
            out.append(dict(what='formats', kind=kind, name=name))
        out.append(dict(what='missing', name=name))
        out.append(dict(what='foreign', name=name))
    for kind in CLASSES:
        for pos in range(len(HEADER[kind])):
            out.append(dict(what='headers', kind=kind, pos=pos, some=False, cost=3))
    return out


def files(d):
    out = {}
    for name in sorted(os.listdir(d)):
        p = os.path.join(d, name)
        with open(p, 'rb') as f:
            out[name] = (os.fstat(f.fileno()).st_ino, f.read())
    return out


def make(kind, path, history):
    from durus.connection import Connection
    from durus.persistent_dict import PersistentDict
    s = klass(kind)(path)
    c = Connection(s)
    r = c.get_root()
    want = {}
    for i in range(history % 4):
        r['k%d' % i] = PersistentDict({'v': i})
        want['k%d' % i] = {'v': i}
        c.commit()
    if history >= 4:
        if 'k0' in r:
            del r['k0']
            del want['k0']
            c.commit()
        c.pack()
        r['late'] = PersistentDict({'v': 9})
        want['late'] = {'v': 9}
        c.commit()
    s.close()
    return want


def contents(s):
    from durus.connection import Connection
    return {k: dict(v) for k, v in Connection(s).get_root().items()}


def openers(path):
    """(name, class it must use or None if detected, function(options) -> storage)"""
    from durus.__main__ import get_storage
    from durus.connection import Connection
    out = [('get_storage', None, lambda o: get_storage(path, **o)),
           ('get_storage(storage_class=None)', None, lambda o: get_storage(path, storage_class=None, **o)),
           ('Connection', 'file', lambda o: Connection(path).get_storage())]
    for kind in CLASSES:
        out.append(('get_storage(%s)' % kind, kind,
                    lambda o, kind=kind: get_storage(path, storage_class=CLASSES[kind], **o)))
        out.append((CLASSES[kind], kind, lambda o, kind=kind: klass(kind)(path, **o)))
    return out


def attempts(ctx, d, path):
    for (name, kind, f), o in itertools.product(openers(path), OPTIONS):
        if name == 'Connection' and o:
            continue
        before = files(d)
        ctx.count('states')
        ctx.count('transitions')
        ctx.count('traces_validated_against_impl')
        try:
            s = f(o)
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            s = None
            ctx.outcome('refused')
            after = files(d)
            ctx.check(after == before, '%s %r failed with %s and changed the files: %r', name, o, type(e).__name__,
                      {k: len(v[1]) for k, v in after.items()})
            yield name, kind, o, None, e
        else:
            ctx.outcome('opened')
            yield name, kind, o, s, None
            s.close()


def formats(unit, ctx):
    from durus.__main__ import get_storage_class
    from durus.file import File
    kind = unit['kind']
    for history in range(8):
        d = ctx.newdir()
        path = os.path.join(d, unit['name'])
        want = make(kind, path, history)
        for extra in ('', '.pack', '.prepack'):
            p = path + extra
            if os.path.exists(p):
                ctx.trail = dict(unit=unit, history=history, file=extra)
                with open(p, 'rb') as f:
                    got = f.read(len(HEADER[kind]))
                # (the documented formats, which every later version must recognise)
                ctx.eq(got, HEADER[kind], 'header of a file of format ' + kind)
                ctx.check(get_storage_class(p) is klass(kind), 'wrong class detected')
        for other in ('file', 'file2'):
            f = File(path, readonly=True)
            ctx.eq(bool(klass(other).has_format(f)), other == kind, '%s.has_format' % other)
            f.close()
        clean = files(d)
        for name, k, o, s, e in attempts(ctx, d, path):
            ctx.trail = dict(unit=unit, history=history, opener=name, options=o)
            if k in (None, kind):
                if e is not None:
                    ctx.check(kind == 'sqlite' and o.get('readonly'), '%s %r was refused: %s %s', name, o,
                              type(e).__name__, e)
                    continue
                ctx.check(type(s) is klass(kind), '%s %r opened as %s', name, o, type(s).__name__)
                ctx.eq(contents(s), want, 'objects seen through ' + name)
                ctx.eq({n: x[1] for n, x in files(d).items()}, {n: x[1] for n, x in clean.items()},
                       'files after opening and looking')
            else:
                ctx.check(e is not None, '%s %r opened a file of the %s format', name, o, kind)
        pack_command(ctx, d, path, kind, want)
        ctx.rmdir(d)


def pack_command(ctx, d, path, kind, want):
    from durus.__main__ import pack_storage_main, get_storage, get_storage_class
    argv = sys.argv
    sys.argv = ['durus', '--file', path]
    try:
        pack_storage_main()
    finally:
        sys.argv = argv
    import gc
    gc.collect()
    ctx.check(get_storage_class(path) is klass(kind), 'another format after the pack command')
    s = get_storage(path)
    ctx.eq(contents(s), want, 'objects after the pack command')
    s.close()
    ctx.count('states')


def missing(unit, ctx):
    from durus.connection import Connection
    from durus.__main__ import get_storage, get_storage_class
    d = ctx.newdir()
    path = os.path.join(d, unit['name'])
    n = len(openers(path))
    for i in range(n):
        for o in OPTIONS:
            name, kind, f = openers(path)[i]
            if name == 'Connection' and o:
                continue
            ctx.trail = dict(unit=unit, opener=name, options=o)
            ctx.count('states')
            ctx.count('transitions')
            ctx.count('traces_validated_against_impl')
            ctx.check(get_storage_class(path) is klass('file'), 'default class')
            try:
                s = f(o)
            except Exception as e:
                ctx.outcome('refused')
                ctx.check(o.get('readonly'), '%s %r of a missing file was refused: %r', name, o, e)
                ctx.eq(os.listdir(d), [], 'files after a refused open')
                continue
            ctx.outcome('created')
            ctx.check(not o.get('readonly'), '%s %r of a missing file succeeded', name, o)
            ctx.check(type(s) is klass(kind or 'file'), '%s created a %s', name, type(s).__name__)
            c = Connection(s)
            c.get_root()['a'] = 1
            c.commit()
            s.close()
            del c
            with open(path, 'rb') as fp:
                ctx.eq(fp.read(len(HEADER[kind or 'file'])), HEADER[kind or 'file'], 'format of the new file')
            s = get_storage(path)
            ctx.check(type(s) is klass(kind or 'file'), 'reopened as %s', type(s).__name__)
            ctx.eq(dict(Connection(s).get_root()), {'a': 1}, 'objects of the new file')
            s.close()
            for x in os.listdir(d):
                os.unlink(os.path.join(d, x))
    # no file at all: a temporary storage
    s = get_storage(None)
    ctx.check(type(s) is klass('file'), 'temporary storage')
    c = Connection(s)
    c.get_root()['a'] = 1
    c.commit()
    s.close()
    ctx.eq(os.listdir(d), [], 'files')
    ctx.rmdir(d)


def refused(ctx, path, data, label, empty_ok=False):
    d = os.path.dirname(path)
    with open(path, 'wb') as f:
        f.write(data)
    for name, k, o, s, e in attempts(ctx, d, path):
        ctx.trail = dict(content=label, opener=name, options=o)
        if e is None:
            ctx.check(empty_ok, '%s %r opened %s as %s', name, o, label, type(s).__name__)
            if empty_ok:
                s.close()
                with open(path, 'wb') as f:
                    f.write(data)


def foreign(unit, ctx):
    d = ctx.newdir()
    path = os.path.join(d, unit['name'])
    refused(ctx, path, b'', 'an empty file', empty_ok=True)
    for data in (b'x', b'\0', b'hello world, this is a text file\n' * 3, bytes(range(256)) * 9, b'\x80\x02}q\0.', b'PK\3\4' + b'\0' * 60,
                 b' ' + HEADER['file'] + b'\0' * 64, b'\0' * 4096, b'DFS10\0' + b'\0' * 64, b'SHELF-2\n' + b'\0' * 64,
                 b'DFS20' + b'\1' * 64, b'SQLite format 2\0' + b'\0' * 200):
        refused(ctx, path, data, repr(data[:20]))
    os.unlink(path)
    for schema in (['create table t (a, b)', 'insert into t values (1, 2)'], ['create table objects (a)'],
                   ['create table records (p_oid integer primary key, pickle blob, refs blob)']):
        c = sqlite3.connect(path)
        for x in schema:
            c.execute(x)
        c.commit()
        c.close()
        with open(path, 'rb') as f:
            data = f.read()
        if 'objects' in schema[0]:
            # (as far as can be told it is one of ours until it is used)
            continue
        refused(ctx, path, data, 'SQLite database with ' + schema[0])
        os.unlink(path)
    ctx.rmdir(d)


def headers(unit, ctx):
    kind, pos = unit['kind'], unit['pos']
    d = ctx.newdir()
    path = os.path.join(d, 'db')
    make(kind, path, 2)
    with open(path, 'rb') as f:
        data = f.read()
    for x in os.listdir(d):
        os.unlink(os.path.join(d, x))
    if pos:
        for tail in (b'', b'\0' * 8, b'x' * 100):
            prefix = HEADER[kind][:pos]
            if (prefix + tail).startswith(HEADER[kind]):
                continue
            refused(ctx, path, prefix + tail, 'prefix %d of %s and %r' % (pos, kind, tail[:9]))
    old = data[pos]
    changes = [b for b in range(256) if b != old]
    if unit['some']:
        changes = [old ^ 1 << i for i in range(8)] + [0, 10, 13, 32, 46, 48, 49, 50, 51, 255]
        changes = sorted(set(changes) - set([old]))
    for b in changes:
        refused(ctx, path, data[:pos] + bytes([b]) + data[pos + 1:], '%s with byte %d changed to %d' % (kind, pos, b))
    ctx.rmdir(d)


def run(unit, ctx):
    globals()[unit['what']](unit, ctx)
