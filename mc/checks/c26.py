"""C26: the conversion scripts preserve the object graph."""
import datetime
import io
import itertools
import os
import pickle
import runpy
import signal
import sys

from mc import boot, storages

ID = 'C26'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of databases (graphs, formats, holes, garbage, root classes) on the real scripts'
RULE = ('the real scripts, each run in a process of its own, on every directed graph over the root and 2 or 3 objects (self references, references back to the root and '
        'garbage included) times holes in the oid range, classes, root classes, packed or not, every file '
        'format the script accepts, and, for the converter, records as Python 2 wrote them: the new file is compared with the old one '
        'object by object. A state is one database.')
ASSUMPTIONS = ['the renumbering script reads the default file format',
               'the chains of references are short enough for the recursion limit of the pickle module',
               'Python 2 records are imitated by a pickler that writes its string opcodes']

SCRIPT = {'renumber': 'db_renumber.py', 'py3k': 'db_to_py3k.py'}


def units(tier):
    q = tier == 'quick'
    out = []
    parts = 4 if q else 8
    for part in range(parts):
        for holes in (0, 1, 2):
            for packed in (False, True):
                out.append(dict(script='renumber', kind='file', n=2, part=part, parts=parts, holes=holes, packed=packed, style='py3',
                                up=not q or holes == 1 and not packed))
        for kind in ('file', 'file2', 'sqlite'):
            for style in ('py3', 'py2'):
                out.append(dict(script='py3k', kind=kind, n=2, part=part, parts=parts, holes=1, packed=False, style=style,
                                up=not q or kind == 'file' and style == 'py3'))
            out.append(dict(script='py3k', kind=kind, n=2, part=part, parts=parts, holes=2, packed=True, style='py3', up=not q))
    for part in range(8 if q else 64):
        p = dict(part=part, parts=8 if q else 64, noself=q, n=3, cost=6)
        out.append(dict(p, script='renumber', kind='file', holes=1, packed=False, style='py3'))
        if not q:
            for kind in ('file', 'file2', 'sqlite'):
                for style in ('py3', 'py2'):
                    out.append(dict(p, script='py3k', kind=kind, holes=1, packed=False, style=style))
    out.append(dict(script='refusals', kind='file'))
    for count in (10000, 10001) if q else (9999, 10000, 10001, 20000, 20001):
        for script in ('py3k', 'renumber'):
            out.append(dict(script=script, kind='file', many=count, style='py2' if script == 'py3k' else 'py3', cost=20))
    return out


def setup(mode):
    from mc import pclasses
    global P, Q, S
    from mc.pclasses import P, Q, S


# ------------------------------------------------------------------ running a script

def run_script(ctx, script, args, answer=b''):
    """-> (exit status, output)"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 99
        try:
            os.close(r)
            os.dup2(w, 1)
            os.dup2(w, 2)
            ir, iw = os.pipe()
            os.write(iw, answer)
            os.close(iw)
            os.dup2(ir, 0)
            signal.alarm(100)
            sys.stdout = os.fdopen(1, 'w')
            sys.stderr = os.fdopen(2, 'w')
            sys.stdin = os.fdopen(0)
            # as in a new interpreter
            ext = sys.modules.get('durus._persistent')
            for name in list(sys.modules):
                if name.split('.')[0] == 'durus' or name == 'mc.pclasses':
                    del sys.modules[name]
            sys.modules['durus._persistent'] = ext
            import durus
            if ext is not None:
                durus._persistent = ext
            path = os.path.join(boot.REPO, 'bin', SCRIPT[script])
            sys.argv = [path] + list(args)
            try:
                runpy.run_path(path, run_name='__main__')
                code = 0
            except SystemExit as e:
                code = 0 if e.code in (None, 0) else 1
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        out = f.read().decode(errors='replace')
    _, status = os.waitpid(pid, 0)
    return (os.WEXITSTATUS(status) if os.WIFEXITED(status) else -os.WTERMSIG(status)), out


# ------------------------------------------------------------------ databases

class Py2Pickler(pickle._Pickler):
    """writes text and bytes as the str of Python 2"""
    dispatch = dict(pickle._Pickler.dispatch)

    def save_str(self, obj):
        try:
            data = obj.encode('ascii') if isinstance(obj, str) else obj
        except UnicodeEncodeError:
            return pickle._Pickler.save_str(self, obj)
        self.write(b'U' + bytes([len(data)]) + data)
        self.memoize(obj)
    dispatch[str] = save_str
    dispatch[bytes] = save_str


def rewrite_as_py2(s):
    """every record of the storage, with the pickles Python 2 would have made"""
    from durus.connection import Connection
    from durus.serialize import pack_record, unpack_record
    c = Connection(s)
    records = []
    for oid, record in s.gen_oid_record():
        obj = c.get(oid)
        obj._p_load_state() if obj._p_is_ghost() else None
        f = io.BytesIO()
        p = Py2Pickler(f, 2)

        def persistent_id(x):
            return (x._p_oid, type(x)) if hasattr(x, '_p_oid') and not isinstance(x, type) else None
        p.persistent_id = persistent_id
        p.dump(type(obj))
        p.dump(obj.__getstate__())
        records.append((oid, pack_record(oid, f.getvalue(), unpack_record(record)[2])))
    s.begin()
    for oid, record in records:
        s.store(oid, record)
    s.end()


def fill(r, objs, adj, style, up):
    for i, o in enumerate(objs):
        if up >> i & 1:
            o.b = [r]
        if isinstance(o, S):
            o.a = i
            o.b = (o.b if up >> i & 1 else []) + [objs[j] for j in adj[i]]
            o.c = u'text %d' % i
            continue
        o.a = i
        o.text = 'word%d' % i
        o.uni = u'\u00e9\u4e2d%d' % i
        o.long = 'x' * 40 + ' %d' % i
        o.none = None
        o.when = datetime.datetime(1950, 2, 3, 4, 5, 6 + i), datetime.datetime(2001, 2, 3 + i, 4, 5, 6)
        o.day = datetime.date(2001, 2, 3 + i), datetime.date(1950, 2, 3 + i)
        o.refs = [objs[j] for j in adj[i]]
        o.nested = {'k': ('t', [objs[j] for j in adj[i]][:1], {1.5: 'f'})}
        o.empty = ''
        if style == 'py3':
            o.raw = b'bytes\xff%d' % i
            o.oidlike = b'\0\0\0\0abcd'


ROOTS = ('PersistentDict', 'P', 'BTree')


def make(unit, path, bits, n, rootname, up=0):
    from durus.btree import BTree
    from durus.connection import Connection
    from durus.persistent_dict import PersistentDict
    s = storages_open(unit['kind'], path)
    c = Connection(s, root_class=dict(PersistentDict=PersistentDict, P=P, BTree=BTree)[rootname])
    r = c.get_root()
    if rootname == 'P':
        def put(k, v):
            setattr(r, k, v)

        def drop(k):
            delattr(r, k)
    else:
        put, drop = r.__setitem__, r.__delitem__
    kinds = (P, Q, S)
    objs = [kinds[(bits + i) % 3]() for i in range(n)]
    for i, o in enumerate(objs):
        for k in range(unit['holes'] * (i + 1)):
            s.new_oid()
        put('o%d' % i, o)
        c.commit()
    adj = {i: [j for j in range(n) if bits >> (n + i * n + j) & 1] for i in range(n)}
    fill(r, objs, adj, unit['style'], up)
    for i in range(n):
        if not bits >> i & 1:
            drop('o%d' % i)
    put('title', 'a database')
    c.commit()
    if unit['packed']:
        c.pack()
        put('later', 'after the pack')
        c.commit()
    if unit['style'] == 'py2':
        rewrite_as_py2(s)
    s.close()


def storages_open(kind, path):
    from durus.file_storage import FileStorage
    from durus.file_storage2 import FileStorage2
    from durus.sqlite_storage import SqliteStorage
    return dict(file=FileStorage, file2=FileStorage2, sqlite=SqliteStorage)[kind](path)


def same(ctx, a, b, pair, where=()):
    """compare two values; persistent objects must correspond one to one"""
    if len(where) > 60:
        ctx.violation('too deep')
    if hasattr(a, '_p_oid') and not isinstance(a, type):
        ctx.check(hasattr(b, '_p_oid'), 'not persistent any more at %r', where)
        ctx.eq((type(b).__module__, type(b).__name__), (type(a).__module__, type(a).__name__), 'class at %r' % (where,))
        if a._p_oid in pair:
            ctx.eq(b._p_oid, pair[a._p_oid], 'shared object at %r' % (where,))
            return
        ctx.check(b._p_oid not in pair.values(), 'two objects became one at %r', where)
        pair[a._p_oid] = b._p_oid
        if a._p_is_ghost():
            a._p_load_state()
        if b._p_is_ghost():
            b._p_load_state()
        same(ctx, a.__getstate__(), b.__getstate__(), pair, where + (type(a).__name__,))
        return
    ctx.check(type(a) is type(b), 'a %s became a %s at %r', type(a).__name__, type(b).__name__, where)
    if isinstance(a, dict):
        ctx.eq(sorted(map(repr, b)), sorted(map(repr, a)), 'keys at %r' % (where,))
        for k in a:
            same(ctx, a[k], b[k], pair, where + (k,))
    elif isinstance(a, (list, tuple)):
        ctx.eq(len(b), len(a), 'length at %r' % (where,))
        for i, (x, y) in enumerate(zip(a, b)):
            same(ctx, x, y, pair, where + (i,))
    else:
        ctx.eq(b, a, 'value at %r' % (where,))


def run(unit, ctx):
    if unit['script'] == 'refusals':
        return refusals(unit, ctx)
    if 'many' in unit:
        return many(unit, ctx)
    n = unit['n']
    k = 0
    for bits in range(1 << (n + n * n)):
        if unit.get('noself') and any(bits >> (n + i * n + i) & 1 for i in range(n)):
            continue
        k += 1
        if k % unit['parts'] != unit['part']:
            continue
        rootname = ROOTS[k // unit['parts'] % 3]
        if unit.get('up'):
            # with every set of references back to the root
            for up in range(1 << n):
                database(unit, ctx, bits, n, rootname, up)
        else:
            database(unit, ctx, bits, n, rootname, (k // unit['parts'] // 3 + bits) % (1 << n))


def database(unit, ctx, bits, n, rootname, up):
    from durus.connection import Connection
    from durus.utils import int8_to_str
    d = ctx.newdir()
    old, new = os.path.join(d, 'old'), os.path.join(d, 'new')
    ctx.trail = dict(unit=unit, graph=bits, root=rootname, up=up)
    ctx.count('states')
    ctx.count('transitions')
    ctx.count('traces_validated_against_impl')
    make(unit, old, bits, n, rootname, up)
    with open(old, 'rb') as f:
        before = f.read()
    # what it holds, before anything else touches it
    twin = os.path.join(d, 'twin')
    if unit['style'] == 'py2':
        make(dict(unit, style='py2ref'), twin, bits, n, rootname, up)
    else:
        with open(twin, 'wb') as f:
            f.write(before)
    names = set(os.listdir(d))
    status, out = run_script(ctx, unit['script'], (old, new))
    ctx.check(status == 0, 'the script failed: %s', out[-600:])
    with open(old, 'rb') as f:
        ctx.check(f.read() == before, 'the original file changed')
    extra = set(os.listdir(d)) - names
    ctx.check(extra <= set(['new', 'new.prepack']) and 'new' in extra, 'files after the script: %r', extra)
    a = storages_open(unit['kind'], twin)
    b = storages_open(unit['kind'], new)
    pair = {}
    same(ctx, Connection(a).get_root(), Connection(b).get_root(), pair)
    stored = sorted(o for o, rec in b.gen_oid_record())
    ctx.eq(stored, sorted(pair.values()), 'stored oids')
    ctx.eq(pair[int8_to_str(0)], int8_to_str(0), 'the root')
    if unit['script'] == 'renumber':
        # (the constructor of a BTree root has used one for its first node)
        skip = 1 if rootname == 'BTree' else 0
        ctx.eq(stored, [int8_to_str(i + (skip if i else 0)) for i in range(len(stored))], 'the new oids')
    ctx.outcome('%d objects' % len(pair))
    # the new file goes on working
    c = Connection(b)
    c.get_root()._p_note_change()
    c.commit()
    c.pack()
    a.close()
    b.close()
    ctx.rmdir(d)


def refusals(unit, ctx):
    """an existing output file is kept unless told otherwise, and odd arguments write nothing"""
    d = ctx.newdir()
    old, new = os.path.join(d, 'old'), os.path.join(d, 'new')
    u = dict(kind='file', holes=1, packed=False, style='py3', script='')
    make(u, old, 0b111111, 2, 'PersistentDict')

    def files():
        out = {}
        for n in os.listdir(d):
            with open(os.path.join(d, n), 'rb') as f:
                out[n] = f.read()
        return out
    for content in (None, b'', b'precious'):
        if content is not None:
            with open(new, 'wb') as f:
                f.write(content)
        before = files()
        for script in SCRIPT:
            cases = [(), (old,), (old, new, new), ('-h', new)]
            if script == 'py3k':
                cases.append((os.path.join(d, 'missing'), new))
            if content is not None:
                cases.append((old, new))
            for args in cases:
                ctx.trail = dict(script=script, args=args, existing=content)
                for answer in (b'', b'n\n', b'no\n', b'\n'):
                    run_script(ctx, script, args, answer)
                    ctx.check(files() == before, '%s %r changed the files', script, args)
                    ctx.count('states')
                    ctx.count('transitions')
                    ctx.count('traces_validated_against_impl')
    status, out = run_script(ctx, 'py3k', (old, new), b'y\n')
    ctx.eq(status, 0, 'overwriting after a yes')
    ctx.check(files()['old'] == before['old'], 'original changed')
    ctx.rmdir(d)


def many(unit, ctx):
    """as many objects as need more than one intermediate commit"""
    from durus.connection import Connection
    from durus.persistent_dict import PersistentDict
    from durus.utils import int8_to_str
    d = ctx.newdir()
    old, new, twin = os.path.join(d, 'old'), os.path.join(d, 'new'), os.path.join(d, 'twin')
    ctx.trail = unit
    s = storages_open(unit['kind'], old)
    c = Connection(s)
    r = c.get_root()
    n = unit['many'] - 1
    for base in range(0, n, 100):
        q = []
        for i in range(base, min(base + 99, n - 1)):
            q.append(PersistentDict({'v': i, 'root': r, 'text': 'word%d' % i}))
        r[base] = PersistentDict({'q': q, 'v': base})
    total = 1 + sum(1 + len(x['q']) for x in (r[k] for k in r))
    c.commit()
    for extra in range(unit['many'] - total):
        r['extra%d' % extra] = PersistentDict({'v': 'x'})
    c.commit()
    count = sum(1 for x in s.gen_oid_record())
    if unit['style'] == 'py2':
        s.close()
        with open(old, 'rb') as f:
            data = f.read()
        with open(twin, 'wb') as f:
            f.write(data)
        s = storages_open(unit['kind'], old)
        rewrite_as_py2(s)
    ctx.eq(count, unit['many'], 'number of objects (harness)')
    s.close()
    with open(old, 'rb') as f:
        before = f.read()
    status, out = run_script(ctx, unit['script'], (old, new))
    ctx.check(status == 0, 'the script failed: %s', out[-600:])
    with open(old, 'rb') as f:
        ctx.check(f.read() == before, 'the original file changed')
    a, b = storages_open(unit['kind'], twin if unit['style'] == 'py2' else old), storages_open(unit['kind'], new)
    pair = {}
    same(ctx, Connection(a).get_root(), Connection(b).get_root(), pair)
    stored = sorted(o for o, rec in b.gen_oid_record())
    ctx.eq(stored, sorted(pair.values()), 'stored oids')
    ctx.eq(len(pair), unit['many'], 'objects')
    if unit['script'] == 'renumber':
        ctx.eq(stored, [int8_to_str(i) for i in range(len(stored))], 'the new oids')
    ctx.count('states')
    ctx.count('transitions', len(pair))
    ctx.count('traces_validated_against_impl')
    a.close()
    b.close()
    ctx.rmdir(d)
