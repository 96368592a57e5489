"""C20: the C extension and the pure Python base classes, in lock step."""
import copy
import gc
import itertools
import os
import pickle
import sys
import weakref

ID = 'C20'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive lock-step enumeration of operation sequences on both real implementations in one process'
RULE = ('every sequence up to a depth of operations on an object, for 9 classes (attributes in __dict__, in slots, in '
        'both, with __getattr__, with properties and class attributes, ComputedAttribute, bare base class): '
        'reads, writes and deletions of ordinary, missing, private, special, non-ASCII and non-string names, the raw access functions, '
        'all status changes, loads that fail, transaction serial changes, attaching and detaching the connection, '
        'state export and import, copying. Both implementations are loaded side by side; after every operation the '
        'result or exception type, status, serial, whole state and the calls received by the connection must be '
        'the same; at the end everything must be freed without the collector. Also every combination '
        'of bases for class creation. A state is one executed sequence.')
ASSUMPTIONS = ['attribute names without NUL characters; connections derive from ConnectionBase; '
               '_p_status is only set to its three values, _p_status and _p_serial are not deleted; transaction serials are '
               'never equal but distinct objects']

FL = {}


def load_flavours():
    """the module durus.persistent twice: over the C extension, and in Python"""
    if FL:
        return FL
    import durus.persistent as cp
    assert cp.PersistentBase.__module__ and sys.modules['durus._persistent'] is not None
    saved = {k: v for k, v in sys.modules.items() if k == 'durus' or k.startswith('durus.')}
    for k in saved:
        del sys.modules[k]
    sys.modules['durus._persistent'] = None
    err, sys.stderr = sys.stderr, open(os.devnull, 'w')
    try:
        import durus.persistent as pp
    finally:
        sys.stderr.close()
        sys.stderr = err
    for k in [k for k in sys.modules if k == 'durus' or k.startswith('durus.')]:
        del sys.modules[k]
    sys.modules.update(saved)
    assert cp is not pp and cp.PersistentBase is not pp.PersistentBase
    FL['c'] = Flavour(cp)
    FL['py'] = Flavour(pp)
    return FL


class Flavour(object):
    def __init__(self, m):
        self.m = m

        class Conn(m.ConnectionBase):
            def __init__(self):
                self.log = []
                self.states = {}
                self.fail = None

            def load_state(self, obj):
                self.log.append('load')
                if self.fail:
                    raise KeyError('gone')
                obj.__setstate__(dict(self.states))
                obj._p_set_status_saved()

            def note_access(self, obj):
                self.log.append('access')
                m._setattribute(obj, '_p_serial', self.transaction_serial)
                return self.answer       # (ignored)

            def note_change(self, obj):
                self.log.append('change')

        class P(m.Persistent):
            pass

        class S(m.PersistentObject):
            __slots__ = ['a', 'b']

        class SD(m.PersistentObject):
            __slots__ = ['a', '__dict__']

        class SS(S):
            __slots__ = ['c']

        class SP(S):
            pass

        class G(m.Persistent):
            def __getattr__(self, name):
                if name.startswith('__') or name == 'missing':
                    raise AttributeError(name)
                return 'made up ' + name

        class R(m.Persistent):
            klass = 'of the class'

            @property
            def b(self):
                return ('prop', self.a)

            @b.setter
            def b(self, v):
                self.a = v

            @b.deleter
            def b(self):
                del self.a

            def method(self):
                return getattr(self, 'a', 'nothing')

        class N(m.Persistent):
            def __setattr__(self, name, value):
                m.Persistent.__setattr__(self, name, value)

            def __getattribute__(self, name):
                return m.Persistent.__getattribute__(self, name)

            def __eq__(self, other):
                return getattr(self, 'a', 0) == getattr(other, 'a', 0)

            def __hash__(self):
                return 7

            def __len__(self):
                return 3
        self.Conn = Conn
        self.classes = dict(P=P, S=S, SD=SD, SS=SS, SP=SP, G=G, R=R, N=N, CA=m.ComputedAttribute,
                            Base=m.PersistentBase)


NAMES = ['a', 'b', 'missing', '_p_x', '_p', '_private', '__dict__', '__class__', '__repr__', '__setstate__', '__rep',
         '__classy__', '__secret', '', u'\xe9', u'\ud800', 'method', 'klass', '__getstate__', '_pa', '_p_oid', '_p_y_', '__len__',
         '__r', '__s', '__c', '_']
CORE = ['get a', 'get missing', 'get _p_x', 'get __class__', 'set a 1', 'set _p_x 2', 'del a', 'ghost', 'saved',
        'unsaved', 'serial', 'fail', 'detach', 'getstate', 'setstate', 'note']
MORE = CORE + ['get b', 'set b 3', 'del b', 'get __dict__', 'method', 'rawget a', 'rawset a', 'rawdel a', 'rawhas a',
               'setstate None', 'reduce', 'copy', 'repr', 'load', 'status', 'pickle', 'del missing',
               'change', 'loadstate', 'del _p_connection', 'cip', 'get klass', 'compute', 'invalidate']


def units(tier):
    q = tier == 'quick'
    out = []
    classes = ['P', 'S', 'SD', 'SS', 'SP', 'G', 'R', 'N', 'CA', 'Base']
    for k in classes:
        for start in ('new', 'ghost', 'saved'):
            out.append(dict(kind='seq', k=k, start=start, ops='more', depth=3 if q else 4,
                            cost=39 ** (3 if q else 4)))
            if k in ('P', 'S', 'SD', 'R') or not q:
                out.append(dict(kind='seq', k=k, start=start, ops='core', depth=4 if q else 5, cost=16 ** 4))
        out.append(dict(kind='names', k=k, cost=1))
    out.append(dict(kind='bases', cost=1))
    out.append(dict(kind='functions', cost=1))
    return out


def run(unit, ctx):
    load_flavours()
    gc.collect()
    gc.freeze()
    gc.disable()
    globals()['run_' + unit['kind']](unit, ctx)


class W(object):
    """one object of one implementation"""

    def __init__(self, fl, k, start):
        self.fl = fl
        self.m = fl.m
        self.conn = fl.Conn()
        self.conn.transaction_serial = 1000
        self.n = 1000
        self.o = fl.classes[k]()
        self.values = [('value', i) for i in range(4)] + [bytes(bytearray(b'12345678')), ['answer']]
        self.conn.answer = self.values[5]
        self.conn.states = {'a': self.values[0], '_p_x': 5} if k in ('P', 'SD', 'SP', 'G', 'R', 'N') else \
            {'a': self.values[0]} if k != 'CA' else {}
        if start != 'new':
            self.o._p_oid = self.values[4]
            self.o._p_connection = self.conn
            if start == 'ghost':
                self.m._setattribute(self.o, '_p_status', -1)
            else:
                if k not in ('Base', 'CA'):
                    self.o.__setstate__({'a': self.values[0]})
                self.m._setattribute(self.o, '_p_status', 0)
        self.conn.log[:] = []

    def show(self, x):
        if x is self.o:
            return 'self'
        if isinstance(x, type):
            return 'class ' + x.__name__
        if x is self.conn:
            return 'conn'
        if isinstance(x, dict):
            return {k: self.show(v) for k, v in sorted(x.items(), key=repr)}
        if isinstance(x, (tuple, list)):
            return [self.show(y) for y in x]
        if isinstance(x, self.m.PersistentBase):
            return ('other', type(x).__name__, x._p_status, x._p_oid, self.show(x._p_connection))
        if callable(x):
            return 'callable ' + getattr(x, '__name__', '?')
        return repr(x)

    def op(self, op):
        o, m = self.o, self.m
        w = op.split(' ')
        k = w[0]
        if k == 'get':
            return getattr(o, w[1])
        if k == 'set':
            return setattr(o, w[1], self.values[int(w[2])])
        if k == 'del':
            return delattr(o, w[1])
        if k == 'ghost':
            if o._p_oid is None:
                return 'not stored'
            return o._p_set_status_ghost()
        if k == 'saved':
            return o._p_set_status_saved()
        if k == 'unsaved':
            return o._p_set_status_unsaved()
        if k == 'status':
            return (o._p_is_ghost(), o._p_is_saved(), o._p_is_unsaved())
        if k == 'note':
            if o._p_connection is None and o._p_status != 1:
                return 'not possible'
            return o._p_note_change()
        if k == 'serial':
            self.n += 1
            self.conn.transaction_serial = self.n
            return
        if k == 'fail':
            self.conn.fail = not self.conn.fail
            return
        if k == 'detach':
            if o._p_connection is None:
                o._p_connection = self.conn
                o._p_oid = self.values[4]
            elif o._p_status != -1:
                o._p_connection = None
                o._p_oid = None
            return
        if k == 'getstate':
            return o.__getstate__()
        if k == 'setstate':
            return o.__setstate__({'b': 7} if w[1:] == [] else None)
        if k == 'method':
            return o.method()
        if k == 'rawget':
            return m._getattribute(o, w[1])
        if k == 'rawset':
            return m._setattribute(o, w[1], self.values[3])
        if k == 'rawdel':
            return m._delattribute(o, w[1])
        if k == 'rawhas':
            return m._hasattribute(o, w[1])
        if k == 'reduce':
            return o.__reduce_ex__(2)
        if k == 'pickle':
            return pickle.dumps(o.__getstate__(), 2)
        if k == 'copy':
            return copy.copy(o)
        if k == 'repr':
            r = repr(o)
            return r if '@' not in r else 'without oid'
        if k == 'load':
            return o._p_load_state()
        if k == 'loadstate':
            return self.conn.load_state(o)
        if k == 'change':
            return self.conn.note_change(o)
        if k == 'cip':
            out = []
            r = m.call_if_persistent(out.append, o)
            return [out, r, m.call_if_persistent(out.append, 5), m.call_if_persistent(out.append, type(o)), len(out)]
        if k == 'compute':
            return o.get(lambda: 'computed')
        if k == 'invalidate':
            return o.invalidate()
        raise AssertionError(op)

    def snapshot(self):
        o, raw = self.o, self.m._getattribute
        st = []
        for name in ('_p_status', '_p_serial', '_p_oid', '_p_connection', 'a', 'b', 'c', 'value'):
            try:
                v = raw(o, name) if name != 'b' or type(o).__name__ != 'R' else 0
                st.append(self.show(v))
            except AttributeError:
                st.append('none')
        try:
            st.append(self.show(raw(o, '__dict__')))
        except AttributeError:
            st.append('no dict')
        return st, self.conn.log


def both(k, start):
    return W(FL['c'], k, start), W(FL['py'], k, start)


def step(ctx, a, b, op, f=None):
    res = []
    for w in (a, b):
        del w.conn.log[:]
        try:
            r = (f or W.op)(w, op)
            r = ['returns', w.show(r)]
        except RecursionError:
            raise
        except Exception as e:
            r = ['raises', type(e).__name__]
        res.append((r, w.snapshot()))
    r = None
    if res[0] != res[1]:
        ctx.violation('%s: the C extension gives %r, Python gives %r' % (op, res[0], res[1]),
                      detail=ctx.trail)
    ctx.outcome(res[0][0][0])
    ctx.count('transitions', 2)
    return res[0][0]


def leave(ctx, a, b):
    for w in (a, b):
        try:
            r = weakref.ref(w.o)
        except TypeError:
            r = None
        c = weakref.ref(w.conn)
        n = [sys.getrefcount(v) for v in w.values]
        d = w.__dict__
        values = d['values']
        d.clear()
        if r is not None and r() is not None:
            ctx.violation('an object is not freed after %r' % (ctx.trail,))
        if c() is not None:
            ctx.violation('a connection is not freed after %r' % (ctx.trail,))
        for i, v in enumerate(values):
            v = None
        want = [2] * len(values)
        got = [sys.getrefcount(values[i]) for i in range(len(values))]
        if got != want:
            ctx.violation('reference counts of attribute values %r after %r' % (got, ctx.trail))


def run_seq(unit, ctx):
    ops = MORE if unit['ops'] == 'more' else CORE
    if unit['k'] == 'CA':
        ops = [o for o in ops if o not in ('setstate',)]
    if unit['k'] != 'CA':
        ops = [o for o in ops if o not in ('compute', 'invalidate')]
    if unit['k'] == 'Base':
        ops = [o for o in ops if o in ('get a', 'get missing', 'get _p_x', 'get __class__', 'del a',
                                       'serial', 'detach', 'del _p_connection', 'rawget a', 'rawhas a', 'cip')]
    for seq in itertools.product(ops, repeat=unit['depth']):
        ctx.trail = dict(cls=unit['k'], start=unit['start'], seq=seq)
        a, b = both(unit['k'], unit['start'])
        for op in seq:
            step(ctx, a, b, op)
        leave(ctx, a, b)
        ctx.count('states')
        ctx.count('traces_validated_against_impl')
    ctx.sample(ctx.trail)


def run_names(unit, ctx):
    """every operation on every name, from every status, twice, and with wrong types of names"""
    class Str(str):
        pass
    names = NAMES + [Str('a'), Str('_p_z'), Str('__class__')]
    kinds = ['get', 'set', 'del', 'rawget', 'rawset', 'rawdel', 'rawhas', 'default']

    def act(w, op):
        kind, name = op
        o, m = w.o, w.m
        if kind == 'get':
            return getattr(o, name)
        if kind == 'default':
            return getattr(o, name, 'default')
        if kind == 'set':
            if name in ('__class__', '__dict__', '_p_oid'):
                return 'left out'
            return setattr(o, name, 'v')
        if kind == 'del':
            if name == '_p_oid':
                return 'left out'
            return delattr(o, name)
        f = getattr(m, dict(rawget='_getattribute', rawset='_setattribute', rawdel='_delattribute',
                            rawhas='_hasattribute')[kind])
        if kind == 'rawset':
            if name in ('__class__', '__dict__', '_p_oid'):
                return 'left out'
            return f(o, name, 'v')
        if kind == 'rawdel' and name == '_p_oid':
            return 'left out'
        return f(o, name)

    allops = [(kd, n) for kd in kinds for n in names]
    for start in ('new', 'ghost', 'saved'):
        for op1 in allops:
            for op2 in ([None] + [(kd, op1[1]) for kd in kinds]):
                ctx.trail = dict(cls=unit['k'], start=start, ops=[repr(op1), repr(op2)])
                a, b = both(unit['k'], start)
                step(ctx, a, b, op1, act)
                if op2:
                    step(ctx, a, b, op2, act)
                leave(ctx, a, b)
                ctx.count('states')
                ctx.count('traces_validated_against_impl')
    for bad in (1, None, b'a', ('a',), 1.5, [], type):
        for f in (getattr, hasattr, lambda o, n: setattr(o, n, 1), delattr):
            for start in ('new', 'saved'):
                ctx.trail = dict(bad=repr(bad), start=start)
                a, b = both(unit['k'], start)
                step(ctx, a, b, bad, lambda w, n: f(w.o, n))
                leave(ctx, a, b)
                ctx.count('states')


def run_bases(unit, ctx):
    """which classes can be made, what their instances look like"""
    def bases(fl):
        m = fl.m
        d = dict(fl.classes)
        d.update(PersistentObject=m.PersistentObject, Persistent=m.Persistent, object=object, int=int, list=list,
                 dict=dict, Exception=Exception, tuple=tuple)
        return d
    names = sorted(bases(FL['c']))
    n = 0
    for combo in itertools.chain(itertools.permutations(names, 1), itertools.permutations(names, 2)):
        for slots in (None, [], ['a'], ['z', '__dict__'], ['__weakref__']):
            for args in ((), (1,)):
                res = []
                ctx.trail = dict(bases=combo, slots=slots)
                for fl in (FL['c'], FL['py']):
                    d = bases(fl)
                    ns = {} if slots is None else {'__slots__': slots}
                    try:
                        k = type('K', tuple(d[x] for x in combo), ns)
                    except TypeError:
                        res.append('no class')
                        continue
                    try:
                        o = k(*args)
                    except TypeError:
                        res.append('no instance')
                        continue
                    r = []
                    if isinstance(o, fl.m.PersistentBase):
                        r.append([o._p_status, o._p_serial, o._p_oid, o._p_connection])
                        for nm in ('a', 'q', 'z') if isinstance(o, fl.m.PersistentObject) else ():
                            try:
                                setattr(o, nm, 4)
                                r.append(getattr(o, nm))
                                delattr(o, nm)
                            except Exception as e:
                                r.append(type(e).__name__)
                        try:
                            weakref.ref(o)
                            r.append('weak')
                        except TypeError:
                            r.append('no weak references')
                    r.append(isinstance(o, fl.m.PersistentObject))
                    r.append(hasattr(o, '__dict__'))
                    res.append(r)
                if res[0] != res[1]:
                    ctx.violation('bases %r slots %r: C gives %r, Python %r' % (combo, slots, res[0], res[1]))
                ctx.count('states')
                ctx.count('traces_validated_against_impl')


def run_functions(unit, ctx):
    """cycles are collected, many objects of many classes, deep chains are freed without a crash"""
    for k in ('P', 'SD', 'SP', 'G', 'R'):
        for fl in FL.values():
            for stored in (0, 1):
                o, q = fl.classes[k](), fl.classes[k]()
                conn = fl.Conn()
                if stored:
                    o._p_connection = q._p_connection = conn
                    o._p_oid, q._p_oid = b'1', b'2'
                    conn.keep = [o, q]
                o.a = q
                q.a = [o]
                refs = [weakref.ref(o), weakref.ref(q), weakref.ref(conn)]
                del o, q, conn
                gc.collect()
                for r in refs:
                    ctx.check(r() is None, 'a cycle through %s is not collected', k)
                # a long chain
                head = None
                for i in range(100000):
                    p = fl.classes[k]()
                    p.a = head
                    head = p
                r = weakref.ref(head)
                del p, head
                ctx.check(r() is None, 'a chain of %s is not freed', k)
                ctx.count('states')
                ctx.count('traces_validated_against_impl')
    for name in ('_getattribute', '_setattribute', '_delattribute', '_hasattribute', 'call_if_persistent'):
        for n in range(0, 5) if name != '_hasattribute' else (2,):
            for first in ('o', 5):
                res = []
                for fl in FL.values():
                    o = fl.classes['P']()
                    o.a = 1
                    args = ([o if first == 'o' else first, 'a', 2, 3, 4])[:n]
                    if name == 'call_if_persistent':
                        args = [str.__len__.__class__, o, 3, 4, 5][:n]
                    try:
                        r = getattr(fl.m, name)(*args)
                        res.append(type(r).__name__)
                    except Exception as e:
                        res.append(type(e).__name__)
                ctx.eq(res[0], res[1], '%s with %d arguments' % (name, n))
                ctx.count('states')
