"""Object graphs as raw records, for the pack checks (C14, C15)."""
from mc import storages
from mc.crashlib import i8, rec, dump, reachable, do_commit

# name -> list of commits, each {oid: refs}; oid 0 is the root.
GRAPHS = {
    'tree':    [{0: [1, 2], 1: [3], 2: [], 3: []}],
    'chain':   [{0: [1], 1: [2], 2: [3], 3: []}],
    'cycle':   [{0: [1], 1: [2], 2: [1, 0]}],
    'shared':  [{0: [1, 2], 1: [3], 2: [3], 3: [4], 4: []}],
    'low':     [{0: [1, 2, 3], 1: [], 2: [], 3: []}, {0: [3]}],
    'high':    [{0: [1, 2, 3, 4], 1: [], 2: [], 3: [], 4: [3]}, {0: [1]}],
    'dead':    [{0: [1, 2], 1: [3], 2: [], 3: [2, 4], 4: [3]}, {0: [2]}],
    'reorder': [{0: [4, 3], 4: [2], 3: [1], 2: [1], 1: []}],
}


class Model(object):
    """The stored records and how to change them."""

    def __init__(self, storage):
        self.s = storage
        self.refs = {}
        self.state = {}
        self.serial = 0

    def commit(self, changes):
        """changes: {number: refs}"""
        r = self.records(changes)
        do_commit(self.s, r)
        self.done(changes, r)

    def records(self, changes):
        self.serial += 1
        return {i8(n): rec(i8(n), b'%03d' % self.serial + bytes([n & 255]) * (self.serial % 5),
                           [i8(x) for x in refs]) for n, refs in changes.items()}

    def done(self, changes, r):
        self.refs.update({n: list(x) for n, x in changes.items()})
        self.state.update(r)

    def live(self):
        seen, todo = set(), [0]
        while todo:
            n = todo.pop()
            if n not in seen and n in self.refs:
                seen.add(n)
                todo.extend(self.refs[n])
        return seen

    def drop(self, keep):
        """the storage kept only these"""
        self.refs = {n: r for n, r in self.refs.items() if n in keep}
        self.state = {i8(n): self.state[i8(n)] for n in self.refs}


def from_oid(oid):
    from durus.utils import str_to_int8
    return str_to_int8(oid)


def fill(m, name):
    for commit in GRAPHS[name]:
        for n in sorted(commit):
            if n not in m.refs:
                assert m.s.new_oid() == i8(n)
        m.commit(commit)


def fill_chain(m, size, garbage):
    """root -> 1 -> 2 ... with every third one also linked from the root"""
    for n in range(size):
        assert m.s.new_oid() == i8(n)
    c = {n: [n + 1] if n + 1 < size else [] for n in range(size)}
    c[0] = [1] + list(range(3, size, 7))
    m.commit(c)
    if garbage:
        m.commit({0: [1], size // 2: []})


def operations(m, objects):
    """Every operation on these objects that a client could perform now.
       ('M', a) modify; ('N', a) new object linked from a; ('U', a, b) unlink;
       ('L', a, b) link; ('V', a, b, c) move b from a to c in one commit;
       ('O', a) overwrite the references of a with none; ('G',) a new unreachable object."""
    out = [('G',)]
    for a in objects:
        out += [('M', a), ('N', a), ('O', a)]
        for b in objects:
            out += [('U', a, b), ('L', a, b)]
            for c in objects:
                if a != c:
                    out.append(('V', a, b, c))
    return out


def apply(m, op):
    """Perform one operation as one commit; False if it makes no sense now: a changed or
    linked object must exist in the storage, a changed object must be reachable."""
    k = op[0]
    live = m.live()
    if k == 'G':
        n = new(m)
        m.commit({n: [0]})
        return True
    a = op[1]
    if a not in live:
        return False
    if k == 'M':
        m.commit({a: m.refs[a]})
    elif k == 'O':
        if not m.refs[a]:
            return False
        m.commit({a: []})
    elif k == 'N':
        n = new(m)
        m.commit({a: m.refs[a] + [n], n: [x for x in m.refs[a] if x][:1]})
    elif k == 'U':
        b = op[2]
        if b not in m.refs[a]:
            return False
        m.commit({a: [x for x in m.refs[a] if x != b]})
    elif k == 'L':
        b = op[2]
        if b in m.refs[a] or b not in m.refs:
            return False
        if b not in live:
            # A client may still have it, unless a pack has removed it.
            try:
                m.s.load(i8(b))
            except KeyError:
                return False
        m.commit({a: m.refs[a] + [b]})
    elif k == 'V':
        b, c = op[2], op[3]
        if b not in m.refs[a] or c not in live or b in m.refs[c]:
            return False
        m.commit({a: [x for x in m.refs[a] if x != b], c: m.refs[c] + [b]})
    return True


def new(m):
    oid = m.s.new_oid()
    n = from_oid(oid)
    if n in m.refs:
        raise AssertionError('new_oid() gave the oid %d of a stored object' % n)
    return n


def small_increments():
    """so that every single record is a step of the incremental pack"""
    from durus.file_storage2 import FileStorage2
    from durus.sqlite_storage import SqliteStorage
    FileStorage2._PACK_INCREMENT = 1
    SqliteStorage._PACK_INCREMENT = 1


def normal_increments():
    from durus.file_storage2 import FileStorage2
    from durus.sqlite_storage import SqliteStorage
    FileStorage2._PACK_INCREMENT = 20
    SqliteStorage._PACK_INCREMENT = 100
