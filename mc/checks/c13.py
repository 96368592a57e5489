"""C13: SqliteStorage survives a crash at every point of a commit or pack."""
from mc import crashlib

ID = 'C13'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive crash-point and torn/lost-write enumeration over all short commit histories on the real code'
NEEDS_SHIM = True
RULE = ('every history of up to N steps over 6 commit kinds (overwrite, new object, big object, '
        'and some with transactions of 20000 bytes, torn near their ends and at multiples of 512, '
        'rewrite all, empty record, empty commit) and pack x 3 starting files x record contents, also commits during an incremental pack at any step; for the '
        'last step of each, every crash point: killed after every file-system call (journal and database) '
        'and inside every write at 512-byte and odd lengths, and a power failure leaving any such prefix of '
        'the unsynced appended bytes with subsets of the unsynced in-place overwrites. Each distinct image '
        'is reopened, compared with the reference states and used for two more commits with reopening.')
ASSUMPTIONS = [
    'the sqlite library recovers a database from its journal as documented',
    'a power failure keeps name changes in order; torn writes leave a prefix in multiples of 512 bytes or at a few odd lengths',
    'the creation of a new empty file is not interrupted']


def units(tier):
    q = tier == 'quick'
    out = []
    for setup in ('fresh', 'grown', 'packed'):
        for style in ('zero', 'ascii'):
            depth = (3 if style == 'ascii' else 2) if q else (5 if style == 'ascii' and setup == 'grown' else 4)
            for h in crashlib.histories('MNBTSEP', depth):
                if setup == 'fresh' and h[0] in 'EP':
                    continue
                out.append(dict(kind='sqlite', setup=setup, style=style, commits=h,
                                cost=len(h) + 10 * h.count('B')))
    return out + crashlib.huge_units('sqlite', q) + crashlib.pack_units('sqlite', q)


def run(unit, ctx):
    crashlib.run_history(unit, ctx)
