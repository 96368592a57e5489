"""C11: FileStorage survives a crash at every point of a commit."""
from mc import crashlib

ID = 'C11'
LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive crash-point and torn/lost-write enumeration over all short commit histories on the real code'
KIND = 'file'
NEEDS_SHIM = True
RULE = ('every history of up to N commits over 6 commit kinds (overwrite, new object, big object, '
        'and some with transactions of 20000 bytes, torn near their ends and at multiples of 512, '
        'rewrite all, empty record, empty commit) x 4 starting files x 4 record contents, also during an incremental pack at any step and after a pack; for the last '
        'commit of each, every crash point: the process killed after every file-system call and inside '
        'every write at every byte length, and a power failure leaving any prefix of the unsynced '
        'appended bytes with any subset of the unsynced in-place overwrites. Each distinct image is '
        'opened by the real storage with repair, compared with the reference states, and used for two '
        'more commits with reopening, the first of which is crashed again at every point. evaluations counts crash states, distinct_nontrivial distinct images.')
ASSUMPTIONS = [
    'a power failure keeps a prefix of the bytes appended since the last fsync, never zero-filled holes, '
    'and keeps name changes in order',
    'a write torn by a crash leaves a byte prefix',
    'the creation of a new empty file is not interrupted']


def units(tier):
    q = tier == 'quick'
    out = []
    for setup in ('fresh', 'grown', 'packed', 'packed+'):
        for style in ('zero', 'len', 'ascii', 'ones'):
            depth = ({'zero': 3, 'len': 2}.get(style, 1)) if q else 4
            for h in crashlib.histories('MNBTSE', depth):
                out.append(dict(kind=KIND, setup=setup, style=style, commits=h,
                                cost=len(h) + 10 * h.count('B')))
    return out + crashlib.huge_units(KIND, q) + crashlib.pack_units(KIND, q)


def run(unit, ctx):
    crashlib.run_history(unit, ctx)
