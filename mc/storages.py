"""Storage factories used by several checks."""
import os


def path_of(kind, d):
    return os.path.join(d, 'db.' + kind)


def open_storage(kind, d=None, **kw):
    if kind == 'mem':
        from durus.storage import MemoryStorage
        return MemoryStorage()
    if kind == 'tmp':
        from durus.file_storage import TempFileStorage
        return TempFileStorage()
    if kind == 'file':
        from durus.file_storage import FileStorage
        return FileStorage(path_of(kind, d), **kw)
    if kind == 'file2':
        from durus.file_storage2 import FileStorage2
        return FileStorage2(path_of(kind, d), **kw)
    if kind == 'sqlite':
        from durus.sqlite_storage import SqliteStorage
        return SqliteStorage(path_of(kind, d), **kw)
    raise ValueError(kind)


DISK = ('file', 'file2', 'sqlite')
