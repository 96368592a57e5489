"""Importing the code under test from the working tree of the repository.

The C extension is compiled out of tree on every run, from the current
/repo/durus/_persistent.c, so that a stale or missing build product in /repo is
never used; pure-Python mode is selected by hiding the extension.
"""
import importlib.machinery
import importlib.util
import logging
import os
import subprocess
import sys
import sysconfig

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')))


def build_ext(outdir):
    so = os.path.join(outdir, '_persistent.so')
    _run(['gcc', '-O1', '-g', '-shared', '-fPIC', '-w',
          '-I' + sysconfig.get_paths()['include'],
          os.path.join(REPO, 'durus', '_persistent.c'), '-o', so])
    return so


def build_shim(outdir):
    so = os.path.join(outdir, 'fsshim.so')
    _run(['gcc', '-O1', '-shared', '-fPIC', '-w',
          os.path.join(HERE, 'fsshim.c'), '-o', so, '-ldl', '-lpthread'])
    return so


def load_ext(so):
    loader = importlib.machinery.ExtensionFileLoader('durus._persistent', so)
    spec = importlib.util.spec_from_file_location(
        'durus._persistent', so, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    loader.exec_module(mod)
    return mod


_mode = None


def boot(mode, so):
    """mode: 'c' (C extension) or 'py' (pure Python base classes)"""
    global _mode
    assert _mode is None or _mode == mode
    if _mode == mode:
        return
    _mode = mode
    sys.dont_write_bytecode = True
    logging.disable(1 << 20)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for name in list(sys.modules):
        assert not name.startswith('durus'), name
    if mode == 'c':
        import durus
        sys.modules['durus._persistent'] = ext = load_ext(so)
        durus._persistent = ext
    else:
        sys.modules['durus._persistent'] = None
        err, sys.stderr = sys.stderr, open(os.devnull, 'w')
        try:
            import durus.persistent
        finally:
            sys.stderr = err
    import durus
    assert os.path.realpath(durus.__file__).startswith(os.path.realpath(REPO)), durus.__file__
