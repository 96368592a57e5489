"""python -m mc.run <id> [quick|thorough] [--replay FILE]"""
import importlib
import os
import sys


def go():
    cid = sys.argv[1]
    check = importlib.import_module('mc.checks.' + cid.lower())
    from mc import boot, core
    if getattr(check, 'NEEDS_SHIM', False) and not os.environ.get('FSSHIM'):
        import shutil
        import subprocess
        d = core.scratch_root()
        try:
            so = boot.build_shim(d)
            env = dict(os.environ, LD_PRELOAD=so, FSSHIM=so)
            return subprocess.call([sys.executable, '-B', '-m', 'mc.run'] + sys.argv[1:], env=env)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    try:
        return core.main(check, sys.argv[2:])
    except boot.BuildError as e:
        print('BUILD FAILED: %s' % e)
        return 2


if __name__ == '__main__':
    rc = go()
    sys.stdout.flush()
    sys.exit(rc)
