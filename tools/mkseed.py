"""mk(id, property, edits, demo, needs, what): write seeded/<id> from textual edits."""
import json, os, subprocess, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run in /repo; exit 0 if the property holds
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''
HEAD = '''import os, sys, shutil, tempfile
sys.path.insert(0, os.getcwd())
D = tempfile.mkdtemp(prefix='demo-')
try:
'''
TAIL = '''
finally:
    shutil.rmtree(D, ignore_errors=True)
print('ok')
'''
def mk(id, prop, edits, demo, needs, what):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    t = '/tmp/mkseed'
    shutil.rmtree(t, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', t])
    for f, old, new in edits:
        p = os.path.join(t, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=t).decode()
    # every removed line has to be one of the original repository
    root = subprocess.check_output(['git', 'log', '--format=%H', '--author', '.', '--invert-grep', '--grep', '^fix:', '-1'], cwd=t).decode().strip()
    for f, old, new in edits:
        orig = set(subprocess.check_output(['git', 'show', root + ':' + f], cwd=t).decode().split('\n'))
        for l in subprocess.check_output(['git', 'diff', '-U0', f], cwd=t).decode().split('\n'):
            if l.startswith('-') and not l.startswith('---') and l[1:] not in orig:
                print(id, 'changes a line of a fix:', l)
    open(d + '/patch.diff', 'w').write(diff)
    body = '\n'.join('    ' + l if l else l for l in demo.strip('\n').split('\n'))
    open(d + '/demo.py', 'w').write(HEAD + body + TAIL)
    open(d + '/demo.sh', 'w').write(SH)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(t)
