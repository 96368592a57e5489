"""seed.py <id>: check the planted bug seeded/<id> in a scratch copy of /repo.

Applies the patch to /tmp/sw-<id>, runs the demo there with and without it, and (unless
--fast) the stable tests, and then this property's quick check (VERIF_REPO)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
fast = '--fast' in sys.argv
nocheck = '--nocheck' in sys.argv
bad = 0
for i in ids:
    sd = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(sd + '/meta.json'))
    sw = '/tmp/sw-' + i
    shutil.rmtree(sw, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', sw])
    out = []
    try:
        demo = '/tmp/demo-' + i
        shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(sd, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        def run_demo():
            return subprocess.run(['bash', demo + '/demo.sh'], cwd=sw, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, timeout=300)
        a = run_demo()
        out.append('demo clean rc=%d' % a.returncode)
        if a.returncode: out.append(a.stdout.decode()[-500:])
        subprocess.check_call(['git', 'apply', sd + '/patch.diff'], cwd=sw)
        if '.c' in open(sd + '/patch.diff').read().split('\n')[0]:
            subprocess.check_call(['bash', '-c', '. /opt/vp/env.sh; cd %s; "$PY" setup.py -q build_ext -i' % sw])
        b = run_demo()
        out.append('patched rc=%d %s' % (b.returncode, b.stdout.decode().strip().split('\n')[-1][:200]))
        if a.returncode or not b.returncode: bad = 1
        if not nocheck:
            c = subprocess.run(['./check', meta['property'], 'quick'], cwd=HERE, env=dict(os.environ, VERIF_REPO=sw),
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            t = c.stdout.decode()
            out.append('check %s rc=%d: %s' % (meta['property'], c.returncode, ' / '.join(t.split('\n')[:2])[:420]))
        if not fast:
            # the stable tests, run in the copy
            t = '/tmp/test-' + i
            script = open('/opt/vp/test.sh').read().replace('. /opt/vp/env.sh', open('/opt/vp/env.sh').read())
            open(t + '.sh', 'w').write(script.replace('/repo', sw).replace('/opt/vp/work', t + '.work'))
            r = subprocess.run(['bash', t + '.sh', t + '.json'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            shutil.rmtree(t + '.work', ignore_errors=True)
            out.append('tests: ' + '; '.join(l for l in r.stdout.decode().split('\n') if ' passed' in l or ' failed' in l)[:200])
    finally:
        shutil.rmtree(sw, ignore_errors=True)
        shutil.rmtree('/tmp/demo-' + i, ignore_errors=True)
    print(i, '|', '\n   '.join(out), flush=True)
sys.exit(bad)
