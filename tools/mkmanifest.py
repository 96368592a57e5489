"""Writes /verif/MANIFEST.json from the check modules that exist."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

NOTE = {
 'default': ('Exhaustive within the bounds in the evidence file (rule, states, transitions) on the real code '
             'of the working tree; nothing is claimed beyond those bounds.'),
}

def meta(path):
    import importlib, sys
    sys.path.insert(0, HERE)
    m = importlib.import_module('mc.checks.' + os.path.basename(path)[:-3])
    return {k: getattr(m, k) for k in ('LEVEL', 'RULE', 'ASSUMPTIONS', 'TECHNIQUE') if hasattr(m, k)}

TECH = {
 'model_checking': 'exhaustive exploration of operation histories on the real code against a reference model',
 'fault_enumeration': 'exhaustive crash-point / fault enumeration on the real code',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    path = os.path.join(HERE, 'mc', 'checks', p['id'].lower() + '.py')
    if os.path.exists(path):
        m = meta(path)
        note = NOTE['default'] + ' Assumes: ' + ('; '.join(m.get('ASSUMPTIONS', [])) or 'nothing further') + '.'
        checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'],
            thorough_cmd='./check %s thorough' % p['id'],
            evidence_file='evidence/%s.json' % p['id'],
            technique=m.get('TECHNIQUE') or TECH[m['LEVEL']], level=m['LEVEL'], level_note=note))
    else:
        na.append(dict(property=p['id'], reason='no check has been built yet'))
man = dict(version=1,
    setup_cmd='/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'/verif\'); import mc.core" && gcc --version >/dev/null',
    checks=checks, not_applicable=na,
    notes='Every check compiles the C extension (and the file-system shim) from the current tree into a scratch directory and imports durus from /repo; no hooks are needed in /repo.')
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', 'none for', ' '.join(x['property'] for x in na))
