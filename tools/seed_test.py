#!/usr/bin/env python3
"""seed_test.py [--all-checks] ID... : confirm planted bugs (build, stable tests, demo) and run the check of their property.
Applies each patch to /repo and undoes it straight afterwards."""
import json, os, subprocess, sys
V = '/verif'; S = f'{V}/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
allc = '--all-checks' in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(S))
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else [])
assert sh('git -C /repo status --porcelain').stdout == ''
for i in ids:
    m = json.load(open(f'{S}/{i}/meta.json')); r = dict(id=i, prop=m['property'])
    r['demo0'] = sh(f'bash {S}/{i}/demo.sh', cwd='/repo').returncode
    try:
        a = sh(f'git -C /repo apply {S}/{i}/patch.diff')
        if a.returncode: print(i, 'does not apply', a.stdout); continue
        t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
        j = json.load(open('/tmp/seed_out.json'))
        p = j.get('passed'); r['passed'] = len(p) if isinstance(p, list) else p
        if r['passed'] != 1070: r['testlog'] = [x for x in (j.get('failed') or [])][:4] or t.stdout[-400:]
        d = sh(f'bash {S}/{i}/demo.sh', cwd='/repo'); r['demo1'] = d.returncode; r['demolog'] = d.stdout[-150:].strip()
        props = [x['property'] for x in json.load(open(f'{V}/MANIFEST.json'))['checks']] if allc else [m['property']]
        r['checks'] = {}
        for c in props:
            k = sh(f'python3 check.py {c}', cwd=V); r['checks'][c] = k.returncode
            if c == m['property']: r['log'] = k.stdout[-500:]
    finally:
        sh('git -C /repo checkout -- .')
    ok = r['demo0'] == 0 and r.get('demo1') and r.get('passed') == 1070
    print(i, m['property'], 'VALID' if ok else 'INVALID', 'caught' if r['checks'].get(m['property']) == 1 else 'MISSED', {k: v for k, v in r['checks'].items() if v})
    if not ok or r['checks'].get(m['property']) != 1: print('   ', r)
    elif '-v' in sys.argv: print(r['log'])
    sys.stdout.flush()
sh('bash /opt/vp/build.sh')
