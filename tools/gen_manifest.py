#!/usr/bin/env python3
"""Write MANIFEST.json from registry.py (run after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from registry import PROPS
checks = []
for k, p in sorted(PROPS.items()):
    checks.append(dict(property=k, quick_cmd=f'python3 check.py {k}', thorough_cmd=f'python3 check.py {k} --tier thorough',
        technique=p['technique'], level=p.get('level', 'model_checking'),
        level_note=(p['note'] + ' ' if p['note'] else '') + 'Exhaustive within these bounds, on the real code: ' + p['rule'] + '. Trusts: ' + '; '.join(p['assumptions']) + '.'))
have = {c['property'] for c in checks}
na = [dict(property=json.loads(l)['id'], reason='check under construction') for l in open(f'{V}/properties.jsonl') if json.loads(l)['id'] not in have]
m = dict(version=1, setup_cmd='python3 -m py_compile check.py registry.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: drivers are compiled and linked with the sources of the current tree. See DESIGN.md.')
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
open(f'{V}/MANIFEST.json', 'a').write('\n')
