#!/usr/bin/env python3
"""Write MANIFEST.json from irv/props.py (run after changing the registry)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from irv.props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl') if l.strip()]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=p.get('technique', 'contracts on the compiled functions (LLVM IR of /repo), obligations discharged by z3'),
                       level=p['level'], level_note=p['note']))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'no check yet')) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && chmod +x check', checks=checks, not_applicable=na,
         notes='No hooks: the checks read /repo as it is. irv/ is the verifier (contracts in irv/contracts), harness/ the bounded probes run next to it.')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')
