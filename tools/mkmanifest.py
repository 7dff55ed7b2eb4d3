#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present."""
import ast
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NA = {}   # property -> reason
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    path = os.path.join(ROOT, 'checks', pid.lower() + '.py')
    if pid in NA or not os.path.exists(path):
        na.append(dict(property=pid, reason=NA.get(pid, 'check not built yet')))
        continue
    vals = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                vals[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    level = vals.get('LEVEL', 'proof')
    tech = vals.get('TECHNIQUE', 'contract-based deductive verification: contracts on the real Python functions, obligations generated by the pyvc '
                    'symbolic interpreter from /repo\'s source on every run and discharged by z3')
    note = vals.get('NOTE') or ('Every obligation holds for all inputs without bound (see evidence: functions_under_contract, undecided). '
                                'Trusted: the pyvc interpreter, z3, CPython/numpy semantics of natively executed concrete code. ' + vals.get('BOUND', ''))
    checks.append(dict(property=pid, quick_cmd=f'{PY} run_check.py {pid} quick', thorough_cmd=f'{PY} run_check.py {pid} thorough',
                       evidence_file=f'evidence/{pid}.json', technique=tech, level=level, level_note=note))
json.dump(dict(version=1, setup_cmd=f'{PY} tools/selfcheck.py', checks=checks, not_applicable=na,
               notes='No hooks in /repo: the checks import and interpret the unmodified source.'), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
