#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tmpl.md, the check modules' own descriptions, the findings and the planted bugs."""
import ast
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEFAULT = ('deductive: contracts on the real functions for grids of every size and edge mode, clauses equivalent to the '
           'specification in both directions; obligations from the source discharged by z3')
COST = json.load(open(os.path.join(ROOT, 'tools', 'cost.json')))


def consts(pid):
    vals = {}
    for node in ast.parse(open(os.path.join(ROOT, 'checks', pid.lower() + '.py')).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                vals[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    return vals


table, detail = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    v = consts(p['id'])
    c = COST.get(p['id'], {})
    level = v.get('LEVEL', 'proof')
    table.append(f"| {p['id']} {p['title']} | {'proof + bounded companion' if level == 'proof' else 'bounded stand-in' if not c.get('own') else 'proof of parts + bounded'} | {c.get('own', '?')} | {c.get('wall', '?')} s |")
    d = [f"### {p['id']} {p['title']}", '', '* *Method:* ' + (v.get('TECHNIQUE') or DEFAULT) + '.']
    if v.get('NOTE'):
        d.append('* *Reach:* ' + v['NOTE'])
    if v.get('RULE'):
        d.append('* *Bounded companion:* ' + v['RULE'] + '.')
    if v.get('BOUND'):
        d.append('* *Bounds:* ' + v['BOUND'] + '.')
    if v.get('WHY'):
        d.append('* *What this reaches that tests cannot:* ' + v['WHY'])
    if v.get('ASSUMPTIONS'):
        d.append('* *Assumed:* ' + '; '.join(v['ASSUMPTIONS']) + '.')
    d.append('* *Anchored in:* ' + ', '.join(m['name'] + ' (' + m['where'] + ')' for m in p['anchors']['mechanism']) + '.'
             if 'anchors' in p else '')
    detail.append('\n'.join(x for x in d if x or x == ''))
find = [f"* {f['property']} `{f['commit']}` {f['what'].split(' ', 3)[3]}" for f in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings']]
seeds = ['| planted bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m))
    seeds.append(f"| {os.path.basename(os.path.dirname(m))} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {j['property']} |")
t = open(os.path.join(ROOT, 'tools', 'design.tmpl.md')).read()
for k, s in (('TABLE', table), ('DETAIL', detail), ('FINDINGS', find), ('SEEDS', seeds)):
    t = t.replace(f'@@{k}@@', ('\n\n' if k == 'DETAIL' else '\n').join(s))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)
