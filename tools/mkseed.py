#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds.py and confirms it: mkseed.py [--check] [id ...]

For each seed: apply the edit to a scratch copy of /repo, make patch.diff, run the demo on both trees and the test suite on
the changed one (in /repo itself, undone straight afterwards).  --check also runs the property's quick check against it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
args = sys.argv[1:]
check = '--check' in args
only = [a for a in args if not a.startswith('--')]
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else None


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def clean():
    sh('git -C /repo checkout -- .')


for s in SEEDS:
    if only and s['id'] not in only:
        continue
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
    d = os.path.join(ROOT, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s['edits']:
            p = os.path.join('/repo', f)
            t = open(p).read()
            assert t.count(old) == s.get('count', 1), (s['id'], f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        clean()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n' + s['demo'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh(f'bash {d}/demo.sh', cwd='/repo', timeout=300)
        r = sh(f'git -C /repo apply {d}/patch.diff')
        assert r.returncode == 0, r.stderr
        b = sh(f'bash {d}/demo.sh', cwd='/repo', timeout=300)
        out = tempfile.mktemp(suffix='.json')
        t = sh(f'bash /opt/vp/test.sh {out}')
        res = json.load(open(out))
        os.unlink(out)
        failed = res.get('failed', [])
        msg = [f"{s['id']} ({s['property']}): demo clean={a.returncode} patched={b.returncode} passed={len(res.get('passed', []))} failed={len(failed)}"]
        if a.returncode:
            msg.append('   clean demo: ' + (a.stdout + a.stderr)[-300:])
        if b.returncode == 0:
            msg.append('   DEMO DOES NOT FAIL')
        if check:
            c = sh(f"/opt/venv/bin/python run_check.py {s['property']} quick", cwd=ROOT)
            v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
            msg.append(f"   check: rc={c.returncode} {v or c.stdout[-300:]}")
        print('\n'.join(msg), flush=True)
    finally:
        clean()
