#!/usr/bin/env python3
"""Development tool: build and confirm a planted bug in a scratch copy.
mkseed.py DEF.py  where DEF.py defines ID, PROP, EDITS=[(file, old, new[, count])], NEEDS, BREAKS, DEMO (python source, run with cwd = the tree)"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
notest = '--notest' in sys.argv
ID = ns['ID']
SC = f'/tmp/seedcopy_{ID}'
shutil.rmtree(SC, ignore_errors=True)
subprocess.run(['cp', '-a', '/repo', SC], check=True)
try:
    for e in ns['EDITS']:
        f, old, new = e[:3]
        p = os.path.join(SC, 'termfactory', f)
        s = open(p).read()
        n = s.count(old)
        assert n == (e[3] if len(e) > 3 else 1), f'{f}: {n} matches of {old!r}'
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', SC, 'diff'], capture_output=True, text=True).stdout
    d = os.path.join(HERE, 'seeded', ID)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(ns['DEMO'].lstrip('\n'))
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\n# run with cwd = the repository\nD=$(cd "$(dirname "$0")" && pwd)\nS=$(mktemp -d)\ntrap \'rm -rf "$S"\' EXIT\n'
        'REPO=$(pwd) SCRATCH="$S" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd)/termfactory" timeout 250 /opt/venv/bin/python "$D/demo.py"\n')
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r0 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
    r1 = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=SC, capture_output=True, text=True)
    print('demo clean', r0.returncode, 'patched', r1.returncode, r0.stderr[-300:], '|', (r1.stderr or r1.stdout)[-200:])
    ok = r0.returncode == 0 and r1.returncode != 0
    if ok and not notest:
        base = json.load(open('/opt/vp/BASELINE.json'))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        env.pop('PYTHONPATH', None)
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--disable-warnings', '--timeout=300', '-x'], cwd=SC, env=env, capture_output=True, text=True)
        tail = r.stdout.strip().splitlines()[-4:]
        print('\n'.join(tail))
        ok = ' failed' not in tail[-1]
    print(ID, 'OK' if ok else 'REJECTED')
    if not ok:
        shutil.rmtree(d)
finally:
    shutil.rmtree(SC, ignore_errors=True)
