#!/usr/bin/env python3
"""Tries planted bugs against /repo: tools/try_bug.py [--no-check] [--all-checks] ID...
For each: demo passes on the clean tree, patch applies and builds, stable tests pass, demo fails, the property's quick
check reports a violation. Restores /repo afterwards."""
import subprocess, sys, json, os, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
args = sys.argv[1:]
nocheck = '--no-check' in args
extra = [a[8:] for a in args if a.startswith('--check=')]
seed = next((a[7:] for a in args if a.startswith('--seed=')), '1')
ids = [a for a in args if not a.startswith('--')] or sorted(os.listdir(V + '/seeded'))
base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json'))['stable'])
if sh('git -C /repo status --porcelain').stdout.strip(): sys.exit('/repo is not clean')
def demo(i): return sh(f'cd /repo && timeout 300 bash {V}/seeded/{i}/demo.sh')
sh('bash /opt/vp/build.sh')
for i in ids:
    d = f'{V}/seeded/{i}'; out = [i]
    prop = json.load(open(d + '/meta.json'))['property']
    r = demo(i)
    if r.returncode: print(i, 'DEMO FAILS CLEAN', (r.stdout + r.stderr)[-600:]); continue
    r = sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode: print(i, 'DOES NOT APPLY', r.stderr); continue
    try:
        r = sh('bash /opt/vp/test.sh /tmp/try_bug.json')
        miss = base - set(json.load(open('/tmp/try_bug.json'))['passed'])
        if miss: print(i, 'TESTS FAIL', sorted(miss)[:4], r.stderr[-300:] if len(miss) > 50 else ''); continue
        r = demo(i)
        if r.returncode == 0: print(i, 'DEMO PASSES WITH PATCH'); continue
        if r.returncode in (3, 124): print(i, 'DEMO BROKEN', r.returncode, r.stderr[-500:]); continue
        if nocheck: print(i, prop, 'counts; demo:', r.stdout.strip().split('\n')[0][:100]); continue
        for p in [prop] + extra:
            t = time.time()
            c = sh(f'{V}/run {p} --no-evidence --seed {seed}', cwd=V)
            v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
            print(i, p, 'CAUGHT' if c.returncode == 1 and v else f'MISSED rc={c.returncode} ' + c.stdout[-300:] + c.stderr[-300:], '%.0fs' % (time.time() - t), v[0][:120] if v else '', flush=True)
    finally:
        sh('git -C /repo checkout -q -- .')
sh('bash /opt/vp/build.sh')
