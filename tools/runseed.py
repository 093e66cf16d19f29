#!/usr/bin/env python3
"""runseed.py [ID...]   runs each planted bug's own check on a scratch copy with the bug; prints what it says"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('-')]
ids = args or sorted(os.listdir(f'{HERE}/seeded'))
for i in ids:
    wt = f'/tmp/seedrun'
    subprocess.run(['rm', '-rf', wt])
    subprocess.run(['git', 'clone', '-q', '/repo', wt])
    subprocess.run(['git', '-C', wt, 'apply', f'{HERE}/seeded/{i}/patch.diff'], check=True)
    p = json.load(open(f'{HERE}/seeded/{i}/meta.json'))['property']
    props = [p] if '--all' not in sys.argv else sorted(f[:-3].upper() for f in os.listdir(f'{HERE}/harness') if f[0] == 'c' and f[1:3].isdigit())
    for q in props:
        t = time.time()
        r = subprocess.run([f'{HERE}/bin/check', q, '--tier', 'quick'], capture_output=True, text=True, env=dict(os.environ, SYMX_REPO=wt))
        v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
        k = r.stdout.splitlines()
        why = k[k.index(v[0]) + 1].strip()[:110] if v else k[-1][:150] if k else r.stderr[-200:]
        if '--all' not in sys.argv or v:
            print(f'{i:34} {q} {"CAUGHT" if r.returncode == 1 and v else "missed rc=%d" % r.returncode:8} {time.time()-t:5.0f}s  {why}', flush=True)
    subprocess.run(['rm', '-rf', wt])
