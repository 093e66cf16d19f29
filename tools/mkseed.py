#!/usr/bin/env python3
"""mkseed.py SPEC.py...   plants bugs in a scratch copy of /repo and keeps the ones that qualify in /verif/seeded.

A SPEC defines PROP, ID, EDITS = [(file, old, new)], DEMO (python text: exit 0 if the property holds), NEEDS, BREAKS.
Kept only if every changed line is one of the original repository, the stable tests pass, and the demonstration
passes on the unchanged code and fails on the changed one."""
import json, os, re, shutil, subprocess, sys, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'
ENV = dict(os.environ, PYTHONPATH=WT, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', TQDM_DISABLE='1', PYTHONHASHSEED='0')
PY = '/opt/venv/bin/python'
base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def demo(d):
    r = sh(['bash', os.path.join(d, 'demo.sh')], cwd=WT, env=ENV, timeout=300)
    return r


ok = True
for spec in sys.argv[1:]:
    s = runpy.run_path(spec)
    subprocess.run(['rm', '-rf', WT])
    sh(['git', 'clone', '-q', '/repo', WT])
    d = f'/tmp/seeds/out/{s["ID"]}'
    subprocess.run(['rm', '-rf', d])
    os.makedirs(d)
    open(f'{d}/demo.py', 'w').write(s['DEMO'].lstrip('\n'))
    open(f'{d}/demo.sh', 'w').write('#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg TQDM_DISABLE=1\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    r = demo(d)
    bad = []
    if r.returncode != 0:
        bad.append('demo fails on the unchanged tree: ' + r.stdout[-300:] + r.stderr[-500:])
    for f, old, new in s['EDITS']:
        t = open(f'{WT}/{f}').read()
        if t.count(old) != 1:
            bad.append(f'{f}: old text occurs {t.count(old)} times: {old!r}')
            continue
        open(f'{WT}/{f}', 'w').write(t.replace(old, new))
    diff = sh(['git', '-C', WT, 'diff']).stdout
    # every changed line is original
    for f in {e[0] for e in s['EDITS']}:
        bl = sh(['git', '-C', WT, 'blame', '-l', '-s', 'HEAD', '--', f]).stdout.splitlines()
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh(['git', '-C', WT, 'diff', '-U0', '--', f]).stdout, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            for i in range(a, a + n):
                if not bl[i - 1].lstrip('^').startswith(base[0][:30]):
                    bad.append(f'{f}:{i} is not an original line: {bl[i-1][40:]}')
    r = demo(d)
    if r.returncode == 0:
        bad.append('demo passes with the change')
    out = r.stdout[-200:] + r.stderr[-300:]
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--junitxml=/tmp/seeds/j.xml', 'tests'], cwd=WT, env=ENV)
    r2 = sh([PY, '/opt/vp/results.py', '/tmp/seeds/r.json', 'junit:/tmp/seeds/j.xml'])
    try:
        got = set(json.load(open('/tmp/seeds/r.json'))['passed'])
        if stable - got:
            bad.append('tests: ' + str(sorted(stable - got)[:3]) + r.stdout[-300:])
    except Exception as e:
        bad.append(f'no test results {e} {r2.stderr[-200:]}')
    if bad:
        ok = False
        print('REJECTED', s['ID'], *bad, sep='\n   ')
        continue
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(f'{d}/meta.json', 'w'), indent=1)
    dest = f'{HERE}/seeded/{s["ID"]}'
    subprocess.run(['rm', '-rf', dest])
    os.makedirs(os.path.dirname(dest), exist_ok=True)
    shutil.copytree(d, dest)
    print('kept', s['ID'], '| with the change:', out.strip().splitlines()[-1:] or '')
subprocess.run(['rm', '-rf', WT])
sys.exit(not ok)
