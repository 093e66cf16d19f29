#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a harness, not_applicable for the others."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = ('symbolic execution of the real Python code (operator-overloaded execution of the functions in /repo, every '
        'branch and property decided by z3 over all inputs within the bounds; counterexamples replayed on the '
        'uninstrumented code)')
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'notes.json')) else {}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'harness', p.lower() + '.py')):
        checks.append(dict(property=p, quick_cmd=f'bin/check {p} --tier quick',
                           thorough_cmd=f'bin/check {p} --tier thorough', technique=TECH, level='model_checking',
                           level_note=NOTES.get(p, 'all inputs within the bounds listed in the evidence file')))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'no check has been built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Checks run from /verif against the current tree of /repo; no hooks in /repo.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
