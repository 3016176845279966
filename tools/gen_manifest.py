#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plans.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from plans import PLANS
from tools.notes import TECH, NOTE, NA
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    if i not in PLANS: continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i, technique=TECH.get(i, TECH['*']), level='exploration', level_note=NOTE.get(i, NOTE['*'])))
na = [dict(property=p['id'], reason=NA.get(p['id'], 'no check yet')) for p in props if p['id'] not in PLANS]
m = dict(version=1, setup_cmd='python3 build.py ompi4', hooks=dict(guard='none (no hooks in /repo: the library sources are compiled unmodified against the instrumented MPI simulator in sim/)', enable='build.py compiles /repo/src with -include sim/simhooks.h', source_commits=[]),
         checks=checks, not_applicable=na, notes='See DESIGN.md. Every check rebuilds the library from /repo into build/ (ignored by git).')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
