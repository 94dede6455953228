#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import registry
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    c = registry.CHECKS.get(p)
    if c:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                       'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
na = [n for n in registry.NOT_APPLICABLE]
for p in props:
    if p not in registry.CHECKS and p not in [n['property'] for n in na]:
        na.append({'property': p, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'URKEL_VERIF',
               'enable': 'lib/build.py compiles /repo/src with -DURKEL_VERIF; the limits are then variables of harness/vf.c; the second commit (guard URKEL_DEBUG, on in the standard build) only lets a line comment follow the last line of a source file',
               'source_commits': ['21e2fac1ec6bc72613183b2ab698983d9fb7c2b7', 'b72cc31ab1e09337d6b1050cd6ff5c0bc1ff7da4']},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
