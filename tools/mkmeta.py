#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/meta.py."""
import importlib.util, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, HERE + '/tools')
from meta import PROPS, NA
with open(HERE + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, (p['id'], 'more than three sentences')
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['for_all']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
checks = []
for p in PROPS:
    mod = importlib.import_module('sa.rules.' + p['id'].lower())
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                   'technique': p['tech'], 'level': getattr(mod, 'LEVEL', 'other'), 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the sources only', 'source_commits': []},
     'checks': checks, 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'Static analysis only: tool/extract.cc (libTooling) dumps the resolved program (clang CFGs, callees, types) of /repo/framework/core; '
              'sa/ decides each property by abstract interpretation, typestate, lockset and call-graph rules over it. Nothing of /repo is executed.'}
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
open(HERE + '/MANIFEST.json', 'a').write('\n')
print(len(PROPS), 'claimed', len(NA), 'not applicable')
