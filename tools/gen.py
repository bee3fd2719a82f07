#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single description below (both are committed)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools')); sys.path.insert(0, ROOT)
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['q']},
                            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p.get('obs', []), 'hook_needed': None}}) + '\n')
ids = [p['id'] for p in PROPS]; assert len(set(ids)) == len(ids)
man = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'hooks': {'guard': 'none', 'enable': 'no hook in /repo is needed: the checks compile the unmodified sources of /repo with /verif/harness/cfg/schnek_config.hpp (configuration header) and, for the parallel code, a simulated message-passing header', 'source_commits': []},
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p['tech'], 'level': 'model_checking', 'level_note': p['note']} for p in PROPS if p['id'] in CHECKS],
       'not_applicable': [{'property': a, 'reason': b} for a, b in NOT_APPLICABLE],
       'notes': 'One runner (check.py), one exploration kernel (harness/mc.cpp) and one harness per area (harness/*.cpp). Replay a violation with: python3 check.py <ID> --replay <file>.'}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
missing = [i for i in ids if i not in CHECKS and i not in [a for a, _ in NOT_APPLICABLE]]
print(len(ids), 'properties,', len(man['checks']), 'checks; without check:', missing)
