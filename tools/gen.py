#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props/*.json-like python dicts"""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__)); base = os.path.dirname(here)
P = []
for f in sorted(glob.glob(os.path.join(here, 'props', '*.py'))):
    ns = {}; exec(open(f).read(), ns); P += ns['P']
P.sort(key=lambda p: p['id'])
with open(os.path.join(base, 'properties.jsonl'), 'w') as o:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        o.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
        }, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'bash check.sh ALL',
     'checks': [{'property': p['id'], 'quick_cmd': 'bash check.sh %s quick' % p['id'],
                 'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
                 'technique': 'property-based testing: ' + p['tech'], 'level': 'exploration', 'level_note': p['note']} for p in P],
     'not_applicable': [],
     'notes': 'No hooks in /repo are needed: everything the checks use is public. Fixed defects: known_findings.txt. Replay a violation with target/debug/<id> --replay FILE.'}
json.dump(m, open(os.path.join(base, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(P), 'properties')
