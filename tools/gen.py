#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); R = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS
with open(R + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh',
       'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                   'technique': p['tech'], 'level': 'other', 'level_note': p['note']} for p in PROPS if 'na' not in p],
       'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in PROPS if 'na' in p],
       'notes': 'All checks analyse the MIR of /repo (dumped by driver/, a rustc_private driver run under cargo check) with the abstract interpreter in analysis/. Nothing of /repo is executed. No hooks in /repo are needed.'}
json.dump(man, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(man['checks']), 'checks', len(man['not_applicable']), 'n/a')
