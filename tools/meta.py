#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables in tools/props.py"""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS
checks = []; na = []
with open(V + '/properties.jsonl', 'w') as fh:
    for p in PROPS:
        rec = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
               'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
               'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                           'state': p['state'], 'observe_at': p['observe'], 'hook_needed': None}}
        fh.write(json.dumps(rec) + '\n')
        if 'na' in p: na.append({'property': p['id'], 'reason': p['na']})
        else:
            c = 'python3 /verif/check.py %s --tier ' % p['id']
            checks.append({'property': p['id'], 'quick_cmd': c + 'quick', 'thorough_cmd': c + 'thorough',
                           'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'bash /verif/engine/build_tool.sh', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
