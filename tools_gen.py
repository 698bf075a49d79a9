#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS, NA
here = os.path.dirname(os.path.abspath(__file__))
with open(here + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': 'bash check.sh %s quick' % p['id'], 'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
                 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA]}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(here + '/MANIFEST.json', 'a').write('\n')
