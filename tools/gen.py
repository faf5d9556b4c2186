"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand
after editing; both results are committed)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NA

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in sorted(PROPS + NA, key=lambda p: p['id']):
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w}
                                      for n, w in p['mech']]}}) + '\n')
        assert len(p['title']) <= 80, p['id']
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'true',
        'checks': [{
            'property': p['id'],
            'quick_cmd': 'python3 sa/check.py %s' % p['id'],
            'thorough_cmd': 'python3 sa/check.py %s --thorough' % p['id'],
            'technique': p['technique'],
            'level': 'other',
            'level_note': p['note']} for p in sorted(
                PROPS, key=lambda p: p['id'])],
        'not_applicable': [{'property': p['id'], 'reason': p['reason']}
                           for p in NA]}, f, indent=1)
    f.write('\n')
