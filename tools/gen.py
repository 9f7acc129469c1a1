#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from checks/registry.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'checks'))
import registry as R
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for i, p in sorted(list(R.PROPS.items()) + list(R.NA.items())):
        assert len(p['title']) <= 80, (i, len(p['title']))
        f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mech']}}, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'checks': [{'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                 'technique': p['technique'], 'level': 'other', 'level_note': p['note']} for i, p in sorted(R.PROPS.items())],
     'not_applicable': [{'property': i, 'reason': p['reason']} for i, p in sorted(R.NA.items())]}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
