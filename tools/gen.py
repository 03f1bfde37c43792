#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from mc/props.py (claimed: the properties that have a check module)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from mc.props import PROPS  # noqa: E402

NA = {}
lines, checks, na = [], [], []
for pid, p in sorted(PROPS.items()):
    lines.append({'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                  'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}})
    if os.path.exists(os.path.join(V, 'mc/checks/%s.py' % pid.lower())):
        checks.append({'property': pid, 'quick_cmd': '/opt/venv/bin/python -B check.py %s --tier quick' % pid,
                       'thorough_cmd': '/opt/venv/bin/python -B check.py %s --tier thorough' % pid,
                       'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']})
    else:
        na.append({'property': pid, 'reason': p.get('na') or NA.get(pid, 'no check built yet')})
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    f.writelines(json.dumps(x) + '\n' for x in lines)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'.\'); from mc import env; env.setup()"',
               'hooks': {'guard': 'none', 'enable': 'no hooks: the checks import the code from /repo directly', 'source_commits': []},
               'checks': checks, 'not_applicable': na}, f, indent=1)
print(len(lines), 'properties,', len(checks), 'claimed')
