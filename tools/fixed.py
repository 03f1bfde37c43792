#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json."""
import json
import os
import sys

P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
f = json.load(open(P))['findings']
n = 1 + max(int(e['id'][1:]) for e in f)
f.append({'id': 'F%02d' % n, 'property': sys.argv[1], 'status': 'fixed', 'fixed': 'fixed: property=%s %s %s' % tuple(sys.argv[1:4])})
open(P, 'w').write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(e) for e in f) + '\n]}\n')
