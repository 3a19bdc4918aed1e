"""Append 'fixed:' entries to known_findings.json: fixed.py PROPERTY COMMIT TEXT..."""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
for t in sys.argv[3:]:
    d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], sys.argv[2], t))
with open(p, 'w') as f:
    json.dump(d, f, indent=1, ensure_ascii=False)
