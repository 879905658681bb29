#!/usr/bin/env python3
"""fixed.py PROP COMMIT TEXT: add a fixed entry to known_findings.json."""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(f))
p, c, t = sys.argv[1:4]
k['findings'].append(dict(id='FX-' + c, property=p, status='fixed', commit=c, what=f'fixed: property={p} {c} {t}'))
json.dump(k, open(f, 'w'), indent=1)
