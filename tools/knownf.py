#!/usr/bin/env python3
"""knownf.py ID PROP TEXT: add a known finding to known_findings.json."""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(f))
i, p, t = sys.argv[1:4]
k['findings'] = [e for e in k['findings'] if e['id'] != i]
n = sum(e['status'] == 'known' for e in k['findings'])
k['findings'].insert(n, dict(id=i, property=p, status='known', what=t))
json.dump(k, open(f, 'w'), indent=1)
