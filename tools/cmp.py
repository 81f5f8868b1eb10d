"""stable tests lost in a test run"""
import json, sys
b = json.load(open('/opt/vp/BASELINE.json'))
o = json.load(open(sys.argv[1]))
s = set(b.get('stable') or b.get('passed') or b)
p = set(o.get('passed') or [])
print('lost', sorted(s - p), 'passed', len(p))
