#!/usr/bin/env python3
"""Writes known-findings.json: open findings (below) and one 'fixed' entry per fix: commit of /repo (property from the table)."""
import json
import os
import subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = {'0b190fe': 'C02', '6da40db': 'C02', '568b2bd': 'C02', '8aed3e3': 'C24', '387d405': 'C03', 'a887d66': 'C03', '6fd0484': 'C03', '464614d': 'C04',
        'b346fdd': 'C04', 'a289c5e': 'C04', 'f51f42d': 'C04', '6585497': 'C05', 'c8a8aff': 'C05', 'bf9ec02': 'C05', 'd3893dc': 'C05', '4e4dcc6': 'C05',
        '7ed73b5': 'C05', '13920c2': 'C05'}
OPEN = []
for l in open(os.path.join(V, 'tools', 'fixes.txt')):
    if l.strip():
        h, p = l.split()[:2]
        PROP[h] = p
exec(open(os.path.join(V, 'tools', 'open.py')).read())
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
out = list(OPEN)
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        p = PROP.get(h[:7])
        if p is None:
            print('no property for', h, s)
        out.append(dict(id='fixed-' + h[:7], property=p, status='fixed', entry='fixed: property=%s %s %s' % (p, h[:7], s[5:]), what=s[5:]))
json.dump(dict(findings=out), open(os.path.join(V, 'known-findings.json'), 'w'), indent=1)
print(len(out), 'entries')
