#!/usr/bin/env python3
"""tools/mkseed.py FILE : FILE defines SEEDS = [dict(id, property, edits=[(file, old, new)...], needs, what, demo)]; writes seeded/<id>/."""
import json
import os
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns['SEEDS']:
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.check_call(['git', 'clone', '-q', '/repo', t + '/r'])
        for f, a, b in s['edits']:
            p = t + '/r/BayesicFitting/source/' + f
            x = open(p).read()
            assert x.count(a) == 1, (s['id'], f, x.count(a), a)
            open(p, 'w').write(x.replace(a, b))
            # every removed line has to be an original one
        base = subprocess.run(['git', '-C', t + '/r', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
        diff = subprocess.run(['git', '-C', t + '/r', 'diff'], capture_output=True, text=True).stdout
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:].strip():
                f = s['edits'][0][0]
                orig = ''.join(subprocess.run(['git', '-C', t + '/r', 'show', base + ':BayesicFitting/source/' + e[0]], capture_output=True, text=True).stdout for e in s['edits'])
                if l[1:] not in orig.splitlines():
                    print('WARNING', s['id'], 'not an original line:', l)
        open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
    print(s['id'])
