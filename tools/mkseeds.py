"""Materialises seeded/<id>/ from tools/seeds/*.py.  Each seed file defines
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...] and DEMO (python
source).  Seeds are only ever applied to a scratch copy or undone at once."""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SH = '''#!/bin/bash
# exits 0 when the guarantee holds on the tree in the current directory
D="$(cd "$(dirname "$0")" && pwd)"
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$D/stubs:$PWD" exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''
want = sys.argv[1:]
for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
    for ID, s in runpy.run_path(f)['SEEDS'].items():
        if want and ID not in want:
            continue
        d = os.path.join(ROOT, 'seeded', ID)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diff = ''
        by = {}
        for fn, old, new in s['edits']:
            src = by.get(fn) or open('/repo/' + fn, newline='').read()
            if '\r\n' in src:
                old = old.replace('\n', '\r\n')
                new = new.replace('\n', '\r\n')
            assert src.count(old) == 1, (ID, fn, src.count(old), old)
            by[fn] = src.replace(old, new)
        for fn, src in by.items():
            with tempfile.NamedTemporaryFile('w', delete=False,
                                             newline='') as t:
                t.write(src)
            r = subprocess.run(['diff', '-u', '--label', 'a/' + fn,
                                '--label', 'b/' + fn, '/repo/' + fn, t.name],
                               capture_output=True)
            os.unlink(t.name)
            diff += r.stdout.decode()
        open(os.path.join(d, 'patch.diff'), 'w', newline='').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip())
        shutil.copytree(os.path.join(HERE, 'stubs'), os.path.join(d, 'stubs'),
                        ignore=shutil.ignore_patterns('__pycache__'))
