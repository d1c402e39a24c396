"""mkseed.py ID PROPERTY < spec: write /verif/seeded/ID (patch made from a
scratch copy).  Spec (python): FILE, EDITS=[(old,new)] or FILES={f: edits},
NEEDS, BREAKS, DEMO."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
sid, prop = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
files = ns.get('FILES') or {ns['FILE']: ns['EDITS']}
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
out = ''
for f, edits in files.items():
    s = open('/repo/' + f).read()
    n = s
    for a, b in edits:
        assert n.count(a) == 1, (f, n.count(a), a)
        n = n.replace(a, b)
    t = tempfile.mkdtemp()
    for side, text in (('a', s), ('b', n)):
        p = os.path.join(t, side, f)
        os.makedirs(os.path.dirname(p))
        open(p, 'w').write(text)
    r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=t,
                       capture_output=True, text=True).stdout
    lines = r.splitlines(True)
    lines[0], lines[1] = '--- a/%s\n' % f, '+++ b/%s\n' % f
    out += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(lines)
    shutil.rmtree(t)
open(d + '/patch.diff', 'w').write(out)
json.dump({'property': prop, 'needs': ns['NEEDS'],
           'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'),
          indent=1)
open(d + '/demo.sh', 'w').write('''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec timeout 280 /opt/venv/bin/python -W ignore "$here/demo.py"
''')
open(d + '/demo.py', 'w').write(ns['DEMO'])
