"""addfixed.py ID WHAT...: record /repo commits (hash prefix looked up by subject)."""
import json
import os
import subprocess
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 'known_findings.json')
d = json.load(open(p))
pid, h, what = sys.argv[1:4]
full = subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--format=%h']).decode().split()
h = [x for x in full if x.startswith(h) or h.startswith(x)][0]
d['fixed'].append('fixed: property=%s %s %s' % (pid, h, what))
json.dump(d, open(p, 'w'), indent=1)
