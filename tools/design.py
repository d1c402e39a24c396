"""Fills the table of planted bugs in DESIGN.md from seeded/."""
import glob
import json
import os
import re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append((m['property'], os.path.basename(os.path.dirname(d)),
                 m['needs']))
t = '| bug | caught by | needs |\n|---|---|---|\n' + ''.join(
    '| {} | {} | {} |\n'.format(b, p, n) for p, b, n in sorted(rows))
p = R + '/DESIGN.md'
s = open(p).read()
if '@@SEEDS@@' in s:
    s = s.replace('@@SEEDS@@\n', '<!--s-->\n' + t + '<!--e-->\n')
else:
    s = re.sub(r'<!--s-->\n.*?<!--e-->\n', lambda _: '<!--s-->\n' + t +
               '<!--e-->\n', s, flags=re.S)
open(p, 'w').write(s)
