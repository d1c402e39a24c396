"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, 'tools', 'levels.py')).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if glob.glob(os.path.join(ROOT, 'checks', i.lower() + '_*.py')):
        tech, note = LEVELS[i]
        checks.append({
            'property': i,
            'quick_cmd': './run.sh {}'.format(i),
            'thorough_cmd': 'VERIF_TIER=thorough ./run.sh {}'.format(i),
            'technique': tech, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(
            i, 'runtime-monitoring check not built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'All monitors attach from the harness at public boundaries; no '
     'hooks were added to /repo.  known_findings.json lists genuine defects '
     'kept as findings and the ones repaired by fix: commits.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
