"""python3 tools/stable.py OUT.json: which stable tests did not pass."""
import json, sys
o = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
st = b['stable']; p = set(o['passed'])
miss = [t for t in st if t not in p]
print(len(miss), 'stable tests not passing', miss[:10])
