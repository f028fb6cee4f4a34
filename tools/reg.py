"""python3 tools/reg.py ID note [level]: claim a property and regenerate the manifest"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'tools', 'notes.json')
d = json.load(open(p))
d[sys.argv[1]] = dict(note=sys.argv[2])
if len(sys.argv) > 3:
    d[sys.argv[1]]['level'] = sys.argv[3]
json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
for t in ('findings', 'props'):
    subprocess.check_call([sys.executable, os.path.join(V, 'tools', t + '.py')])
