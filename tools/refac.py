"""python3 tools/refac.py FILE DIR: apply behaviour-preserving edits to a copy of /repo in DIR and run its stable tests"""
import sys, os, shutil, subprocess, json
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = sys.argv[2]
shutil.rmtree(d, ignore_errors=True)
subprocess.check_call(['git', 'clone', '-q', '/repo', d])
bad = 0
for f, old, new in ns['R']:
    p = os.path.join(d, 'src/aaf2', f)
    s = open(p).read()
    if s.count(old) != 1:
        print('BAD', f, s.count(old), repr(old[:70])); bad = 1
        continue
    open(p, 'w').write(s.replace(old, new))
if bad:
    sys.exit(1)
ids = json.load(open('/opt/vp/BASELINE.json'))
r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '--timeout=120', 'tests', '-p', 'no:cacheprovider'], cwd=d, env=dict(os.environ, PYTHONPATH=d + '/src:' + d + '/tests', PYTHONDONTWRITEBYTECODE='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
print(r.stdout[-600:])
