"""python3 tools/seed.py FILE [id...]: build and validate planted bugs
FILE defines S = {id: dict(prop, edits=[(file, old, new)], demo=source, needs, breaks)}; each is tried in scratch copies:
demo passes on the tree, fails with the patch, stable tests pass with the patch, check reports it.  Kept under seeded/<id>."""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
stable = json.load(open('/opt/vp/BASELINE.json'))
SH = '''#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$here/demo.py"
'''


def run(cmd, cwd, env=None, t=900):
    r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def one(sid):
    s = ns['S'][sid]
    out = os.path.join(V, 'seeded', sid)
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        d = tmp + '/repo'
        subprocess.check_call(['git', 'clone', '-q', '/repo', d])
        os.makedirs(out, exist_ok=True)
        open(out + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(out + '/demo.sh', 'w').write(SH)
        os.chmod(out + '/demo.sh', 0o755)
        rc, o = run(['sh', out + '/demo.sh'], d)
        if rc:
            return sid, 'DEMO FAILS ON THE TREE\n' + o[-1500:]
        # lines of our own fix commits are not to be touched
        for f, old, new in s['edits']:
            p = d + '/src/aaf2/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return sid, 'BAD EDIT: %d matches of %r' % (t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        rc, o = run(['git', 'diff'], d)
        open(out + '/patch.diff', 'w').write(o)
        bl = subprocess.run('git diff -U0 | grep -c "^-[^-]" ', shell=True, cwd=d, stdout=subprocess.PIPE, text=True).stdout.strip()
        ours = ''
        import re
        cur = None
        for l in o.splitlines():
            if l.startswith('--- a/'):
                cur = l[6:]
            m = re.match(r'@@ -(\d+)', l)
            if m:
                ln = int(m.group(1))
                continue
            if cur and l[:1] in ' -' and not l.startswith('---'):
                if l[0] == '-':
                    b = subprocess.run(['git', 'blame', '-s', '-L', '%d,%d' % (ln, ln), 'HEAD', '--', cur], cwd=d, stdout=subprocess.PIPE, text=True).stdout
                    if not b.startswith('^1487469'):
                        ours += b
                ln += 1
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(out + '/meta.json', 'w'), indent=1)
        rc, o = run(['sh', out + '/demo.sh'], d)
        if rc == 0:
            return sid, 'DEMO PASSES WITH THE PATCH'
        demo = o.strip().splitlines()[-1:] or ['']
        shutil.rmtree(d + '/tests/results', ignore_errors=True)
        rc, o = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--timeout=120', '--continue-on-collection-errors',
                     '-o', 'junit_family=xunit2', '--junitxml=' + tmp + '/j.xml', 'tests'], d,
                    dict(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONPATH=d + '/src:' + d + '/tests', TZ='UTC'))
        shutil.rmtree(d + '/tests/results', ignore_errors=True)
        import xml.etree.ElementTree as ET
        ok = set()
        for c in ET.parse(tmp + '/j.xml').getroot().iter('testcase'):
            if not len([x for x in c if x.tag in ('failure', 'error', 'skipped')]):
                ok.add(c.get('classname') + '::' + c.get('name'))
        names = stable.get('stable') or stable.get('tests') or []
        lost = [n for n in names if n not in ok and n.split('::', 1)[-1] not in ok]
        t = 'tests lost: %s (%d passed)' % (lost[:4], len(ok))
        rc, o = run(['python3-vt', V + '/check.py', s['prop']], V, dict(PV_REPO=d))
        v = [l for l in o.splitlines() if l.startswith('VIOLATION') or l.startswith('violated')]
        nf = [l for l in v if 'no-failing-input' in l]
        units = [l for l in o.splitlines() if l.startswith('unit') and 'proved ' not in l]
        return sid, '\n   '.join(['%s; demo: %s%s' % (t, demo[0][:150], '; OUR LINES ' + ours if ours else ''),
                                 'check rc=%d: %s%s' % (rc, 'CAUGHT' if rc == 1 and any(not l.endswith('no-failing-input-found') for l in v) else 'no input only' if rc == 1 else 'MISSED', '')]
                                + [x[:230] for x in v[:3]] + [x[:100] for x in units[:4]])
    finally:
        shutil.rmtree(tmp)


def safe(sid):
    try:
        return one(sid)
    except Exception as e:
        return sid, 'EXCEPTION %r' % e


with cf.ThreadPoolExecutor(3) as ex:
    for f in cf.as_completed([ex.submit(safe, k) for k in ns['S'] if not want or k in want]):
        print('==', *f.result(), flush=True)
