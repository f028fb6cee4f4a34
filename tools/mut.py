"""python3 tools/mut.py ID muts.py: run the check of ID on scratch copies of /repo/src with one replacement each.
muts.py defines M = [(file, old, new), ...]"""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
pid, path = sys.argv[1], sys.argv[2]
ns = {}
exec(open(path).read(), ns)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    f, old, new = m
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree(os.environ.get('PV_REPO', '/repo') + '/src', d + '/src')
        p = d + '/src/aaf2/' + f
        s = open(p).read()
        if s.count(old) != 1:
            return m, 'BAD %d matches' % s.count(old), ''
        open(p, 'w').write(s.replace(old, new))
        r = subprocess.run(['python3-vt', V + '/check.py', pid], env=dict(os.environ, PV_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        units = [l.split()[1:5] for l in r.stdout.splitlines() if l.startswith('unit') and 'proved ' not in l]
        w = [l for l in r.stdout.splitlines() if l.startswith('violated') or l.startswith('VIOLATION')]
        return m, 'rc=%d' % r.returncode, '\n      '.join([str(len(units)) + ' units not proved'] + [x[:260] for x in w])
    finally:
        shutil.rmtree(d)


with cf.ThreadPoolExecutor(1) as ex:
    for m, a, b in ex.map(one, ns['M']):
        print(a, '|', m[1].strip()[:70].replace('\n', '; '), '=>', m[2].strip()[:70].replace('\n', '; '))
        print('     ', b, flush=True)
