"""decide one property: deductive units + labelled bounded stand-ins"""
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PV_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


class Unit(object):
    """one deductive unit: real functions executed symbolically"""

    def __init__(self, name, body, functions, replay=None, assumptions=(), loops=(),
                 timeout=60, covers=(), rlimit=30000000, max_paths=20000, branch_rlimit=2000000, thorough=False):
        self.name, self.body, self.functions = name, body, list(functions)
        self.replay, self.assumptions = replay, list(assumptions)
        self.loops, self.timeout, self.covers = loops, timeout, covers
        self.rlimit, self.max_paths, self.branch_rlimit = rlimit, max_paths, branch_rlimit
        self.thorough = thorough


class Lemma(Unit):
    """a mathematical lemma the contracts use, proved by Lean from the file `path` (checked on every run, independent of
    /repo); `theorems` must be free of sorry and of axioms other than Lean's own"""

    def __init__(self, name, path, theorems, timeout=240):
        Unit.__init__(self, name, None, [], timeout=timeout)
        self.path, self.theorems = path, theorems

    def run(self):
        res = dict(unit=self.name, status='undecided', obligations={}, covers={}, failures=[], why='', solver_s=0.0, queries=0, backends={}, paths=1)
        t0 = time.time()
        exe = shutil.which('lean')
        src = os.path.join(VERIF, 'lemmas', self.path)
        try:
            text = open(src).read()
            if not exe:
                raise OSError('lean is not installed')
            r = subprocess.run([exe, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=self.timeout)
            out = r.stdout
            if r.returncode or 'error' in out or 'sorry' in out or 'axiom ' in text.replace('#print axioms', ''):
                res['why'] = 'lean: ' + out[-300:]
            else:
                for th in self.theorems:
                    m = re.search(r"'%s' depends on axioms: \[(.*?)\]" % re.escape(th), out, re.S)
                    ax = set(x.strip() for x in m.group(1).split(',')) if m else None
                    if ax is None and "'%s' does not depend on any axioms" % th in out:
                        ax = set()
                    if ax is None or ax - {'propext', 'Classical.choice', 'Quot.sound'}:
                        res['why'] = 'lean: %s not established (axioms %s)' % (th, ax)
                        break
                    res['obligations'][th] = [1, 0, 0]
                else:
                    res['status'] = 'proved'
                    res['backends'] = {'lean': len(self.theorems)}
        except (OSError, subprocess.SubprocessError) as e:
            res['why'] = 'lean: %s' % e
        res['wall_s'] = res['solver_s'] = time.time() - t0
        res['queries'] = 1
        return res


class Bounded(object):
    """bounded stand-in: contracts executed on concrete cases of the real code.
    run(rng, budget_s, tier) -> dict(evaluations, distinct, rule, samples,
    violation=None|{'what':..., 'input':...}); replay(input) -> None | text"""

    def __init__(self, name, run, bound, functions=(), replay=None, shards=8, budget=12, thorough_budget=120):
        self.name, self.run, self.bound = name, run, bound
        self.functions = list(functions)
        self.replay, self.shards = replay, shards
        self.budget, self.thorough_budget = budget, thorough_budget


_PKG = None


def symbolic_package():
    global _PKG
    if _PKG is None:
        from .loader import Package
        _PKG = Package(SRC)
    return _PKG


def plain():
    """the untransformed package from the current working tree"""
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    sys.dont_write_bytecode = True
    import logging
    logging.disable(logging.CRITICAL)
    import aaf2
    return aaf2


def load_spec(pid):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module('specs.' + pid)


def run_unit(pid, uname):
    """worker: returns a plain dict"""
    sys.setrecursionlimit(20000)
    import logging
    logging.disable(logging.CRITICAL)
    t0 = time.time()
    res = dict(unit=uname, status='proved', obligations={}, covers={}, failures=[], why='',
               solver_s=0.0, queries=0, backends={}, paths=0)
    c = None
    try:
        from . import core, loops
        spec = load_spec(pid)
        u = [x for x in spec.UNITS if x.name == uname][0]
        if isinstance(u, Lemma):
            return u.run()
        P = symbolic_package()
        c = core.Ctx(rlimit=u.rlimit, branch_rlimit=u.branch_rlimit, deadline=time.time() + u.timeout)

        def body():
            specs = [s() if callable(s) else s for s in u.loops]
            loops.ACTIVE[:] = [specs]
            u.body(P)
        core.explore(body, c, u.max_paths)
    except core.Unsupported as e:
        res['status'], res['why'] = 'undecided', 'outside the subset: %s' % e
        if os.environ.get('PV_DEBUG'):
            traceback.print_exc()
    except core.Control as e:
        res['status'], res['why'] = 'undecided', 'control: %r' % e
        if os.environ.get('PV_DEBUG'):
            traceback.print_exc()
    except RecursionError:
        res['status'], res['why'] = 'undecided', 'recursion limit'
    except Exception as e:
        res['status'] = 'undecided'
        res['why'] = 'harness exception %s: %s' % (type(e).__name__, e)
        res['trace'] = traceback.format_exc()[-2500:]
        if os.environ.get('PV_DEBUG'):
            traceback.print_exc()
    if c is not None:
        res['obligations'] = c.obl
        res['covers'] = c.covers
        res['failures'] = [dict(name=f.name, model=f.model, cut=f.cut, exc=f.exc, info=str(f.info) if f.info else '')
                           for f in c.failures[:20]]
        res['solver_s'] = c.solver_time
        res['queries'] = c.queries
        res['backends'] = c.backends
        res['paths'] = c.paths
        if c.failures:
            res['status'] = 'refuted'
        elif res['status'] == 'proved':
            if c.unknowns:
                res['status'], res['why'] = 'undecided', 'solver gave up on: %s' % sorted(set(c.unknowns))
            elif not c.obl:
                res['status'], res['why'] = 'undecided', 'vacuous: no obligation was generated'
            elif any(not v for v in c.covers.values()):
                res['status'], res['why'] = 'undecided', 'vacuous: precondition unreachable %s' % c.covers
            elif set(u.covers) - set(k for k, v in c.covers.items() if v):
                res['status'] = 'undecided'
                res['why'] = 'vacuous: not reached %s' % sorted(set(u.covers) - set(c.covers))
    res['wall_s'] = time.time() - t0
    # replay of counter-models on the unmodified real code
    if res['status'] == 'refuted':
        plain()
        t1 = time.time()
        for f in res['failures']:
            f['replayed'] = None
            if u.replay is not None and time.time() - t1 < 30:
                try:
                    f['replayed'] = u.replay(f['model'], f['name'])
                except Exception as e:
                    f['replay_error'] = '%s: %s' % (type(e).__name__, e)
            if f['replayed']:
                break
    return res


def run_bounded(pid, bname, seed, shard, budget, tier):
    t0 = time.time()
    try:
        sys.stdout = open(os.devnull, 'w')      # the code under test prints on failures
        sys.setrecursionlimit(3000)
        plain()
        spec = load_spec(pid)
        b = [x for x in spec.BOUNDED if x.name == bname][0]
        rng = random.Random('%s/%s/%s/%s' % (pid, bname, seed, shard))
        r = b.run(rng, budget, tier, shard)
        r.setdefault('violation', None)
    except Exception as e:
        r = dict(error='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-3000:],
                 evaluations=0, distinct=0, violation=None)
    r['name'] = bname
    r['wall_s'] = time.time() - t0
    return r


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def scan_admits(pid):
    """mechanical scan of the spec for assumed facts"""
    n = 0
    with open(os.path.join(VERIF, 'specs', pid + '.py')) as f:
        for line in f:
            if re.search(r'\bassume\(', line):
                n += 1
    return n


def safe(x):
    if isinstance(x, (bytes, bytearray)):
        return {'hex': bytes(x).hex()}
    if isinstance(x, dict):
        return {str(k): safe(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [safe(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def unsafe(x):
    if isinstance(x, dict):
        if set(x) == {'hex'}:
            return bytes.fromhex(x['hex'])
        return {k: unsafe(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unsafe(v) for v in x]
    return x


def _call(args):
    return globals()[args[0]](*args[1:])


def _child(conn, job):
    try:
        r = _call(job)
    except BaseException as e:
        r = '%s: %s' % (type(e).__name__, e)
    try:
        conn.send(r)
    except Exception as e:
        conn.send('%s: %s' % (type(e).__name__, e))
    conn.close()
    os._exit(0)


def run_jobs(jobs, nproc, limit):
    """one forked process per job, nproc at a time; a process that dies or does not end by the limit costs only its own job"""
    from multiprocessing.connection import wait
    mpc = mp.get_context('fork')
    todo, running = list(jobs), {}
    results, crashed = [], []
    while todo or running:
        while todo and len(running) < nproc and time.time() < limit:
            j = todo.pop(0)
            r, w = mpc.Pipe(False)
            sys.stdout.flush()
            p = mpc.Process(target=_child, args=(w, j))
            p.start()
            w.close()
            running[r] = (p, j)
        ready = wait(list(running), max(0, min(limit - time.time(), 5))) if running else []
        for r in ready:
            p, j = running.pop(r)
            try:
                x = r.recv()
                if isinstance(x, str):
                    crashed.append((j, x))
                else:
                    results.append((j, x))
            except EOFError:
                p.join(5)
                crashed.append((j, 'the process ended without a result (exit code %s)' % p.exitcode))
            r.close()
            p.join(5)
            if p.is_alive():
                p.kill()
        if time.time() >= limit:
            for p, j in running.values():
                p.kill()
                crashed.append((j, 'no result within the time limit'))
            crashed += [(j, 'not started within the time limit') for j in todo]
            break
    return results, crashed


def main(pid, argv):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    spec = load_spec(pid)
    units = [u for u in spec.UNITS if tier == 'thorough' or not u.thorough]
    only = [a for a in argv if not a.startswith('-')]
    if only:
        units = [u for u in units if any(o in u.name for o in only)]
    bounded = list(spec.BOUNDED)
    if only:
        bounded = [b for b in bounded if any(o in b.name for o in only)]
    jobs = [('run_unit', pid, u.name) for u in units]
    for b in bounded:
        bud = b.thorough_budget if tier == 'thorough' else b.budget
        n = b.shards
        for s in range(n):
            jobs.append(('run_bounded', pid, b.name, seed, s, bud, tier))
    results = []
    if getattr(spec, 'PRELOAD', None) and units:
        sys.setrecursionlimit(20000)
        try:
            spec.PRELOAD(symbolic_package())
        except BaseException as e:          # the units will report it
            print('note: preload failed: %s: %s' % (type(e).__name__, e))
    limit = t0 + (780 if tier == 'quick' else 7000)
    results, crashed = run_jobs(jobs, 8, limit)
    ures = [r for j, r in results if j[0] == 'run_unit']
    bres = [r for j, r in results if j[0] == 'run_bounded']
    for j, why in crashed:
        if j[0] == 'run_unit':
            ures.append(dict(unit=j[2], status='undecided', why=why, obligations={}, covers={},
                             failures=[], solver_s=0, queries=0, backends={}, paths=0, wall_s=0))
        else:
            bres.append(dict(name=j[2], error=why, evaluations=0, distinct=0, violation=None, wall_s=0))
    return decide(pid, spec, units, bounded, ures, bres, tier, seed, time.time() - t0)


def decide(pid, spec, units, bounded, ures, bres, tier, seed, wall):
    known = known_findings(pid)
    rdir = os.path.join(VERIF, 'replay')
    os.makedirs(rdir, exist_ok=True)
    viol, notes = [], []
    kf_hit = []

    def is_known(key):
        for k in known:
            if k.get('key') and key and k['key'] == key:
                kf_hit.append(k)
                return True
        return False
    for r in bres:
        vs = r.get('violations') or ([r['violation']] if r.get('violation') else [])
        for v in vs:
            if not is_known(v.get('key')):
                viol.append(dict(kind='bounded', name=r['name'], what=v['what'], input=v['input'], replayed=True))
    for r in ures:
        if r['status'] == 'refuted':
            hit = [f for f in r['failures'] if f.get('replayed')]
            if hit:
                f = hit[0]
                if not is_known('unit:%s:%s' % (r['unit'], f['name'])):
                    viol.append(dict(kind='obligation', name='%s/%s' % (r['unit'], f['name']), what=f['replayed'],
                                     input=f['model'], replayed=True))
            else:
                for f in r['failures']:
                    if is_known('unit:%s:%s' % (r['unit'], f['name'])):
                        continue
                    if f['cut'] and not f['exc']:
                        viol.append(dict(kind='obligation', name='%s/%s' % (r['unit'], f['name']),
                                         what='obligation refuted by the solver', input=f['model'],
                                         replayed=False, verifier=f))
                    else:
                        notes.append('obligation %s/%s: counter-model not confirmed on the real code '
                                     '(treated as undecided)' % (r['unit'], f['name']))
    nobl = ndis = nfail = nunk = 0
    names = []
    for r in ures:
        for k, (a, b, c) in sorted(r['obligations'].items()):
            nobl += a + b + c
            ndis += a
            nfail += b
            nunk += c
            names.append('%s/%s' % (r['unit'], k))
    evals = sum(r.get('evaluations', 0) for r in bres)
    distinct = sum(r.get('distinct', 0) for r in bres)
    backends = {}
    for r in ures:
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
    fns = sorted(set(f for u in units for f in u.functions))
    status = {r['unit']: r['status'] for r in ures}
    proved_fns = sorted(set(f for u in units if status.get(u.name) == 'proved' for f in u.functions))
    level = getattr(spec, 'LEVEL', 'proof')
    cov = dict(
        obligations=nobl, discharged=ndis, refuted=nfail, solver_unknown=nunk,
        checker_cmd='VERIF_TIER=%s python3-vt /verif/check.py %s' % (tier, pid),
        trusted_base=TRUSTED + list(getattr(spec, 'TRUSTED', [])),
        functions_under_contract=fns,
        functions_with_all_units_proved=proved_fns,
        units=[dict(unit=r['unit'], status=r['status'], why=r.get('why', ''), paths=r['paths'],
                    obligations=sum(sum(x) for x in r['obligations'].values()),
                    solver_s=round(r['solver_s'], 3), queries=r['queries'], wall_s=round(r['wall_s'], 2),
                    covers=r['covers']) for r in ures],
        obligation_names=sorted(set(names)),
        discharged_by=backends,
        solver_s=round(sum(r['solver_s'] for r in ures), 2),
        bounded_stand_ins=[dict(name=b.name, bound=b.bound, functions=b.functions,
                                evaluations=sum(r.get('evaluations', 0) for r in bres if r['name'] == b.name),
                                errors=[r['error'] for r in bres if r['name'] == b.name and r.get('error')])
                           for b in bounded],
        evaluations=evals, distinct_nontrivial=distinct,
        rule='; '.join('%s: %s' % (b.name, b.bound) for b in bounded) or 'no bounded part',
        samples=[s for r in bres for s in r.get('samples', [])][:6] +
                [dict(unit=r['unit'], obligations=list(r['obligations'])[:3]) for r in ures][:6],
        notes=notes,
        assume_statements_in_spec=scan_admits(pid),
        explanation='deductive units are counted under obligations/discharged; evaluations counts only the '
                    'bounded stand-ins, which are never counted as proved',
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=safe(cov),
              assumptions=sorted(set(a for u in units for a in u.assumptions)) + list(getattr(spec, 'ASSUMPTIONS', [])),
              wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    for r in ures:
        print('unit %-46s %-9s obl=%-4d paths=%-4d %5.1fs %s' % (
            r['unit'], r['status'], sum(sum(x) for x in r['obligations'].values()), r['paths'], r['wall_s'], r.get('why', '')))
        if r['status'] != 'proved' and os.environ.get('PV_DEBUG') and r.get('trace'):
            print(r['trace'])
        if os.environ.get('PV_DEBUG'):
            for f in r['failures']:
                print('   FAILED', f['name'], 'cut' if f['cut'] else '', str(f['model'])[:600], f.get('replayed'), f.get('replay_error', ''))
    for b in bounded:
        rs = [r for r in bres if r['name'] == b.name]
        print('bounded %-43s evaluations=%d %.1fs %s' % (b.name, sum(r.get('evaluations', 0) for r in rs),
              max([r['wall_s'] for r in rs] or [0]), '; '.join(sorted(set(r['error'] for r in rs if r.get('error'))))))
        if os.environ.get('PV_DEBUG'):
            for r in rs:
                if r.get('trace'):
                    print(r['trace'])
                    break
    for n in notes:
        print('note:', n)
    seen = set()
    for k in known:
        if k.get('status') == 'known' and k['id'] not in seen:
            seen.add(k['id'])
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    errors = [r['error'] for r in bres if r.get('error')]
    viol.sort(key=lambda v: not v['replayed'])
    if viol:
        v = viol[0]
        path = os.path.join(rdir, '%s-%d.json' % (pid, os.getpid()))
        with open(path, 'w') as f:
            json.dump(safe(dict(property=pid, violated=v['name'], kind=v['kind'], what=v['what'], input=v['input'],
                                verifier_output=v.get('verifier'), all=[x['name'] + ': ' + str(x['what'])[:200] for x in viol],
                                replay_cmd='python3-vt /verif/check.py --replay %s' % path)), f, indent=1, default=repr)
        print('violated: %s: %s' % (v['name'], v['what']))
        print('input: %s' % json.dumps(safe(v['input']), default=repr)[:1500])
        if v['replayed']:
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        return 1
    if errors and not any(r.get('evaluations') for r in bres):
        print('ERROR: bounded stand-ins gave no result: %s' % errors[:2])
        return 3
    if not nobl and not evals:
        print('ERROR: nothing was checked')
        return 3
    return 0


TRUSTED = [
    'pydv: the verifier itself (symbolic values, path exploration, loop cut points) and z3 5.3 / cvc5 1.1',
    'the mechanical AST transformation of pydv/loader.py (cross-checked by running the repository tests on it)',
    'pydv/libs.py: semantics given to struct, array, bytearray, memoryview, str, uuid.UUID, BytesIO',
    'CPython 3.12 executes the untransformed constructs',
]


def replay_file(path):
    with open(path) as f:
        d = json.load(f)
    spec = load_spec(d['property'])
    plain()
    inp = unsafe(d['input'])
    if d['kind'] == 'bounded':
        b = [x for x in spec.BOUNDED if x.name == d['violated']][0]
        r = b.replay(inp) if b.replay else 'no replay function; input recorded'
    else:
        un, _, ob = d['violated'].partition('/')
        u = [x for x in spec.UNITS if x.name == un][0]
        r = u.replay(inp, ob) if u.replay else 'no replay function; model recorded'
    print('replay:', r)
    return 1 if r else 0
