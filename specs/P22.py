"""P22: dependent mobs are enumerated once, after what they depend on.

The graph is arbitrary: mobs are integers, reference K of mob J goes to to(J, K) when it is one (real(J, K)).
up: reachable from the mob asked (closed under references); rank: falls along references (graphs without cycles only).
Contract of walk_references: the objects below a mob (P13 proves it for one object)."""
import random
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec, Val
from pydv.seq import mk, val_eq
from pydv.runner import Unit, Bounded, plain
from specs.common import drive, AafFiles, drop_chunks

D = 'mobs.Mob.dependant_mobs'


class Graph(object):
    def __init__(self, P, acyclic):
        self.acyclic = acyclic
        self.deg, self.to_ = UF('objects', 1, 0), UF('to', 2)
        self.isref, self.gone = UF('isref', 2, boolean=True), UF('gone', 2, boolean=True)
        self.up_, self.rank = UF('up', 1, boolean=True), UF('rank', 1)
        self.self_ = fresh_int('self')
        assume(self.up_(self.self_))
        g = self

        class M(P.mobs.Mob):
            __slots__ = ('k',)
            def __new__(cls, k): return object.__new__(cls)
            def __init__(s, k): s.k = k
            mob_id = property(lambda s: s.k)
            def walk_references(s, topdown=False): return Objects(s.k)

        class Objects(object):
            def __init__(s, k): s.k = k
            def pv_lazy(s): return mk('list', n=g.deg(s.k), f=lambda j: (Ref(s.k, j) if g.isref(s.k, j) else Other(), []))

        class Ref(P.components.SourceClip):
            __slots__ = ('k', 'j')
            def __new__(cls, k, j): return object.__new__(cls)
            def __init__(s, k, j): s.k, s.j = k, j

            @property
            def mob(s):
                return None if g.gone(s.k, s.j) else g.mob(g.to(s.k, s.j))

        class Other(object):
            pass
        self.M = M
        self.root = M(self.self_)

    def mob(self, k):
        return self.root if k == self.self_ else self.M(k)

    def real(self, J, K): return and_(0 <= K, K < self.deg(J), self.isref(J, K), not_(self.gone(J, K)))

    def to(self, J, K):
        t = self.to_(J, K)
        r = self.real(J, K)
        assume(implies(and_(r, self.up_(J)), self.up_(t)))
        if self.acyclic:
            assume(implies(r, self.rank(t) < self.rank(J)))
        return t


class Ids(object):
    """a set of ids"""
    pv_ghost = True

    def __init__(self, has=None): self.has = has or (lambda k: False)
    def pv_contains(self, k): return self.has(k)
    def __contains__(self, k): return bool(self.has(k))

    def add(self, k):
        o = self.has
        self.has = lambda j: or_(val_eq(j, k), o(j))

    def discard(self, k):
        o = self.has
        self.has = lambda j: and_(not_(val_eq(j, k)), o(j))

    def remove(self, k):
        if not self.has(k):
            raise KeyError(k)
        self.discard(k)


class Stack(object):
    """the stack: any height, ids by position"""
    pv_ghost = True

    def __init__(self, g, n, f): self.g, self.n, self.f = g, n, f
    def pv_len(self): return self.n
    def __bool__(self): return bool(self.n > 0)
    def at(self, q): return self.f(q)

    def __getitem__(self, k):
        if k != -1:
            raise Unsupported('stack item other than the top')
        if not self.n > 0:
            raise IndexError('empty')
        return self.g.mob(self.f(self.n - 1))

    def pop(self, k=-1):
        r = self[k]
        self.n = self.n - 1
        return r

    def append(self, m):
        n, f = self.n, self.f
        self.f = lambda q: ite(val_eq(q, n), m.k, f(q))
        self.n = n + 1


def shape(cur, g):
    """the stack as a function (a list at the start)"""
    if isinstance(cur, list):
        return len(cur), lambda q: cur[0].k if len(cur) else 0
    return cur.n, cur.f


class Outer(LoopSpec):
    name = 'stack'
    fn = 'dependant_mobs'

    def __init__(self, h): self.h = h
    def match(self, L, env): return not L.isfor and isinstance(env.get('stack'), list)

    def ghost0(self, L, env):
        n, f = shape(env['stack'], self.h['g'])
        return dict(n=n, f=f, V=env['visited'].has, I=env['in_progress'].has, P=lambda J: 0, Q=lambda J, K: 0)

    def fresh(self, L):
        return dict(n=fresh_int('height', 0), f=UF('stack'), V=UF('visited', 1, boolean=True), I=UF('in_progress', 1, boolean=True), P=UF('place'), Q=UF('waiting', 2))

    def inv(self, s, J, q, K):
        g = self.h['g']
        n, f, V, I, P, Q = s['n'], s['f'], s['V'], s['I'], s['P'], s['Q']
        on = and_(0 <= q, q < n)
        r, t = g.real(J, K), g.to(J, K)
        above = and_(I(J), P(J) < q, on)
        out = [implies(I(J), and_(0 <= P(J), P(J) < n, f(P(J)) == J)),
               implies(above, not_(val_eq(f(q), J))),
               implies(on, g.up_(f(q))),
               implies(V(J), g.up_(J)),
               implies(and_(V(J), r), or_(V(t), I(t))),
               implies(and_(I(J), r), or_(V(t), I(t), and_(P(J) < Q(J, K), Q(J, K) < n, f(Q(J, K)) == t))),
               not_(and_(I(J), V(J))),
               implies(n > 0, val_eq(f(0), g.self_)),
               implies(val_eq(n, 0), V(g.self_)),
               implies(n > 1, and_(I(g.self_), val_eq(P(g.self_), 0)))]
        if g.acyclic:
            out.append(implies(above, g.rank(f(q)) < g.rank(J)))
        return out

    def constraint(self, L, s):
        h = self.h
        return [s['n'] >= 0] + self.inv(s, h['J'], h['q'], h['K'])

    def state(self, L, s):
        h = self.h
        def same_set(has): return lambda cur: iff(cur.has(h['J']), has(h['J'])) if isinstance(cur, Ids) else False
        def same_stack(cur):
            n, f = shape(cur, h['g'])
            return and_(val_eq(n, s['n']), implies(and_(0 <= h['q'], h['q'] < n), val_eq(f(h['q']), s['f'](h['q']))))
        V, I = s['V'], s['I']
        return {'stack': Val(Stack(h['g'], s['n'], s['f']), same_stack), 'visited': Val(Ids(V), same_set(V)), 'in_progress': Val(Ids(I), same_set(I))}

    def iteration(self, L, s):
        h = self.h
        h['s'], h['yielded'] = s, []
        g, n = h['g'], s['n']
        T = s['f'](n - 1)
        h['T'] = T
        rJ = g.to(h['J'], h['K'])
        rT = g.to(T, h['K'])
        for J, q, K in ((h['J'], n - 1, h['K']), (T, h['q'], h['K']), (T, n - 1, h['K']), (rJ, n - 1, h['K']), (rT, n - 1, h['K']), (rT, h['q'], h['K']), (T, s['Q'](h['J'], h['K']), h['K']), (g.self_, n - 1, h['K'])):
            for x in self.inv(s, J, q, K):
                assume(x)
        h['moreT'] = lambda K: [assume(x) for x in self.inv(s, T, n - 1, K)]

    def next(self, L, s, env):
        h = self.h
        g, T, n, J, K = h['g'], h['T'], s['n'], h['J'], h['K']
        n2, f2 = shape(env['stack'], g)
        V2, I2 = env['visited'].has, env['in_progress'].has
        pushed = n2 > n
        begun = or_(s['V'](T), s['I'](T))
        prove(implies(begun, val_eq(n2, n - 1)), 'a mob already begun is taken off the stack')
        prove(implies(not_(begun), or_(V2(T), I2(T))), 'any other is begun')
        prove(iff(V2(J), or_(s['V'](J), and_(val_eq(J, T), not_(pushed)))), 'only completed mobs are remembered')
        y = h['yielded']
        prove(implies(and_(val_eq(J, T), not_(val_eq(J, g.self_)), V2(J), not_(s['V'](J))), len(y) == 1), 'every newly completed mob is given')
        P, Q, W = s['P'], s['Q'], h.get('W')
        return dict(n=n2, f=f2, V=V2, I=I2, P=lambda j: ite(and_(pushed, val_eq(j, T)), n - 1, P(j)),
                    Q=lambda j, k: ite(and_(pushed, val_eq(j, T)), W(k) if W else 0, Q(j, k)))


class Inner(LoopSpec):
    name = 'references'
    fn = 'dependant_mobs'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None

    def ghost0(self, L, env):
        n, f = shape(env['stack'], self.h['g'])
        self.stack = env['stack']
        self.V, self.I = env['visited'].has, env['in_progress'].has
        self.n, self.f = n, f
        return dict(n=n, f=f, W=lambda k: 0)

    def fresh(self, L): return dict(n=fresh_int('grown', 0), f=UF('grown'), W=UF('pushed at'))

    def inv(self, s, q, K):
        h = self.h
        g, T, n, f = h['g'], h['T'], self.n, self.f
        new = and_(n <= q, q < s['n'])
        t, r = g.to(T, K), g.real(T, K)
        out = [s['n'] >= n,
               implies(and_(0 <= q, q < n), val_eq(s['f'](q), f(q))),
               implies(new, and_(g.up_(s['f'](q)), not_(self.V(s['f'](q))), not_(self.I(s['f'](q))))),
               implies(and_(r, K < h['at']), or_(self.V(t), self.I(t), and_(n <= s['W'](K), s['W'](K) < s['n'], val_eq(s['f'](s['W'](K)), t)))),
               # pushed only if something has not begun
               implies(h['Tbegun'], val_eq(s['n'], n))]
        if g.acyclic:
            out.append(implies(new, g.rank(s['f'](q)) < g.rank(T)))
        return out

    def constraint(self, L, s):
        h = self.h
        h['at'] = L.idx
        h['Tbegun'] = or_(h['s']['V'](h['T']), h['s']['I'](h['T']))
        return self.inv(s, h['q'], h['K']) + self.inv(s, 0, h['K'])

    def state(self, L, s):
        h = self.h
        def same_stack(cur):
            n, f = shape(cur, h['g'])
            return and_(cur is self.stack or True, val_eq(n, s['n']), implies(and_(0 <= h['q'], h['q'] < n), val_eq(f(h['q']), s['f'](h['q']))))
        st = self.stack
        # the object stays the same
        return {'stack': Val(Stack(h['g'], s['n'], s['f']), same_stack), 'children_processed': val_eq(s['n'], self.n)}

    def iteration(self, L, s):
        h = self.h
        h['W'] = s['W']
        h['moreT'](L.idx)       # the invariant of the outer loop for the reference at hand
        self.s = s
        for x in self.inv(s, h['s']['Q'](h['J'], h['K']), h['K']) + self.inv(s, s['n'] - 1, h['K']):
            assume(x)
        for x in self.inv(s, h['s']['P'](h['J']), h['K']) + self.inv(s, self.n - 1, h['K']) + self.inv(s, 0, h['K']):
            assume(x)

    def next(self, L, s, env):
        n2, f2 = shape(env['stack'], self.h['g'])
        i = L.idx - 1
        W = s['W']
        return dict(n=n2, f=f2, W=lambda k: ite(val_eq(k, i), s['n'], W(k)))


def enumerate_(acyclic):
    def body(P):
        from pydv import loops
        g = Graph(P, acyclic)
        P.mobs.set = Ids
        h = dict(g=g, J=fresh_int('J'), q=fresh_int('q', 0), K=fresh_int('K', 0), yielded=[])
        loops.ACTIVE[:] = [[Outer(h), Inner(h)]]
        ctx().cover('entry')
        for m in g.root.dependant_mobs():
            h['yielded'].append(m)
            s = h['s']
            prove(len(h['yielded']) == 1, 'one at a time')
            prove(val_eq(m.k, h['T']), 'the mob completed')
            prove(not_(val_eq(m.k, g.self_)), 'not the mob itself')
            prove(not_(s['V'](m.k)), 'never given before')
            prove(g.up_(m.k), 'it can be reached')
            if acyclic:
                t = g.to(m.k, h['K'])
                prove(implies(g.real(m.k, h['K']), s['V'](t)), 'everything it refers to has been given before')
            ctx().cover('given')
        s = h['s']
        # the end: what was remembered is closed under references
        J, K = h['J'], h['K']
        t = g.to(J, K)
        prove(s['V'](g.self_), 'the mob itself is complete')
        prove(implies(and_(s['V'](J), g.real(J, K)), s['V'](t)), 'everything that can be reached has been given')
        ctx().cover('end')
    return body


def target(P):
    """the mob a reference means"""
    v = fresh_int('id', 0, 2 ** 256 - 1, note=True)
    none = bool(ctx().choose(2))
    asked = []
    class Id(object):
        int = v
        __hash__ = None
    i = None if none else Id()
    class Mobs(object):
        def get(s, k, d=None):
            asked.append(k)
            return 'the mob'
    root = type('Root', (), dict(content=type('C', (), dict(mobs=Mobs()))()))()
    S = type('S', (P.components.SourceReference,), dict(mob_id=i, root=root, __new__=lambda cls: object.__new__(cls), __init__=lambda s: None))
    ctx().cover('entry')
    r = S().mob
    if none:
        prove(r is None, 'no id, no mob')
        ctx().cover('none')
    elif v == 0:
        prove(r is None, 'the zero id means no mob')
    else:
        prove(r == 'the mob' and len(asked) == 1 and asked[0] is i, 'the mob with that id')
        ctx().cover('mob')


def rep_target(m, name):
    import aaf2
    from aaf2.mobid import MobID
    v = m.get('id')
    if not isinstance(v, int) or not v:
        return None
    f = aaf2.open()
    k = f.create.MasterMob('m')
    k.mob_id = MobID(int=v)
    f.content.mobs.append(k)
    c = f.create.SourceClip(0, 10, MobID(int=v), 1, media_kind='picture')
    return None if c.mob is k else 'mob %x is not found through a clip: %r' % (v, c.mob)


# ---------------------------------------------------------------- bounded
def gen(rng, i):
    n = rng.choice([1, 2, 3, 4, 5, 8, 15, 40])
    cyclic = rng.random() < .4
    deep = rng.random() < .2
    edges = []
    for a in range(n):
        for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
            if cyclic:
                b = rng.randrange(n)
            elif a == 0:
                continue
            else:
                b = a - 1 if deep else rng.randrange(a)
            edges.append([a, b, rng.randrange(6)])
        if rng.random() < .2:
            edges.append([a, -1, rng.randrange(6)])      # a missing mob
        if rng.random() < .1:
            edges.append([a, -2, rng.randrange(6)])      # no mob
    rng.shuffle(edges)
    return dict(n=n, edges=edges, kinds=[rng.randrange(3) for _ in range(n)], ask=[n - 1] + [rng.randrange(n) for _ in range(2)], reopen=rng.random() < .1, seed=rng.randrange(10 ** 9), cyclic=cyclic,
                order=rng.randrange(10 ** 9))


class Shared(object):
    f, n = None, 0

    def get(self):
        import aaf2
        if self.f is None or self.n > 60:
            self.f, self.n = aaf2.open(), 0
            opdef(self.f)
        self.n += 1
        return self.f


SHARED = Shared()


def opdef(f):
    o = f.create.OperationDef('00000000-0000-0000-0000-0000000000ab', 'op', '')
    o.media_kind = 'picture'
    o['IsTimeWarp'].value = False
    o['NumberInputs'].value = 1
    o['OperationCategory'].value = 'OperationCategory_Effect'
    f.dictionary.register_def(o)
    return o


def clip(f, mob_id, how):
    """a segment which refers to a mob: plain, or somewhere inside others"""
    c = f.create.SourceClip(0, 10, mob_id, 1, media_kind='picture')
    if how == 0:
        return c
    if how == 1:
        s = f.create.Sequence('picture', 10)
        s.components.append(f.create.Filler('picture', 10))
        s.components.append(c)
        return s
    if how == 2:
        op = f.dictionary.lookup_operationdef('op')
        o = f.create.OperationGroup(op, 10, 'picture')
        o.segments.append(c)
        return o
    if how == 3:
        s = f.create.NestedScope('picture', 10)
        t = f.create.Sequence('picture', 10)
        t.components.append(c)
        s.slots.append(t)
        return s
    if how == 4:
        s = f.create.Selector('picture', 10)
        s['Selected'].value = f.create.Filler('picture', 10)
        s['Alternates'].append(c)
        return s
    s = f.create.Sequence('picture', 10)
    op = f.dictionary.lookup_operationdef('op')
    o = f.create.OperationGroup(op, 10, 'picture')
    o.segments.append(c)
    tr = f.create.Transition('picture', 0)
    tr['OperationGroup'].value = o
    tr.cutpoint = 0
    for x in (f.create.Filler('picture', 10), tr, f.create.Filler('picture', 10)):
        s.components.append(x)
    return s


def reachable(adj, a):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        for y in adj.get(x, ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


def check(inp):
    if inp['reopen']:
        with AafFiles() as files:
            f = files.open('a.aaf', 'w')
            opdef(f)
            return examine(inp, f, files)
    f = SHARED.get()
    SHARED.f = None
    r = examine(inp, f, None)
    if r is None:
        SHARED.f = f
    return r


def examine(inp, f, files):
    from aaf2.mobid import MobID
    n = inp['n']
    ids = [MobID.new() for _ in range(n)]
    lost = MobID.new()
    mobs = []
    for k in range(n):
        m = [f.create.MasterMob, f.create.CompositionMob, f.create.SourceMob][inp['kinds'][k]]('m%d' % k)
        m.mob_id = ids[k]
        if inp['kinds'][k] == 2:
            m.descriptor = f.create.ImportDescriptor()
        mobs.append(m)
    order = list(range(n))
    random.Random(inp['order']).shuffle(order)
    for k in order:
        f.content.mobs.append(mobs[k])
    adj = {}
    for j, (a, b, how) in enumerate(inp['edges']):
        s = mobs[a].create_timeline_slot(25)
        s.segment = clip(f, ids[b] if b >= 0 else (lost if b == -1 else MobID()), how)
        if b >= 0:
            adj.setdefault(a, []).append(b)
    if files:
        from aaf2 import core
        w = core.AAFObject.validate
        core.AAFObject.validate = lambda o: None
        try:
            f.close()
        finally:
            core.AAFObject.validate = w
        f = files.open('a.aaf', 'r')
        mobs = [f.content.mobs.get(i) for i in ids]
        if any(m is None for m in mobs):
            return 'mobs lost'
    index = dict((str(i), k) for k, i in enumerate(ids))
    for a in inp['ask']:
        got, given = [], []
        for m in mobs[a].dependant_mobs():
            k = index.get(str(m.mob_id))
            if k is None or mobs[k] is not m:
                return 'mob %d: %r given' % (a, m)
            given.append(k)
            if len(given) > n + 1:
                return 'mob %d: more than all mobs: %r' % (a, given)
        want = reachable(adj, a) - {a}
        if len(set(given)) != len(given):
            return 'mob %d: %r, one twice' % (a, given)
        if set(given) != want:
            return 'mob %d: %r, reachable %r' % (a, given, sorted(want))
        # after everything it refers to, unless that refers back to it
        pos = dict((k, j) for j, k in enumerate(given))
        for k in given:
            for y in adj.get(k, ()):
                if k not in reachable(adj, y) and y != k and y != a and pos[y] > pos[k]:
                    return 'mob %d: %d is given before %d which it refers to (%r)' % (a, k, y, given)
    if not files:
        for m in mobs:
            f.content.mobs.pop(m.mob_id)


def shrink(inp):
    for es in drop_chunks(inp['edges']):
        yield dict(inp, edges=es)


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check, nq=1500, shrink=shrink)


def rep(m, name): return None


UNITS = [Unit('mob of a reference', target, ['components.SourceReference.mob'], rep_target, covers=['entry', 'none', 'mob']),
         Unit('any graph', enumerate_(False), [D], rep, covers=['entry', 'given', 'end']),
         Unit('graphs without cycles', enumerate_(True), [D], rep, covers=['entry', 'given', 'end'])]
BOUNDED = [Bounded('reference graphs', run, 'random graphs of up to 40 mobs and 200 references (chains, shared targets, cycles, missing and null mobs, references inside sequences, effects, scopes, selectors, transitions), '
                   'sometimes reopened; the enumeration compared with reachability', [D, 'components.SourceReference.mob'], check, budget=10)]
