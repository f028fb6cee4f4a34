"""P07: the LRU cache.  Proof over a recency ring of arbitrary size: nodes are
materialised lazily from an arbitrary ring satisfying the representation
invariant; after every operation the invariant and the abstract effect are
proved for a skolem ring position and a skolem key."""
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec, Val
from pydv.runner import Unit, Bounded, plain
from specs.common import drive, drop_chunks

# Abstract state: recency list S of N slots; slot i holds (key, value) for
# i < m and is empty for i >= m; keys distinct; data maps key -> slot.


class GNode(object):
    def __init__(self, ring, i):
        self.__dict__.update(_r=ring, i=i, key=ring.keyof(i), value=ring.val(i), empty=(i >= ring.m))

    def _get(self, a, d):
        v = self.__dict__.get(a)
        if v is None:
            v = self.__dict__[a] = self._r.at(self._r.wrap(self.i + d))
        return v
    next = property(lambda s: s._get('_n', 1), lambda s, v: s.__dict__.__setitem__('_n', v))
    prev = property(lambda s: s._get('_p', -1), lambda s, v: s.__dict__.__setitem__('_p', v))


class Ring(object):
    def __init__(self):
        self.N = fresh_int('slots', 1, note=True)
        self.m = fresh_int('used', 0, note=True)
        assume(self.m <= self.N)
        self.K, self.val = UF('key'), UF('value')
        self.pos, self.ind = UF('pos'), UF('ind', boolean=True)
        self.nodes = []

    def wrap(self, i):
        if i < 0:
            return i + self.N
        if i >= self.N:
            return i - self.N
        return i

    def keyof(self, i):
        k = self.K(i)
        # representation invariant at slot i: used keys are mapped to their slot
        assume(implies(and_(0 <= i, i < self.m), and_(self.ind(k), self.pos(k) == i)))
        return k

    def at(self, i):
        for n in self.nodes:
            if n.i == i:
                return n
        assume(and_(i >= 0, i < self.N))
        n = GNode(self, i)
        self.nodes.append(n)
        return n


class Data(object):
    """the key -> node dictionary: base relation of the ring plus updates"""

    def __init__(self, ring):
        self.r, self.log = ring, []

    def find(self, k):
        for q, v in reversed(self.log):
            if q is k or k == q:
                return v
        r = self.r
        if r.ind(k):
            p = r.pos(k)
            # representation invariant: mapped keys are in a used slot
            assume(and_(p >= 0, p < r.m, r.keyof(p) == k))
            return r.at(p)
        return None

    def pv_contains(self, k): return self.find(k) is not None
    __contains__ = pv_contains

    def get(self, k, d=None):
        v = self.find(k)
        return d if v is None else v

    def __getitem__(self, k):
        v = self.find(k)
        if v is None:
            raise KeyError(k)
        return v

    def __setitem__(self, k, v): self.log.append((k, v))

    def pop(self, k, *d):
        v = self.find(k)
        if v is None:
            if d:
                return d[0]
            raise KeyError(k)
        self.log.append((k, None))
        return v

    def __delitem__(self, k): self.pop(k)

    def __len__(self): raise Unsupported('len')


def setup(P):
    r = Ring()
    c = object.__new__(P.cache.LRUCacheDict)
    c.head = r.at(0)
    c.data = Data(r)
    k = fresh_int('k', note=True)
    v = fresh_int('v')
    ctx().cover('entry')
    return r, c, k, v


def post(r, c, order, m, content, what):
    """the ring read from head is `order` (slot j -> old slot), slots < m are
    used; content(i) -> (key, value) of old slot i; checked at a skolem slot"""
    part = ctx().choose(4)
    if part == 3:
        # every mapped key is held by a used slot
        q = fresh_int('q')
        n = c.data.find(q)
        if n is not None:
            prove(not_(n.empty), what + ': mapped slot is used')
            prove(n.key == q, what + ': mapped slot holds the key')
        return
    j = fresh_int('j', 0)
    assume(j < r.N)
    a = r.at(order(j))
    if part == 0:
        prove(a.next is r.at(order(r.wrap(j + 1))), what + ': next link')
        prove(c.head is r.at(order(0)), what + ': head is the most recent')
    elif part == 1:
        prove(a.prev is r.at(order(r.wrap(j - 1))), what + ': prev link')
    else:
        prove(iff(a.empty, j >= m), what + ': used slots come first')
        k, v = content(a.i)
        if j < m:
            prove(a.key == k, what + ': key of a slot')
            prove(a.value == v, what + ': value of a slot')
            prove(c.data.find(a.key) is a, what + ': used key is mapped to its slot')


def old(r):
    return lambda i: (r.K(i), r.val(i))


def first(r, p):
    """order after slot p became most recent"""
    return lambda j: ite(j == 0, p, ite(j <= p, j - 1, j))


def u_get(P):
    r, c, k, v = setup(P)
    d = fresh_int('default')
    n0 = c.data.find(k)
    x = c.get(k, d)
    if n0 is None:
        prove(x == d, 'miss returns the default')
        post(r, c, lambda j: j, r.m, old(r), 'miss')
    else:
        prove(x == r.val(n0.i), 'hit returns the stored value')
        post(r, c, first(r, n0.i), r.m, old(r), 'hit')


def u_item(P):
    r, c, k, v = setup(P)
    n0 = c.data.find(k)
    try:
        x = c[k]
    except KeyError:
        prove(n0 is None, 'KeyError only for an absent key')
        post(r, c, lambda j: j, r.m, old(r), 'miss')
        return
    prove(n0 is not None, 'absent key raises KeyError')
    prove(x == r.val(n0.i), 'hit returns the stored value')
    post(r, c, first(r, n0.i), r.m, old(r), 'hit')


def u_in(P):
    r, c, k, v = setup(P)
    n0 = c.data.find(k)
    prove(bool(c.__contains__(k)) == (n0 is not None), 'membership')
    post(r, c, lambda j: j, r.m, old(r), 'membership')


def u_set(P):
    r, c, k, v = setup(P)
    n0 = c.data.find(k)
    c[k] = v
    if n0 is not None:
        p = n0.i
        post(r, c, first(r, p), r.m, lambda i: (ite(i == p, k, r.K(i)), ite(i == p, v, r.val(i))), 'replace')
        return
    last = r.N - 1
    order = lambda j: ite(j == 0, last, j - 1)
    m1 = ite(r.m < r.N, r.m + 1, r.N)
    post(r, c, order, m1, lambda i: (ite(i == last, k, r.K(i)), ite(i == last, v, r.val(i))), 'insert')
    q = fresh_int('other')
    if q == k:
        return
    was = bool(r.ind(q))
    if was:
        assume(and_(r.pos(q) >= 0, r.pos(q) < r.m, r.keyof(r.pos(q)) == q))
    now = c.data.find(q)
    if was and now is None:
        prove(and_(r.m == r.N, r.pos(q) == last), 'evicts only the least recently used, only when full')
    if now is not None:
        prove(was, 'no other key appears')


def u_del(P):
    r, c, k, v = setup(P)
    n0 = c.data.find(k)
    try:
        del c[k]
    except KeyError:
        prove(n0 is None, 'KeyError only for an absent key')
        post(r, c, lambda j: j, r.m, old(r), 'delete absent')
        return
    prove(n0 is not None, 'deleting an absent key raises KeyError')
    p = n0.i
    order = lambda j: ite(j == r.N - 1, p, ite(j < p, j, j + 1))
    post(r, c, order, r.m - 1, old(r), 'delete')
    prove(c.data.find(k) is None, 'deleted key is absent')
    q = fresh_int('other')
    if q == k:
        return
    prove(iff(r.ind(q), c.data.find(q) is not None), 'other keys stay')


# ---- construction: the ring of size+1 empty nodes, by loop invariant
class IRing(object):
    """ring of n nodes built so far; head is slot 0, lazily materialised"""

    def __init__(self, P, head, n):
        self.P, self.head, self.n = P, head, n
        self.nodes = [(0, head)]

    def at(self, i):
        for j, x in self.nodes:
            if j == i:
                return x
        x = INode(self, i)
        self.nodes.append((i, x))
        return x

    def wrap(self, i):
        if i < 0:
            return i + self.n
        if i >= self.n:
            return i - self.n
        return i


class INode(object):
    key = value = None
    empty = True

    def __init__(self, r, i):
        self.__dict__.update(r=r, i=i)
    next = property(lambda s: s.__dict__.get('_n') or s.r.at(s.r.wrap(s.i + 1)), lambda s, v: s.__dict__.__setitem__('_n', v))
    prev = property(lambda s: s.__dict__.get('_p') or s.r.at(s.r.wrap(s.i - 1)), lambda s, v: s.__dict__.__setitem__('_p', v))


class Build(LoopSpec):
    name, fn = 'ring', 'LRUCacheDict.__init__'

    def match(self, L, env):
        self.c = env['self']
        return True

    def fresh(self, L):
        return {}

    def state(self, L, g):
        h = self.c.head
        if L.cut is not None:                 # second arrival: check against the extended ring
            r, node = self.r, h.prev
            return {(h, 'prev'): Val(node, lambda cur: ring_ok(r, h, node))}
        if L.lazy is not None and not isinstance(L.idx, int):    # havoc
            r = self.r = IRing(None, h, L.idx + 1)
            self.start = r
            return {(h, 'prev'): Val(r.at(r.wrap(-1)), lambda cur: True), (h, 'next'): Val(r.at(r.wrap(1)), lambda cur: True)}
        return {(h, 'prev'): Val(h, lambda cur: cur is h), (h, 'next'): Val(h, lambda cur: cur is h)}


def is_empty(n):
    return n.empty is True and n.key is None and n.value is None


def ring_ok(r, head, node):
    """ring r plus `node` as last slot, at a skolem slot"""
    n = r.n
    j = fresh_int('j', 0)
    assume(j <= n)
    get = lambda i: node if i == n else r.at(i)
    a = get(j)
    b = get(ite(j == n, 0, j + 1))
    z = get(ite(j == 0, n, j - 1))
    return and_(a.next is b, a.prev is z, is_empty(a), node is not head, all(node is not x for _, x in r.nodes))


def u_init(P):
    size = fresh_int('size', 0, note=True)
    c = P.cache.LRUCacheDict(size)
    ctx().cover('entry')
    sp = Build.last
    prove(len(c.data) == 0, 'no keys')
    r = sp.r
    prove(r.n == size + 1, 'size + 1 slots')
    j = fresh_int('j', 0)
    assume(j <= size)
    a = r.at(j)
    prove(and_(a.next is r.at(r.wrap(j + 1)), a.prev is r.at(r.wrap(j - 1)), is_empty(a)), 'a ring of empty slots')
    prove(c.head is r.at(0), 'head is a slot of the ring')


def mkbuild():
    b = Build()
    Build.last = b
    return b


# ---------------------------------------------------------------- concrete
class Model(object):
    def __init__(self, size):
        self.cap, self.l = size + 1, []

    def idx(self, k):
        for i, (a, b) in enumerate(self.l):
            if a == k:
                return i
        return None

    def use(self, k):
        i = self.idx(k)
        if i is None:
            return None
        self.l.insert(0, self.l.pop(i))
        return self.l[0][1]

    def set(self, k, v):
        i = self.idx(k)
        if i is not None:
            self.l.pop(i)
        elif len(self.l) >= self.cap:
            self.l.pop()
        self.l.insert(0, (k, v))


def gen(rng, i):
    size = rng.choice([0, 1, 2, 3, 4, 7, 16])
    nk = rng.choice([2, 3, size + 1, size + 2, size + 3, 2 * size + 3])
    ops = []
    for _ in range(rng.choice([3, 8, 30, 80])):
        ops.append([rng.choice(['set', 'set', 'set', 'get', 'item', 'in', 'del']), rng.randrange(nk)])
    return dict(size=size, ops=ops)


def gen_default(rng, i):
    ops = [['set', k] for k in range(rng.choice([500, 512, 513, 514, 600]))]
    for _ in range(600):
        ops.append([rng.choice(['set', 'get', 'item', 'in', 'del']), rng.randrange(620)])
    return dict(size=None, ops=ops)


def check(inp):
    plain()
    from aaf2.cache import LRUCacheDict
    c = LRUCacheDict(inp['size']) if inp['size'] is not None else LRUCacheDict()
    m = Model(inp['size'] if inp['size'] is not None else 512)
    none = object()
    for n, (op, k) in enumerate(inp['ops']):
        want = got = None
        if op == 'set':
            c[k] = (k, n)
            m.set(k, (k, n))
        elif op == 'get':
            got, want = c.get(k, none), m.use(k)
            want = none if want is None else want
        elif op == 'in':
            got, want = (k in c), m.idx(k) is not None
        elif op == 'item':
            want = m.use(k)
            try:
                got = c[k]
            except KeyError:
                got = None
        else:
            i = m.idx(k)
            want = i is not None
            if want:
                m.l.pop(i)
            try:
                del c[k]
                got = True
            except KeyError:
                got = False
        if got != want:
            return 'op %d %s(%r) gave %r, expected %r' % (n, op, k, got, want)
        if n % 5 == 0 or n == len(inp['ops']) - 1:
            for q in set(o[1] for o in inp['ops']):
                if (q in c) != (m.idx(q) is not None):
                    return 'after op %d %s(%r): key %r %s' % (n, op, k, q, 'present' if q in c else 'lost')
    for q, v in reversed(list(m.l)):
        if c.get(q, none) != v:
            return 'at the end key %r has %r, expected %r' % (q, c.get(q, none), v)
    return None


def shrink(inp):
    for o in drop_chunks(inp['ops']):
        yield dict(inp, ops=o)


def run(rng, budget, tier, shard):
    if shard == 0:
        return drive(rng, budget, tier, gen_default, check, 40, 400, shrink=shrink)
    return drive(rng, budget, tier, gen, check, 4000, 200000, shrink=shrink)


def replay(m, name):
    """small exhaustive search around the failing operation"""
    import itertools
    for size in (0, 1, 2):
        names = [(o, k) for o in ('set', 'get', 'item', 'in', 'del') for k in range(size + 2)]
        for n in (1, 2, 3):
            for pre in itertools.product([('set', k) for k in range(size + 2)] + [('get', 0), ('del', 0), ('del', 1)], repeat=n):
                for last in itertools.product(names, repeat=2 if n < 3 else 1):
                    from specs.common import guarded
                    r = guarded(check, dict(size=size, ops=[list(x) for x in pre + last]), 5)
                    if r:
                        return r
    return None


C = 'cache.LRUCacheDict.'
UNITS = [
    Unit('get', u_get, [C + 'get', C + 'make_first'], replay, covers=['entry']),
    Unit('getitem', u_item, [C + '__getitem__', C + 'get', C + 'make_first'], replay, covers=['entry']),
    Unit('contains', u_in, [C + '__contains__'], replay, covers=['entry']),
    Unit('setitem', u_set, [C + '__setitem__', C + 'make_first'], replay, covers=['entry']),
    Unit('delitem', u_del, [C + '__delitem__', C + 'make_first'], replay, covers=['entry']),
    Unit('init', u_init, [C + '__init__', 'cache.LRUNode.__init__'], replay, covers=['entry'], loops=[mkbuild]),
]
BOUNDED = [Bounded('histories', run, 'random histories up to 80 operations on capacities 1..17 and on the default capacity',
                   [C + 'get'], check, shards=4, budget=6)]
ASSUMPTIONS = ['keys are compared by value like integers; dict of the standard library maps equal keys to one entry']
LEVEL = 'proof'
