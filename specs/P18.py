"""P18: sequence positions and lengths add up.

sum(k): the extent of the components before k, transitions counted negative: sum(0) = 0,
sum(k+1) = sum(k) + length(k), or - length(k) for a transition.
A component starts at sum(k); a transition covers the last part of what is before it, from sum(k+1)."""
import random
from fractions import Fraction
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec, Val
from pydv.seq import mk, seqof, val_eq
from pydv.runner import Unit, Bounded, Lemma, plain
from specs.common import drive, AafFiles, drop_chunks

C = 'components.Sequence.'


class Timeline(object):
    """components of a sequence of any size"""

    def __init__(self, P):
        self.n = n = fresh_int('n', 0)
        self.L = L = UF('len', 1, 0)
        self.tr = tr = UF('transition', 1, boolean=True)
        self.raw = raw = UF('sum', 1)
        assume(raw(0) == 0)

        class T(P.components.Transition):
            __slots__ = ('k',)
            def __new__(cls, k): return object.__new__(cls)
            def __init__(s, k): s.k = k
            length = property(lambda s: L(s.k))

        class O(P.components.Filler):
            __slots__ = ('k',)
            def __new__(cls, k): return object.__new__(cls)
            def __init__(s, k): s.k = k
            length = property(lambda s: L(s.k))
        self.T, self.O = T, O
        self.memo = []

    def sum(self, k):
        r = self.raw(k)
        assume(implies(and_(0 <= k, k < self.n), self.raw(k + 1) == r + ite(self.tr(k), -self.L(k), self.L(k))))
        return r

    def comp(self, k):
        return self.T(k) if self.tr(k) else self.O(k)

    def start(self, k):
        self.sum(k)
        return ite(self.tr(k), self.raw(k + 1), self.raw(k))

    def ordered(self, k):
        """no transition is longer than its neighbours, which are no transitions"""
        tr, L = self.tr, self.L
        assume(implies(and_(0 <= k, k < self.n, tr(k)), and_(k > 0, not_(tr(k - 1)), not_(tr(k + 1)), L(k) <= L(k - 1))))
        assume(implies(and_(0 <= k, k + 1 < self.n, tr(k)), L(k) <= L(k + 1)))

    def pv_lazy(self): return mk('list', n=self.n, f=self.comp)


class Sum(LoopSpec):
    name = 'extent'
    fn = 'positions'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None

    def state(self, L, g): return {'length': self.h['t'].sum(L.idx)}
    def iteration(self, L, g): self.h['at'] = L.idx; del self.h['got'][:]

    def next(self, L, g, env):
        prove(len(self.h['got']) == 1, 'one entry per component')
        return g


def positions(P):
    from pydv import loops
    t = Timeline(P)
    S = type('S', (P.components.Sequence,), dict(components=t, __new__=lambda cls: object.__new__(cls), __init__=lambda s: None))
    h = dict(t=t, got=[])
    loops.ACTIVE[:] = [[Sum(h)]]
    ctx().cover('entry')
    for x in S().positions():
        i, p, c = x
        h['got'].append(x)
        k = h['at']
        prove(val_eq(i, k), 'the index')
        prove(c.k is k or val_eq(c.k, k), 'the component')
        prove(val_eq(p, t.start(k)), 'its position: the extent of what is before it, less its own length for a transition')
        ctx().cover('transition' if isinstance(c, t.T) else 'component')


def ordered(P):
    """lemma: when no transition is longer than its neighbours, positions do not decrease (step of the induction)"""
    t = Timeline(P)
    k = fresh_int('k', 0)
    assume(k + 1 < t.n)
    t.ordered(k)
    t.ordered(k + 1)
    t.ordered(k - 1)
    t.sum(k)
    t.sum(k + 1)
    t.sum(k - 1)
    ctx().cover('entry')
    prove(t.start(k) <= t.start(k + 1), 'positions do not decrease')
    prove(implies(t.n > 0, t.start(0) >= 0) if bool(not_(t.tr(0))) else True, 'the first is at zero')


class Look(LoopSpec):
    name = 'search'
    fn = 'index_at_time'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None

    def constraint(self, L, g):
        h, t = self.h, self.h['t']
        i = L.idx
        return [implies(h['inside'](h['J']), h['J'] >= i),
                implies(i > 0, t.start(i - 1) <= h['time']),
                implies(and_(i > 0, t.tr(i - 1)), not_(h['inside'](i - 1)))]

    def state(self, L, g):
        i, t = L.idx, self.h['t']
        if i == 0:
            return {'last_component': Val(None, lambda cur: cur is None), 'last_index': Val(None, lambda cur: cur is None)}
        return {'last_component': Val(t.comp(i - 1), lambda cur: cur is not None and val_eq(cur.k, i - 1)), 'last_index': i - 1}

    def iteration(self, L, g):
        h, t = self.h, self.h['t']
        h['at'] = i = L.idx
        for k in (i - 1, i, i + 1):
            t.ordered(k)
            t.sum(k)
        # positions do not decrease (lemma)
        J = h['J']
        assume(implies(and_(0 <= i, i <= J, J < t.n), t.start(i) <= t.start(J)))


def search(P):
    from pydv import loops
    t = Timeline(P)
    assume(t.n > 0)
    time = fresh_int('time')
    J = fresh_int('J', 0)
    assume(J < t.n)
    h = dict(t=t, time=time, J=J)
    h['inside'] = inside = lambda k: and_(t.tr(k), t.start(k) <= time, time < t.start(k) + t.L(k))
    for k in (0, 1, J, J - 1, J + 1):
        t.ordered(k)
        t.sum(k)
    S = type('S', (P.components.Sequence,), dict(components=t, __new__=lambda cls: object.__new__(cls), __init__=lambda s: None,
                                                 positions=lambda s: mk('list', n=t.n, f=lambda k: (k, t.start(k), t.comp(k)))))
    loops.ACTIVE[:] = [[Look(h)]]
    ctx().cover('entry')
    r = S().index_at_time(time)
    if time < 0:
        prove(val_eq(r, 0), 'before the start: the first')
        ctx().cover('before')
        return
    for k in (r, r + 1, r - 1):
        t.ordered(k)
        t.sum(k)
    prove(and_(0 <= r, r < t.n), 'a component')
    if inside(J):
        ctx().cover('transition')
        prove(inside(r), 'within a transition: such a transition')
        return
    b, e = t.start(r), t.start(r) + t.L(r)
    prove(b <= time, 'not before its start')
    if time < e:
        ctx().cover('inside')
    else:
        ctx().cover('beyond')
        prove(and_(r == t.n - 1, time >= t.sum(t.n)), 'after its end only beyond the last one')


def at_time(P):
    got = []
    class Cs(object):
        def __getitem__(s, i): return ('component', i)
    S = type('S', (P.components.Sequence,), dict(components=Cs(), __new__=lambda cls: object.__new__(cls), __init__=lambda s: None,
                                                 index_at_time=lambda s, x: got.append(x) or 7))
    x = fresh_int('time')
    ctx().cover('entry')
    r = S().component_at_time(x)
    prove(r == ('component', 7) and len(got) == 1 and val_eq(got[0], x), 'the component of that index')


class Total(LoopSpec):
    name = 'total'
    fn = 'length'
    def __init__(self, want): self.want = want
    def match(self, L, env): return L.lazy is not None
    def state(self, L, g): return {'length': self.want(L.idx)}


def slot(P, segment):
    return type('S', (P.mobslots.TimelineMobSlot,), dict(segment=segment, __new__=lambda cls: object.__new__(cls), __init__=lambda s: None))()


def slot_length(P):
    from pydv import loops
    kind = ctx().choose(3)
    t = Timeline(P)
    ctx().cover('entry')
    if kind == 0:
        # whatever length is stored in the sequence itself
        stored = [None, fresh_int('stored')][ctx().choose(2)]
        S = type('S', (P.components.Sequence,), dict(components=t, __new__=lambda cls: object.__new__(cls), __init__=lambda s: None, length=stored,
                                                     getvalue=lambda s, name, default=None: {'Length': default if stored is None else stored}.get(name, default),
                                                     get=lambda s, name, default=None: None if stored is None or name != 'Length' else type('V', (), dict(value=stored))()))
        loops.ACTIVE[:] = [[Total(t.sum)]]
        r = slot(P, S()).length
        ctx().cover('sequence')
        prove(val_eq(r, t.sum(t.n)), 'extent of all components')
    elif kind == 1:
        n, L, raw = fresh_int('slots', 0), UF('slen', 1, 0), UF('max', 1)
        assume(raw(0) == 0)

        def most(k):
            r = raw(k)
            assume(implies(and_(0 <= k, k < n), raw(k + 1) == ite(L(k) > r, L(k), r)))
            return r
        sl = lambda k: type('Sl', (), dict(length=L(k)))()
        N = type('N', (P.components.NestedScope,), dict(slots=mk('list', n=n, f=sl), __new__=lambda cls: object.__new__(cls), __init__=lambda s: None))
        loops.ACTIVE[:] = [[Total(most)]]
        r = slot(P, N()).length
        ctx().cover('nested')
        prove(val_eq(r, most(n)), 'the longest of the nested slots')
    else:
        x = fresh_int('length', 0)
        r = slot(P, type('Sg', (), dict(length=x))()).length
        prove(val_eq(r, x), 'the length of the segment')


# ---------------------------------------------------------------- bounded
def gen(rng, i):
    """components: ['c', length] or ['t', length]; a transition stands between two others and is not longer than they are"""
    n = rng.choice([1, 1, 2, 3, 5, 9, 20])
    big = rng.choice([3, 10, 100, 10 ** 6, 10 ** 12])
    cs = []
    for k in range(n):
        if cs and rng.random() < .6:
            a = cs[-1][1]
            b = rng.choice([a, rng.randrange(1, big + 1), rng.randrange(0, 3)])
            ln = min(a, b)
            cs.append(['t', rng.choice([ln, rng.randint(0, ln)])])
            cs.append(['c', b])
        else:
            cs.append(['c', rng.choice([0, 1, rng.randrange(1, big + 1), rng.randrange(1, big + 1)])])
    return dict(cs=cs, kinds=[rng.randrange(4) for _ in cs], nested=rng.random() < .3, reopen=rng.random() < .15,
                stored=rng.choice([None, None, 0, 1, 7, rng.randrange(big + 1), -3]), other=[rng.randrange(50) for _ in range(rng.randrange(4))])


def model(cs):
    """start and end of every component, by adding up"""
    r, at = [], 0
    for k, n in cs:
        if k == 't':
            r.append((at - n, at))
            at -= n
        else:
            r.append((at, at + n))
            at += n
    return r, at


def right(cs, iv, t, i):
    """is i what stands at time t"""
    if not isinstance(i, int) or not 0 <= i < len(cs):
        return False
    tr = [k for k, (c, (a, b)) in enumerate(zip(cs, iv)) if c[0] == 't' and a <= t < b]
    if tr:
        return i in tr
    inside = [k for k, (a, b) in enumerate(iv) if a <= t < b]
    if inside:
        return i in inside
    return i == (0 if t < 0 else len(cs) - 1)


class Shared(object):
    f = None

    def get(self):
        import aaf2
        if self.f is None:
            self.f = aaf2.open()
        return self.f


SHARED = Shared()


def build(f, cs, kinds):
    s = f.create.Sequence('picture')
    objs = []
    for (k, n), j in zip(cs, kinds):
        if k == 't':
            c = f.create.Transition('picture', n)
            c.cutpoint = n // 2
        elif j == 0:
            c = f.create.SourceClip(0, n, media_kind='picture')
        elif j == 1:
            c = f.create.Sequence('picture', n)
        elif j == 2:
            c = f.create.ScopeReference('picture', n)
        else:
            c = f.create.Filler('picture', n)
        c['Length'].value = n
        s.components.append(c)
        objs.append(c)
    return s, objs


def examine(s, objs, cs):
    iv, total = model(cs)
    got = list(s.positions())
    if [x[0] for x in got] != list(range(len(cs))):
        return 'positions() has the indices %r' % [x[0] for x in got]
    if [x[1] for x in got] != [a for a, b in iv]:
        return 'positions() gives %r, not %r' % ([x[1] for x in got], [a for a, b in iv])
    if any(x[2] is not o for x, o in zip(got, objs)):
        return 'positions() gives other components'
    times = set([-1, 0, 1, total - 1, total, total + 1, total + 1000])
    for a, b in iv:
        for x in (a, b, (a + b) // 2):
            times |= set([x - 1, x, x + 1])
    for t in sorted(times):
        for q in (t, Fraction(2 * t + 1, 2)):
            i = s.index_at_time(q)
            if not right(cs, iv, q, i):
                return 'at %s: component %r of %r' % (q, i, iv)
            if s.component_at_time(q) is not objs[i]:
                return 'component_at_time(%s) differs from index_at_time' % q


def check(inp):
    if not inp['cs']:
        return None
    if inp['reopen']:
        with AafFiles() as files:
            f = files.open('a.aaf', 'w')
            return examine_file(inp, f, files)
    return examine_file(inp, SHARED.get(), None)


def examine_file(inp, f, files):
    cs = [tuple(c) for c in inp['cs']]
    s, objs = build(f, cs, inp['kinds'])
    r = examine(s, objs, cs)
    if r:
        return r
    iv, total = model(cs)
    if inp['nested']:
        n = f.create.NestedScope('picture', 0)
        best = total
        s.length = total
        n.slots.append(s)
        for j, x in enumerate(inp['other']):
            n.slots.append(f.create.Filler('picture', x))
            best = max(best, x)
        slot = f.create.TimelineMobSlot(1, segment=n, edit_rate=25)
        total = best
    else:
        if inp.get('stored') is not None:
            s['Length'].value = inp['stored']       # an old value: the components count
        slot = f.create.TimelineMobSlot(1, segment=s, edit_rate=25)
    if slot.length != total:
        return 'slot length %r, not %r' % (slot.length, total)
    one = f.create.TimelineMobSlot(1, segment=f.create.Filler('picture', iv[0][1]), edit_rate=25)
    if one.length != iv[0][1]:
        return 'length of a slot with one clip is %r' % one.length
    if files:
        m = f.create.CompositionMob('m')
        m.slots.append(slot)
        f.content.mobs.append(m)
        from aaf2 import core
        v = core.AAFObject.validate
        core.AAFObject.validate = lambda o: None      # unrelated required properties are left out
        try:
            f.close()
        finally:
            core.AAFObject.validate = v
        f = files.open('a.aaf', 'r')
        slot = list(f.content.mobs)[0].slots[0]
        if slot.length != total:
            return 'slot length %r after reopening, not %r' % (slot.length, total)
        if not inp['nested']:
            s = slot.segment
            r = examine(s, list(s.components), cs)
            if r:
                return 'reopened: ' + r


def shrink(inp):
    cs = inp['cs']
    for k in range(len(cs)):
        if cs[k][0] == 'c' and not (k and cs[k - 1][0] == 't') and not (k + 1 < len(cs) and cs[k + 1][0] == 't'):
            yield dict(inp, cs=cs[:k] + cs[k + 1:], kinds=inp['kinds'][:k] + inp['kinds'][k + 1:])
        elif cs[k][0] == 't':
            yield dict(inp, cs=cs[:k] + cs[k + 1:], kinds=inp['kinds'][:k] + inp['kinds'][k + 1:])


def run(rng, budget, tier, shard):
    def g(rng, i):
        inp = gen(rng, i)
        return inp if len(inp['cs']) else gen(rng, i + 1)
    return drive(rng, budget, tier, g, check, nq=1500, shrink=shrink)


def rep(m, name):
    plain()
    rng = random.Random(5)
    for i in range(400):
        inp = gen(rng, i)
        r = check(inp)
        if r:
            return '%s on %s' % (r, inp)
    return None


UNITS = [Unit('positions', positions, [C + 'positions'], rep, covers=['entry', 'transition', 'component']),
         Unit('order of positions', ordered, [C + 'positions'], rep, covers=['entry']),
         Unit('component at a time', search, [C + 'index_at_time'], rep, covers=['entry', 'before', 'transition', 'inside', 'beyond']),
         Unit('component_at_time', at_time, [C + 'component_at_time'], rep, covers=['entry']),
         Unit('length of a slot', slot_length, ['mobslots.TimelineMobSlot.length'], rep, covers=['entry', 'sequence', 'nested'])]
UNITS.append(Lemma('lemma: prefix sums exist and are monotone', 'digits.lean', ['prefix_sum']))
BOUNDED = [Bounded('sequences', run, 'random sequences of 1 to 40 components (all kinds, lengths 0 to 10^12, transitions up to the length of their neighbours), also nested and reopened; '
                   'queries at, just before and just after both ends and the middle of every component and at half units, compared with the intervals',
                   [C + 'positions', C + 'index_at_time', C + 'component_at_time', 'mobslots.TimelineMobSlot.length'], check, budget=10)]
