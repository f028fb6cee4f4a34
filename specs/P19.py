"""P19: keyframes stay sorted and interpolation passes through them.

Times and values are exact reals in the proofs (R below); the code computes with floats (assumption: float arithmetic
treated as mathematical, checked by the bounded part).  T: the time of the keyframe at an index, strictly increasing;
V: its value."""
import random, math
from fractions import Fraction
import z3
from pydv.core import *
from pydv.core import ctx, iexpr, wrapb
from pydv.loops import LoopSpec
from pydv.seq import val_eq
from pydv.runner import Unit, Bounded, plain
from specs.common import drive, AafFiles, drop_chunks

V_ = 'misc.VaryingValue.'


class R(object):
    """an exact real"""
    __slots__ = ('e',)

    def __init__(self, e): self.e = e

    @staticmethod
    def of(x):
        if isinstance(x, R):
            return x.e
        if isinstance(x, (int, float, Fraction)):
            f = Fraction(x)
            return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
        if isinstance(x, SInt):
            return z3.ToReal(iexpr(x))
        raise Unsupported('not a number: %r' % (x,))

    def pv_float(self): return self
    def __add__(self, o): return R(self.e + R.of(o))
    def __radd__(self, o): return R(R.of(o) + self.e)
    def __sub__(self, o): return R(self.e - R.of(o))
    def __rsub__(self, o): return R(R.of(o) - self.e)
    def __mul__(self, o): return R(self.e * R.of(o))
    def __rmul__(self, o): return R(R.of(o) * self.e)
    def __neg__(self): return R(-self.e)
    def __abs__(self): return R(z3.If(self.e < 0, -self.e, self.e))

    def __truediv__(self, o):
        d = R.of(o)
        if wrapb(d == 0):
            raise ZeroDivisionError('float division by zero')
        q = z3.Real(ctx().fresh_name('quotient'))
        ctx().assume_expr(q * d == self.e)
        return R(q)

    def __rtruediv__(self, o): return R(R.of(o)) / self
    def __lt__(self, o): return wrapb(self.e < R.of(o))
    def __le__(self, o): return wrapb(self.e <= R.of(o))
    def __gt__(self, o): return wrapb(self.e > R.of(o))
    def __ge__(self, o): return wrapb(self.e >= R.of(o))
    def __eq__(self, o): return wrapb(self.e == R.of(o))
    def __ne__(self, o): return wrapb(self.e != R.of(o))
    def __bool__(self): return bool(wrapb(self.e != 0))
    __hash__ = None


def real(name): return R(z3.Real(ctx().fresh_name(name)))


class RF(object):
    def __init__(self, name):
        self.f = z3.Function(ctx().fresh_name(name), z3.IntSort(), z3.RealSort())

    def __call__(self, k): return R(self.f(z3.simplify(iexpr(k))))


class Points(object):
    """the keyframes: any number, in order"""

    def __init__(self, n0=1):
        self.n = fresh_int('n', n0)
        self.T, self.V = RF('time'), RF('value')
        self.seen, self.ops = [], []

    def order(self, *ks):
        """T is strictly increasing"""
        for k in ks:
            for j in self.seen:
                ins = and_(0 <= j, 0 <= k, j < self.n, k < self.n)
                assume(implies(and_(ins, j < k), self.T(j) < self.T(k)))
                assume(implies(and_(ins, k < j), self.T(k) < self.T(j)))
            self.seen.append(k)

    def pv_len(self): return self.n

    def __getitem__(self, k):
        prove(and_(0 <= k, k < self.n), 'an existing keyframe')
        self.order(k)
        return Point(self, k)

    def insert(self, i, x): self.ops.append(('insert', i, x))
    def append(self, x): self.ops.append(('insert', self.n, x))
    def __setitem__(self, i, x): self.ops.append(('set', i, x))


class Point(object):
    def __init__(self, ps, k):
        self.k, self.time, self.value = k, ps.T(k), ps.V(k)
        i = real('handle'), real('handle'), real('handle'), real('handle')
        self.tangents = [(i[0], i[1]), (i[2], i[3])]


def curve(P, ps, **extra):
    d = dict(__new__=lambda cls: object.__new__(cls), __init__=lambda s: None, __getitem__=lambda s, k: {'PointList': ps}[k], root=None)
    d.update(extra)
    return type('VV', (P.misc.VaryingValue,), d)()


class Search(LoopSpec):
    name = 'search'
    fn = 'nearest_index'
    def __init__(self, h): self.h = h

    def match(self, L, env): return not L.isfor and 'start' in env and 'end' in env

    def ghost0(self, L, env): return dict(s=env['start'], e=env['end'])
    def fresh(self, L): return dict(s=fresh_int('start', 0), e=fresh_int('end', -1))

    def constraint(self, L, g):
        h, ps = self.h, self.h['ps']
        J, t, s, e = h['J'], h['t'], g['s'], g['e']
        return [0 <= s, s <= e + 1, e < ps.n, implies(J < s, ps.T(J) < t), implies(J > e, ps.T(J) > t)]

    def state(self, L, g): return {'start': g['s'], 'end': g['e']}
    def next(self, L, g, env): return dict(s=env['start'], e=env['end'])
    def measure(self, L, g): return g['e'] - g['s'] + 1


def near(ps, t, r, J):
    """what nearest_index answers: the keyframe at that time, else the one before it, else the first"""
    T = ps.T
    return [and_(0 <= r, r < ps.n),
            implies(and_(T(J) == t), r == J),
            implies(and_(T(J) < t), J <= r),
            implies(and_(T(J) > t), or_(J > r, r == 0)),
            implies(T(r) > t, and_(r == 0))]


def nearest(P):
    from pydv import loops
    ps = Points()
    J, t = fresh_int('J', 0), real('t')
    assume(J < ps.n)
    ps.order(J)
    h = dict(ps=ps, J=J, t=t)
    loops.ACTIVE[:] = [[Search(h)]]
    ctx().cover('entry')
    r = curve(P, ps).nearest_index(t)
    ps.order(r, r + 1)
    for x in near(ps, t, r, J)[:4]:
        prove(x, 'the keyframe at or before the time')
    # with J = r and any J: nothing before the first
    if J == r and ps.T(r) > t:
        prove(r == 0, 'only the first is after the time')
        ctx().cover('before')
    elif J == r and ps.T(r) == t:
        ctx().cover('exact')
    elif J == r:
        ctx().cover('between')


def indexed(ps, asked, *Js):
    def nearest_index(self, t):
        """contract"""
        asked.append(t)
        t = R(R.of(t))
        r = fresh_int('index', 0)
        ps.order(0, r, r + 1, r + 2, r - 1)
        for J in Js + (r, r + 1, 0):
            for x in near(ps, t, r, J):
                assume(implies(and_(0 <= J, J < ps.n), x))
        return r
    return nearest_index


def add(P):
    ps = Points(0)
    J = fresh_int('J', 0)
    ps.order(J)
    assume(J < ps.n)
    empty = bool(ctx().choose(2))
    if empty:
        ps.n = 0
    stored, given = real('stored'), real('given')
    log = []

    class Entry(object):
        def __init__(s, name): s.name, s.value = name, None
        typedef = type('Td', (), dict(encode=lambda s, *a: ('encoded',) + a))()
        data = property(lambda s: None, lambda s, x: log.append(('data', s.name, x)))
        value = property(lambda s: None, lambda s, x: x is None or log.append(('value', s.name, x)))
        def add_pid_entry(s): log.append(('entry', s.name))
        def mark_modified(s): log.append(('modified', s.name))
    entries = {k: Entry(k) for k in ('Value', 'EditHint')}

    class CP(object):
        def __getitem__(s, k): return entries[k]
        # the stored time: what remains of the given one after conversion
        time = property(lambda s: stored, lambda s, x: log.append(('time', x)))
    cps = []
    class Create(object):
        def ControlPoint(s): cps.append(CP()); return cps[-1]
    asked = []
    kind, value = object(), object()
    v = curve(P, ps, nearest_index=indexed(ps, asked, J), root=type('Root', (), dict(create=Create()))(), typedef=kind)
    hint = ['h', None][ctx().choose(2)]
    ctx().cover('entry')
    cp = v.add_keyframe(given, value, hint)
    prove(len(cps) == 1 and cp is cps[0], 'one keyframe is created and returned')
    times = [x for x in log if x[0] == 'time']
    prove(len(times) == 1 and times[0][1] is given, 'its time')
    prove(('data', 'Value', ('encoded', value, kind)) in log, 'its value, as the type of the parameter')
    prove(len(ps.ops) == 1 and ps.ops[0][2] is cp, 'stored once')
    how, i, x = ps.ops[0]
    if empty:
        ctx().cover('first')
        prove(and_(how == 'insert', val_eq(i, 0)), 'the first keyframe')
        return
    if how == 'set':
        ctx().cover('replaced')
        prove(and_(0 <= i, i < ps.n), 'an existing keyframe')
        prove(ps.T(i) == stored, 'only a keyframe at the same time is replaced')
    else:
        ctx().cover('inserted')
        prove(and_(0 <= i, i <= ps.n), 'a position in the list')
        prove(implies(J < i, ps.T(J) < stored), 'after all earlier ones')
        prove(implies(J >= i, ps.T(J) > stored), 'before all later ones')


def value(P):
    m = P.misc
    ps = Points()
    t = real('t')
    names = ['ConstantInterp', 'LinearInterp', 'BezierInterpolator', 'CubicInterpolator']
    which = ctx().choose(4)
    asked, fits = [], []
    m.bezier_interpolate = lambda *a: fits.append(a) or real('curve')
    m.cubic_interpolate = lambda *a: fits.append(a) or real('curve')
    J = fresh_int('J', 0)
    assume(J < ps.n)
    ps.order(J)
    idef = type('Def', (), dict(auid=getattr(m, names[which]), name=names[which]))()
    v = curve(P, ps, nearest_index=indexed(ps, asked, J), interpolationdef=idef)
    ctx().cover('entry')
    r = v.value_at(t)
    T, V, n = ps.T, ps.V, ps.n
    ps.order(0, J + 1, n - 1)
    prove(implies(T(J) == t, r == V(J)), 'passes through every keyframe')
    prove(implies(t < T(0), r == V(0)), 'keeps the first value before it')
    prove(implies(t > T(n - 1), r == V(n - 1)), 'keeps the last value after it')
    prove(all(x is t for x in asked), 'looks up the time asked for')
    inside = and_(J + 1 < n, T(J) < t, t < T(J + 1))
    if which == 0:
        ctx().cover('constant')
        prove(implies(inside, r == V(J)), 'holds the earlier value')
    elif which == 1:
        if not inside:
            return
        ctx().cover('linear')
        prove((r - V(J)) * (T(J + 1) - T(J)) == (V(J + 1) - V(J)) * (t - T(J)), 'on the straight line')
    elif inside:
        ctx().cover(names[which])
        # the four points of the curve handed on: the keyframes around the time
        prove(len(fits) == 1 and fits[0][4] is t, 'one curve, at that time')
        a, b = (fits[0][0], fits[0][3]) if which == 2 else (fits[0][1], fits[0][2])
        prove(and_(a[0] == T(J), a[1] == V(J), b[0] == T(J + 1), b[1] == V(J + 1)), 'between the keyframes around it')


# ---------------------------------------------------------------- bounded
INTERP = ['ConstantInterp', 'LinearInterp', 'BezierInterpolator', 'CubicInterpolator']


def gtime(rng, big):
    k = rng.randrange(7)
    if k == 0:
        return ['int', rng.randrange(-big, big + 1)]
    if k == 6:
        # times that differ only a little from round ones and from each other
        e = rng.choice([10 ** 3, 10 ** 5, 10 ** 6, 10 ** 7, 10 ** 8, 10 ** 9])
        return [rng.choice(['rat', 'frac']), rng.choice([0, 1, 1, 2, -1]) * e + rng.randrange(-3, 4), e]
    if k == 1:
        return ['float', rng.randrange(-big, big + 1) / rng.choice([1.0, 2.0, 3.0, 4.0, 10.0, 24.0])]
    if k == 2:
        return ['frac', rng.randrange(-big, big + 1), rng.choice([1, 2, 3, 10, 24, 1001])]
    if k == 3:
        return ['rat', rng.randrange(-big, big + 1), rng.choice([1, 2, 3, 10, 24, 1001])]
    if k == 4:
        return ['float', rng.choice([0.1, 0.2, 0.3, 1e-10, 1e-3, 1.0 / 3, 0.5])]
    return ['int', rng.randrange(-3, 4)]


def gen(rng, i):
    big = rng.choice([2, 5, 20, 1000, 10 ** 6])
    n = rng.choice([0, 1, 2, 3, 5, 8, 20])
    keys = []
    for k in range(n):
        t = rng.choice(keys)[0] if keys and rng.random() < .25 else gtime(rng, big)
        keys.append([t, ['int', rng.randrange(-100, 100)] if rng.random() < .5 else ['frac', rng.randrange(-100, 100), rng.choice([1, 3, 7, 10])], rng.random() < .3])
    return dict(keys=keys, interp=rng.randrange(4), queries=[gtime(rng, big) for _ in range(6)], reopen=rng.random() < .1, double=rng.random() < .5, seed=rng.randrange(10 ** 9),
                ascending=rng.random() < .2, tangents=rng.random() < .5)


def mkt(x):
    from aaf2.rational import AAFRational
    k = x[0]
    if k == 'int': return x[1]
    if k == 'float': return x[1]
    if k == 'frac': return Fraction(x[1], x[2])
    return AAFRational(x[1], x[2])


class Shared(object):
    f = None

    def get(self):
        import aaf2
        if self.f is None:
            self.f = aaf2.open()
            setup(self.f)
        return self.f


SHARED = Shared()


def setup(f):
    from aaf2.auid import AUID
    from uuid import UUID
    for k, (name, t) in enumerate((('PV level', 'Rational'), ('PV tall', 'Int32'))):
        p = f.create.ParameterDef(AUID(str(UUID(int=0x77 << 90 | k))), name, '', f.dictionary.lookup_typedef(t)) if False else f.create.ParameterDef()
        p.auid = AUID(str(UUID(int=0x77 << 90 | k)))
        p.name = name
        p['Type'].value = f.metadict.lookup_typedef(t)
        f.dictionary['ParameterDefinitions'].append(p)
    from aaf2 import misc
    for name in INTERP:
        d = f.create.InterpolationDef()
        d.auid = getattr(misc, name)
        d.name = name
        if not any(x.auid == d.auid for x in f.dictionary['InterpolationDefinitions'].value):
            f.dictionary['InterpolationDefinitions'].append(d)


def close(a, b, scale):
    return abs(a - b) <= 1e-9 * max(1.0, abs(scale))


def reference(conv, keys):
    """the last value given at every time, times as stored"""
    d = {}
    for k in keys:
        d[conv(k[0])] = k
    return [(t, d[t]) for t in sorted(d)]


def examine(v, keys, inp):
    from aaf2.rational import AAFRational
    conv = lambda t: float(AAFRational(mkt(t)))
    num = lambda x: float(AAFRational(mkt(x))) if not inp['double'] else float(int(mkt(x)))
    want = [(t, num(k[1]), k) for t, k in reference(conv, keys)]
    got = [(p.time, p.value) for p in v.pointlist.value]
    if [t for t, x in got] != [t for t, x, k in want]:
        return 'keyframe times %r, not %r' % ([t for t, x in got], [t for t, x, k in want])
    if [x for t, x in got] != [x for t, x, k in want]:
        return 'keyframe values %r, not %r' % ([x for t, x in got], [x for t, x, k in want])
    if not want:
        return
    ts, xs = [t for t, x, k in want], [x for t, x, k in want]
    name = INTERP[inp['interp']]
    for t, x, k in want:
        r = v.value_at(t)
        if r != x:
            return '%s: value %r at the keyframe time %r whose value is %r' % (name, r, t, x)
    rng = random.Random(inp['seed'])
    queries = [float(mkt(q)) for q in inp['queries']] + [ts[0] - 1, ts[0] - 1e-7, ts[-1] + 1, ts[-1] + 1e-7]
    for j in range(len(ts) - 1):
        queries.append(ts[j] + (ts[j + 1] - ts[j]) * rng.random())
    for q in queries:
        if q in ts:
            continue
        if q < ts[0]:
            w = xs[0]
        elif q > ts[-1]:
            w = xs[-1]
        else:
            j = max(k for k in range(len(ts)) if ts[k] < q)
            if name == 'ConstantInterp':
                w = xs[j]
            elif name == 'LinearInterp':
                F = Fraction
                w = F(xs[j]) + (F(xs[j + 1]) - F(xs[j])) * (F(q) - F(ts[j])) / (F(ts[j + 1]) - F(ts[j]))
                r = v.value_at(q)
                if not close(r, float(w), max(abs(xs[j]), abs(xs[j + 1]))):
                    return 'linear: %r at %r between %r and %r' % (r, q, (ts[j], xs[j]), (ts[j + 1], xs[j + 1]))
                continue
            else:
                continue
        r = v.value_at(q)
        if r != w:
            return '%s: %r at %r, not %r' % (name, r, q, w)


def check(inp):
    if not inp['reopen']:
        return examine_file(inp, SHARED.get(), None)
    with AafFiles() as files:
        f = files.open('a.aaf', 'w')
        setup(f)
        return examine_file(inp, f, files)




def examine_file(inp, f, files):
    keys = inp['keys']
    if inp['ascending']:
        keys = sorted(keys, key=lambda k: mkt(k[0]))
    v = f.create.VaryingValue('PV tall' if inp['double'] else 'PV level', INTERP[inp['interp']])
    for t, x, hint in keys:
        y = mkt(x)
        cp = v.add_keyframe(mkt(t), int(y) if inp['double'] else y, 'Proportional' if hint else None)
        if not any(p is cp for p in v.pointlist.value):
            return 'the returned keyframe is not in the list'
    r = examine(v, keys, inp)
    if r:
        return r
    if files:
        f.dictionary['TaggedValueDefinitions'].value = []
        g = f.create.OperationGroup.__new__  # (not needed) keep the value reachable through a segment
        o = f.create.OperationDef('00000000-0000-0000-0000-0000000000aa', 'op', '')
        o.media_kind = 'picture'
        o['IsTimeWarp'].value = False
        o['NumberInputs'].value = 0
        o['OperationCategory'].value = 'OperationCategory_Effect'
        f.dictionary.register_def(o)
        s = f.create.OperationGroup(o, 10, 'picture')
        s['Parameters'].append(v)
        m = f.create.CompositionMob('m')
        sl = m.create_timeline_slot(25)
        sl.segment = s
        f.content.mobs.append(m)
        from aaf2 import core
        w = core.AAFObject.validate
        core.AAFObject.validate = lambda o: None
        try:
            f.close()
        finally:
            core.AAFObject.validate = w
        f = files.open('a.aaf', 'r')
        v = list(list(f.content.mobs)[0].slots[0].segment['Parameters'].value)[0]
        if not keys:
            return None
        r = examine(v, keys, inp)
        if r:
            return 'reopened: ' + r


def shrink(inp):
    for ks in drop_chunks(inp['keys']):
        yield dict(inp, keys=ks)


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check, nq=800, shrink=shrink)


def rep(m, name): return None


UNITS = [Unit('nearest keyframe', nearest, [V_ + 'nearest_index'], rep, covers=['entry', 'before', 'exact', 'between']),
         Unit('adding a keyframe', add, [V_ + 'add_keyframe'], rep, covers=['entry', 'first', 'replaced', 'inserted']),
         Unit('value at a time', value, [V_ + 'value_at', 'interpolation.lerp'], rep,
              covers=['entry', 'constant', 'linear', 'BezierInterpolator', 'CubicInterpolator'])]
BOUNDED = [Bounded('keyframes', run, 'random keyframe histories (0 to 20 insertions in any order, repeated times, times and values of every number type), four interpolations; '
                   'list, values at every keyframe, between, before and after compared with a sorted table; sometimes reopened',
                   [V_ + 'nearest_index', V_ + 'add_keyframe', V_ + 'value_at'], check, budget=10)]
