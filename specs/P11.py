"""P11: typed values survive encoding and decoding.

The specification is written over the raw AAF model tables (name, id, size,
members): build(g, tid) makes a legal value of the type together with its
layout as bytes and the value decoding must give.  The same function drives
the proofs (g makes symbolic values: all of them at once) and the bounded
cases (g draws random values)."""
import datetime
import random
import struct
from pydv.core import *
from pydv.core import ctx
from pydv import loops
from pydv.loops import LoopSpec, Val
from pydv.seq import prove_eq, mk, le_bytes, sym_bytes, seqof, Seq, val_eq, val_ite
from pydv.libs import SymDate, SymTime, SymDatetime, PvDict, PvSet
from pydv.runner import Unit, Bounded, Lemma, plain
from specs.common import drive, guarded
from specs.symfile import symfile

BOOL, AUIDT, MOBID, RAT = ('01040100-0000-0000-060e-2b3401040101', '01030100-0000-0000-060e-2b3401040101',
                           '01030200-0000-0000-060e-2b3401040101', '03010100-0000-0000-060e-2b3401040101')
DATE, TIME, STAMP = ['03010%d00-0000-0000-060e-2b3401040101' % k for k in (5, 6, 7)]
CHAR = '01100100-0000-0000-060e-2b3401040101'
STRING = '01100200-0000-0000-060e-2b3401040101'
UUIDT = '01030300-0000-0000-060e-2b3401040101'


def _model():
    plain()
    from aaf2.model import typedefs as T
    from aaf2.model.ext import typedefs as X
    m, names = {}, {}
    for mod in (T, X):
        for cat in ('ints', 'enums', 'records', 'fixed_arrays', 'var_arrays', 'renames', 'strings', 'sets', 'extenums',
                    'indirects', 'opaques', 'chars', 'generic_chars', 'strongrefs', 'weakrefs'):
            for name, v in getattr(mod, cat, {}).items():
                tid = v if isinstance(v, str) else v[0]
                if cat in ('enums', 'extenums') and tid in m:
                    d = dict(m[tid][2][-1])
                    d.update(v[-1])
                    v = tuple(v[:-1]) + (d,)
                m[tid] = (cat, name, v)
                names[name] = tid
    return m, names


_M = []


def model():
    if not _M:
        _M.append(_model())
    return _M[0]


def usable(tid, seen=()):
    """a type with a value encoding (references and streams are other properties)"""
    m, _ = model()
    if tid not in m:
        return False
    cat, name, v = m[tid]
    if cat in ('ints', 'enums', 'extenums', 'indirects', 'opaques'):
        return True
    if cat == 'strings':
        return name == 'aafString'
    if cat in ('chars', 'generic_chars', 'strongrefs', 'weakrefs'):
        return False
    if cat == 'records':
        return all(usable(t) for _, t in v[1])
    if cat == 'var_arrays':
        return v[1] == CHAR or usable(v[1])
    return usable(v[1])


def auid_le(tid):
    h = tid.replace('-', '')
    b = bytes.fromhex(h)
    return list(b[3::-1] + b[5:3:-1] + b[7:5:-1] + b[8:])


def fixed_size(tid):
    cat, name, v = model()[0][tid]
    if cat == 'ints':
        return v[1]
    if cat == 'enums':
        return fixed_size(v[1])
    if cat == 'records':
        return sum(fixed_size(t) for _, t in v[1])
    if cat == 'fixed_arrays':
        return fixed_size(v[1]) * v[2]
    if cat == 'renames':
        return fixed_size(v[1])
    if cat == 'extenums':
        return 16
    return None


class SymG(object):
    """symbolic values"""

    def __init__(self, P, n=None):
        self.AUID, self.MobID, self.Rat = P.auid.AUID, P.mobid.MobID, P.rational.AAFRational
        self.n = n
        self.k = 0
        self.c = None

    def name(self):
        self.k += 1
        return 'v%d' % self.k

    def int(self, lo, hi): return fresh_int(self.name(), lo, hi, note=True)
    def pick(self, xs):
        """every alternative for a single choice; further choices of one value move along with it"""
        if self.c is None:
            self.c = ctx().choose(len(xs))
        else:
            self.c += 1
        return xs[self.c % len(xs)]

    def bytes(self, n):
        s = sym_bytes(self.name(), n)
        return s, list(s.items)

    def count(self, deflt): return self.n if self.n is not None else deflt

    def text(self, n):
        cs = []
        for _ in range(n):
            c = fresh_int(self.name(), 1, 0xFFFF)
            assume(or_(c < 0xD800, c > 0xDFFF))
            cs.append(c)
        b = []
        for c in cs:
            b += [c % 256, c // 256]
        return mk('str', items=cs), b

    def date(self):
        y, m, d = fresh_int('y', 1, 9999, note=True), fresh_int('m', 1, 12, note=True), fresh_int('d', 1, 31, note=True)
        try:
            return SymDate(y, m, d)
        except ValueError:
            raise EndPath()

    def time(self, us=False):
        return SymTime(fresh_int('H', 0, 23, note=True), fresh_int('M', 0, 59, note=True), fresh_int('S', 0, 59, note=True), 0)

    def stamp(self, d, t): return SymDatetime(d.year, d.month, d.day, t.hour, t.minute, t.second, 0)
    def dict(self, pairs): return PvDict(pairs)
    def tobytes(self, l): return l


class RandG(object):
    """random concrete values"""

    def __init__(self, rng, n=None):
        plain()
        from aaf2.auid import AUID
        from aaf2.mobid import MobID
        from aaf2.rational import AAFRational
        self.AUID, self.MobID, self.Rat = AUID, MobID, AAFRational
        self.r, self.n = rng, n

    def int(self, lo, hi):
        r = self.r
        return r.choice([lo, hi, lo + 1, hi - 1, max(lo, min(hi, 0)), max(lo, min(hi, r.randrange(-300, 300))), r.randint(lo, hi), r.randint(lo, hi)])

    def pick(self, xs): return self.r.choice(xs)

    def bytes(self, n):
        b = bytes(self.r.randrange(256) for _ in range(n))
        if self.r.random() < .1:
            b = bytes([self.r.choice([0, 255])]) * n
        return b, list(b)

    def count(self, deflt):
        if self.n is not None:
            return self.n
        return self.r.choice([0, 1, 2, 3, 4, 5, 7, 16, 33, 100, 257, 1000])

    def text(self, n):
        r = self.r
        al = ['abcdefg XYZ_-', u'\u00e9\u00df\u4e2d\u0100\u0200\uffff\ud7ff\ue000\ufeff\u2028', u'\U0001F600\U00010000\U0010ffff', '\x01\x7f\r\n\t']
        s = u''.join(r.choice(r.choice(al)) for _ in range(n))
        return s, list(s.encode('utf-16le'))

    def date(self):
        r = self.r
        return r.choice([datetime.date(1, 1, 1), datetime.date(9999, 12, 31), datetime.date(2000, 2, 29), datetime.date(1970, 1, 1),
                         datetime.date.fromordinal(r.randint(1, 3652059))])

    def time(self):
        r = self.r
        return r.choice([datetime.time(0, 0, 0), datetime.time(23, 59, 59), datetime.time(r.randrange(24), r.randrange(60), r.randrange(60))])

    def stamp(self, d, t): return datetime.datetime.combine(d, t)
    def dict(self, pairs): return dict(pairs)


class Typed(object):
    """expected decoded value: exact class known (indirect)"""


def flat(xs):
    return [x for l in xs for x in l]


def build(g, tid, depth=0):
    """(value, layout bytes, expected decoded value)"""
    cat, name, v = model()[0][tid]
    if cat == 'ints':
        bits = 8 * v[1]
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if v[2] else (0, (1 << bits) - 1)
        x = g.int(lo, hi)
        return x, list(le_any(x, v[1])), x
    if cat == 'enums':
        if tid == BOOL:
            x = g.pick([False, True])
            return x, [int(x)], x
        k, nm = g.pick(sorted(v[2].items()))
        sz = fixed_size(v[1])
        return g.pick([k, nm]), list((k % (1 << 8 * sz)).to_bytes(sz, 'little')), nm
    if cat == 'extenums':
        k, nm = g.pick(sorted(v[1].items()))
        return g.pick([nm, g.AUID(k)]), auid_le(k), nm
    if cat == 'renames':
        return build(g, v[1])
    if cat == 'fixed_arrays':
        xs = [build(g, v[1], depth + 1) for _ in range(v[2])]
        return [x[0] for x in xs], flat([x[1] for x in xs]), [x[2] for x in xs]
    if cat == 'var_arrays':
        n = g.count(3)
        if v[1] == CHAR:
            ts = [g.text(g.pick([0, 1, 2, 5])) for _ in range(min(n, 60))]
            return [t[0] for t in ts], flat([t[1] + [0, 0] for t in ts]), [t[0] for t in ts]
        xs = [build(g, v[1], depth + 1) for _ in range(n)]
        return [x[0] for x in xs], flat([x[1] for x in xs]), [x[2] for x in xs]
    if cat == 'strings':
        s, b = g.text(g.count(3))
        return s, b + [0, 0], s
    if cat == 'records':
        if tid == AUIDT:
            raw, b = g.bytes(16)
            a = g.AUID(bytes_le=raw)
            return a, b, a
        if tid == MOBID:
            raw, b = g.bytes(32)
            a = g.MobID(bytes_le=raw)
            return a, b, a
        if tid == RAT:
            i = (1 << 31)
            n, d = g.int(-i, i - 1), g.int(1, i - 1)
            a = g.Rat(n, d)
            return a, le_any(n, 4) + le_any(d, 4), a
        if tid in (DATE, STAMP):
            d = g.date()
        if tid in (TIME, STAMP):
            t = g.time()
        if tid == DATE:
            return d, le_any(d.year, 2) + [d.month, d.day], d
        if tid == TIME:
            return t, [t.hour, t.minute, t.second, 0], t
        if tid == STAMP:
            s = g.stamp(d, t)
            return s, le_any(d.year, 2) + [d.month, d.day, t.hour, t.minute, t.second, 0], s
        xs = [(nm, build(g, t, depth + 1)) for nm, t in v[1]]
        return g.dict([(a, x[0]) for a, x in xs]), flat([x[1] for _, x in xs]), dict((a, x[2]) for a, x in xs)
    raise AssertionError(cat)


def le_any(v, n):
    if isinstance(v, int):
        return list((v % (1 << 8 * n)).to_bytes(n, 'little'))
    lo, hi = v.bounds()
    if lo is not None and lo >= 0:
        return le_bytes(v, n)
    if n == 8:
        return le_bytes(v + (1 << 64), 8) if v < 0 else le_bytes(v, 8)
    return le_bytes(ite(v < 0, v + (1 << 8 * n), v), n)


def same(a, b):
    """equality of a decoded and an expected value (symbolic)"""
    if isinstance(b, dict):
        if not isinstance(a, dict) or len(a) != len(b):
            return False
        return and_(*[same(a[k], b[k]) for k in b])
    if isinstance(b, (list, tuple)):
        sa = seqof(a)
        if sa is None:
            if not isinstance(a, (list, tuple)) or len(a) != len(b):
                return False
            return and_(*[same(x, y) for x, y in zip(a, b)])
        if sa.items is None:
            return False
        return len(sa.items) == len(b) and and_(*[same(x, y) for x, y in zip(sa.items, b)])
    if isinstance(b, SymDatetime):
        return isinstance(a, SymDatetime) and and_(*[getattr(a, k) == getattr(b, k) for k in 'year month day hour minute second microsecond'.split()])
    if isinstance(b, SymDate):
        return isinstance(a, SymDate) and not isinstance(a, SymDatetime) and and_(a.year == b.year, a.month == b.month, a.day == b.day)
    if isinstance(b, SymTime):
        return isinstance(a, SymTime) and and_(a.hour == b.hour, a.minute == b.minute, a.second == b.second, a.microsecond == b.microsecond)
    if hasattr(b, 'bytes_le'):
        return type(a) is type(b) and val_eq(a.bytes_le, b.bytes_le)
    if type(b).__name__ == 'AAFRational':
        return type(a) is type(b) and and_(a.numerator == b.numerator, a.denominator == b.denominator)
    if isinstance(b, bool):
        return isinstance(a, (bool, SBool)) and a == b
    if isinstance(b, (int, SInt)):
        return isinstance(a, (int, SInt)) and a == b
    if isinstance(b, (str, Seq)):
        return val_eq(a, b)
    return a == b


# ---------------------------------------------------------------- deductive units
def enc_dec(tid, n=None):
    def body(P):
        t = symfile(P).metadict.lookup_typedef(P.auid.AUID(tid))
        g = SymG(P, n)
        v, want, dec = build(g, tid)
        ctx().cover('entry')
        data = t.encode(v)
        prove_eq(data, want, 'layout')
        prove(same(t.decode(mk('bytes', items=list(want))), dec), 'decoding the layout gives the value back')
        sz = fixed_size(tid)
        if sz is not None and model()[0][tid][0] != 'extenums':
            prove(t.byte_size == sz, 'byte_size')
    return body


def set_body(tid, n):
    def body(P):
        t = symfile(P).metadict.lookup_typedef(P.auid.AUID(tid))
        el = model()[0][tid][2][1]
        g = SymG(P)
        xs = [build(g, el) for _ in range(n)]
        for i in range(n):
            for j in range(i):
                assume(not_(same(xs[i][0], xs[j][0])))
        ctx().cover('entry')
        s = PvSet()
        for x in xs:
            s.add(x[0])
        data = t.encode(s)
        sz = fixed_size(el)
        prove(data.length() == n * sz if n else len(data) == 0, 'length')
        parts = [list(data[i * sz:(i + 1) * sz].items) for i in range(n)]
        for x in xs:
            prove(or_(*[and_(*[a == b for a, b in zip(p, x[1])]) for p in parts]), 'member stored')
        back = t.decode(mk('bytes', items=sum(parts, [])))
        back = list(back)
        prove(len(back) == n, 'same number of members')
        for x in xs:
            prove(or_(*[same(b, x[2]) for b in back]), 'member read back')
    return body


def int_range(tid):
    """any Python integer: encoded exactly when it fits, refused otherwise"""
    def body(P):
        t = symfile(P).metadict.lookup_typedef(P.auid.AUID(tid))
        cat, name, v = model()[0][tid]
        bits = 8 * v[1]
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if v[2] else (0, (1 << bits) - 1)
        x = fresh_int('x', note=True)
        fits = and_(x >= lo, x <= hi)
        ctx().cover('entry')
        try:
            data = t.encode(x)
        except struct.error:
            prove(not_(fits), 'only values outside the type are refused')
            return
        prove(fits, 'a value outside the type is refused')
    return body


def int_decode(tid):
    """any stored bytes: the little-endian value of the type's signedness"""
    def body(P):
        t = symfile(P).metadict.lookup_typedef(P.auid.AUID(tid))
        cat, name, v = model()[0][tid]
        s = sym_bytes('raw', v[1])
        ctx().cover('entry')
        x = t.decode(s)
        u = 0
        for b in reversed(s.items):
            u = u * 256 + b
        if v[2]:
            u = ite(u >= 1 << (8 * v[1] - 1), u - (1 << 8 * v[1]), u)
        prove(x == u, 'value')
        prove_eq(t.encode(x), s, 'encoding gives the bytes back')
    return body


def too_many(tid):
    def body(P):
        t = symfile(P).metadict.lookup_typedef(P.auid.AUID(tid))
        cat, name, v = model()[0][tid]
        g = SymG(P)
        xs = [build(g, v[1])[0] for _ in range(v[2] + 1)]
        ctx().cover('entry')
        try:
            t.encode(xs)
        except P.exceptions.AAFPropertyError:
            prove(True, 'refused')
            return
        prove(False, 'more elements than a fixed array has are refused')
    return body


def short_fixed(tid, k):
    """fewer elements: the rest is zero"""
    def body(P):
        t = symfile(P).metadict.lookup_typedef(P.auid.AUID(tid))
        cat, name, v = model()[0][tid]
        g = SymG(P)
        xs = [build(g, v[1]) for _ in range(k)]
        ctx().cover('entry')
        want = sum([x[1] for x in xs], [])
        prove_eq(t.encode([x[0] for x in xs]), want + [0] * (fixed_size(tid) - len(want)), 'padded with zero')
    return body


def indirect(tid, how):
    def body(P):
        f = symfile(P)
        t = f.metadict.lookup_typedef(P.auid.AUID(IND))
        g = SymG(P)
        if how == 'int':
            x = g.int(-(1 << 31), (1 << 31) - 1)
            v, want, dec, tt = x, le_any(x, 4), x, '01010700-0000-0000-060e-2b3401040101'
            data = t.encode(v)
        elif how == 'rational':
            v, want, dec = build(g, RAT)
            tt = RAT
            data = t.encode(v)
        elif how == 'text':
            v, b = g.text(2)
            want, dec, tt = b + [0, 0], v, STRING
            data = t.encode(v)
        else:
            v, want, dec = build(g, tid)
            tt = tid
            data = t.encode(v, P.auid.AUID(tid))
        ctx().cover('entry')
        prove_eq(data, [0x4c] + auid_le(tt) + want, 'byte order mark, type id, value')
        prove(same(t.decode(mk('bytes', items=[0x4c] + auid_le(tt) + want)), dec), 'read back')
    return body


IND = '04100300-0000-0000-060e-2b3401040101'


# ---------------------------------------------------------------- any length
class Elem(object):
    """the contract of an element type: encode gives the z bytes of the value,
    decode of z bytes is a function of them (both proved per type above).
    The value number i of the list stands for itself."""

    def __init__(self, P, t, z):
        self.z = z
        self.B = UF('bytes of a value', 2, 0, 255)
        self.D = UF('value of bytes', z)
        E = self

        def encode(self, v): return mk('bytes', items=[E.B(v, j) for j in range(z)])

        def decode(self, data):
            prove(val_eq(seqof(data).length(), z), 'an element has %d bytes' % z)
            return E.D(*[seqof(data).at(j) for j in range(z)])
        self.t = t
        self.cls = type(t)
        self.sub = type('Elem', (type(t),), dict(__slots__=(), encode=encode, decode=decode))

    def __enter__(self):
        self.t.__class__ = self.sub

    def __exit__(self, *a):
        self.t.__class__ = self.cls


def role(L, want):
    """the one name the loop changes whose value on arrival is an empty bytes/list, or zero"""
    c = []
    for n in sorted(set(L.names) | set(L.env0) if want == 'list' else L.names):
        v = L.env0.get(n, Ellipsis)
        if isinstance(v, (bool, SBool)) or v is Ellipsis:
            continue
        s = seqof(v) if not isinstance(v, (int, SInt)) else None
        if want == 'zero' and type(v) is int and v == 0:
            c.append(n)
        elif s is not None and s.kind == want and isinstance(s.length(), int) and s.length() == 0:
            c.append(n)
    return c[0] if len(c) == 1 else None


class EncLoop(LoopSpec):
    """the bytes of the elements so far; a counter counts them"""
    name = 'elements so far'
    fn = 'encode'

    def __init__(self, E, V, top=None): self.E, self.V, self.top = E, V, top
    def match(self, L, env): return L.lazy is not None and role(L, 'bytes') is not None
    def constraint(self, L, g): return [L.idx <= self.top] if self.top is not None else []

    def state(self, L, g):
        E, V, k, z = self.E, self.V, L.idx, self.E.z
        d = {role(L, 'bytes'): Val(many(E, V, k), lambda cur: cells(E, V, cur, k))}
        c = role(L, 'zero')
        if c:
            d[c] = k
        return d


def many(E, V, k):
    """the layout of the first k values"""
    def f(p):
        q, r = p // E.z, p % E.z
        x = E.B(V(q), E.z - 1)
        for j in range(E.z - 2, -1, -1):
            x = ite(r == j, E.B(V(q), j), x)
        return x
    return mk('bytes', n=k * E.z, f=f)


def cells(E, V, cur, k):
    s = seqof(cur)
    if s is None or s.kind != 'bytes':
        return False
    q = fresh_int('q', 0)
    return and_(val_eq(s.length(), k * E.z), *[implies(q < k, s.at(q * E.z + j) == E.B(V(q), j)) for j in range(E.z)])


class DecLoop(LoopSpec):
    """the values of the elements so far"""
    name = 'values so far'
    fn = 'decode'

    def __init__(self, E, S): self.E, self.S = E, S
    def match(self, L, env): return L.lazy is not None and role(L, 'list') is not None

    def state(self, L, g):
        d = {role(L, 'list'): mk('list', n=L.idx, f=lambda k: self.E.D(*[self.S(k * self.E.z + j) for j in range(self.E.z)]))}
        c = role(L, 'zero')
        if c:
            d[c] = L.idx * self.E.z
        return d


class Pad(LoopSpec):
    """the rest of a fixed array is zero"""
    name = 'zero padding'
    fn = 'encode'

    def match(self, L, env):
        self.b = [n for n in L.names if seqof(env.get(n)) is not None and seqof(env.get(n)).kind == 'bytes']
        self.c = [n for n in L.names if isinstance(env.get(n), (int, SInt))]
        return not L.isfor and len(self.b) == 1 and len(self.c) == 1

    def fresh(self, L): return dict(done=fresh_int('done', 0))
    def ghost0(self, L, env): return dict(done=0)
    def next(self, L, g, env): return dict(done=g['done'] + 1)
    def constraint(self, L, g): return [g['done'] <= L.env0[self.c[0]]]
    def measure(self, L, g): return L.env0[self.c[0]] - g['done']

    def state(self, L, g):
        s = seqof(L.env0[self.b[0]])
        n, m = s.length(), g['done']
        return {self.b[0]: mk('bytes', n=n + m, f=lambda p: val_ite(p < n, lambda: s.at(p), lambda: 0)), self.c[0]: L.env0[self.c[0]] - m}


def elem_of(tid):
    cat, name, v = model()[0][tid]
    return v[1]


def any_encode(tid):
    """a list of any length"""
    def body(P):
        t = symfile(P).metadict.lookup_typedef(P.auid.AUID(tid))
        cat, name, v = model()[0][tid]
        el = elem_of(tid)
        z = fixed_size(el)
        ecat, _, ev = model()[0][el]
        n = fresh_int('n', 0, note=True)
        top = v[2] if cat == 'fixed_arrays' else None
        if ecat == 'ints' and cat == 'var_arrays':
            bits = 8 * z
            V = UF('V', 1, *((-(1 << bits - 1), (1 << bits - 1) - 1) if ev[2] else (0, (1 << bits) - 1)))
            E = None
        else:
            V = UF('V', 1)
            E = Elem(P, t.element_typedef, z)
        xs = mk('list', n=n, f=lambda k: V(k))
        loops.ACTIVE[:] = [[EncLoop(E, V, top), Pad()]] if E else [[]]
        ctx().cover('entry')
        if E:
            with E:
                try:
                    data = t.encode(xs)
                except P.exceptions.AAFPropertyError:
                    ctx().cover('refused')
                    prove(top is not None and n > top, 'only more elements than a fixed array has are refused')
                    return
            byte = E.B
        else:
            data = t.encode(xs)
            byte = lambda x, j: (ite(x < 0, x + (1 << 8 * z), x) >> (8 * j)) % 256
        s = seqof(data)
        ctx().cover('done')
        prove(val_eq(s.length(), (top if top is not None else n) * z), 'length')
        if top is not None:
            prove(n <= top, 'more elements than a fixed array has are refused')
        q = fresh_int('q', 0)
        for j in range(z):
            prove(implies(q < n, s.at(q * z + j) == byte(V(q), j)), 'byte %d of every element' % j)
            if top is not None:
                prove(implies(and_(q >= n, q < top), s.at(q * z + j) == 0), 'the rest is zero')
    return body


def any_decode(tid):
    """data of any number of elements"""
    def body(P):
        t = symfile(P).metadict.lookup_typedef(P.auid.AUID(tid))
        cat, name, v = model()[0][tid]
        el = elem_of(tid)
        z = fixed_size(el)
        ecat, _, ev = model()[0][el]
        n = fresh_int('n', 0, note=True) if cat == 'var_arrays' else v[2]
        S = UF('S', 1, 0, 255)
        data = mk('bytes', n=n * z, f=lambda k: S(k)) if cat == 'var_arrays' else mk('bytes', items=[S(k) for k in range(n * z)])
        ints = ecat == 'ints'
        E = None if ints else Elem(P, t.element_typedef, z)
        loops.ACTIVE[:] = [[DecLoop(E, S)]] if E else [[]]
        ctx().cover('entry')
        if E:
            with E:
                r = t.decode(data)
        else:
            r = t.decode(data)
        s = seqof(r)
        ctx().cover('done')
        prove(isinstance(r, (list, tuple)) or s is not None and s.kind in ('list', 'tuple'), 'a list')
        prove(val_eq(s.length(), n), 'length')
        qs = [fresh_int('q', 0)] if cat == 'var_arrays' else range(n)
        for q in qs:
            bs = [S(q * z + j) for j in range(z)]
            if E:
                want = E.D(*bs)
            else:
                want = 0
                for b in reversed(bs):
                    want = want * 256 + b
                if ev[2]:
                    want = ite(want >= 1 << (8 * z - 1), want - (1 << 8 * z), want)
            prove(implies(q < n, s.at(q) == want), 'every element')
    return body


class Members(object):
    """a set of n values; iterated over in some order"""
    pv_ghost = True

    def __init__(self, n, W): self.n, self.W = n, W
    def pv_lazy(self): return mk('list', n=self.n, f=self.W)
    def pv_len(self): return self.n

    def pv_set(self):
        """set(these): the same members, in an order of its own"""
        to, back = UF('order', 1, 0), UF('place', 1, 0)
        n, W = self.n, self.W

        def at(k):
            i = to(k)
            ctx().assume_expr(bexpr(implies(and_(k >= 0, k < n), and_(i < n, back(i) == k))))
            return W(i)
        m = Members(n, at)
        m.to, m.back = to, back
        self.other = m
        return m


class Growing(object):
    """the set of the values of the first k elements"""
    pv_ghost = True

    def __init__(self, k): self.k, self.log = k, []
    def add(self, v): self.log.append(v)


class AddLoop(LoopSpec):
    """the set of the values so far"""
    name = 'members so far'
    fn = 'decode'

    def __init__(self, E, S): self.E, self.S = E, S

    def match(self, L, env):
        self.r = [n for n in env if isinstance(env[n], set) and len(env[n]) == 0]
        return L.lazy is not None and len(self.r) == 1

    def val(self, k): return self.E.D(*[self.S(k * self.E.z + j) for j in range(self.E.z)])

    def holds(self, cur, k):
        if isinstance(cur, set):
            return len(cur) == 0 and k == 0
        return isinstance(cur, Growing) and and_(cur.k + len(cur.log) == k, *[v == self.val(cur.k + i) for i, v in enumerate(cur.log)])

    def state(self, L, g):
        k = L.idx
        d = {self.r[0]: Val(Growing(k), lambda cur: self.holds(cur, k))}
        c = role(L, 'zero')
        if c:
            d[c] = k * self.E.z
        return d


def any_set(tid):
    """a set of any number of members: every one is stored once, and read back"""
    def body(P):
        t = symfile(P).metadict.lookup_typedef(P.auid.AUID(tid))
        z = fixed_size(elem_of(tid))
        E = Elem(P, t.element_typedef, z)
        n = fresh_int('n', 0, note=True)
        ctx().cover('entry')
        if ctx().choose(2):
            W = UF('member', 1)
            xs = Members(n, W)
            loops.ACTIVE[:] = [[EncLoop(E, None)]]
            spec = loops.ACTIVE[0][0]
            def V(k):
                m = getattr(xs, 'other', xs)
                return m.W(k)
            spec.V = V
            with E:
                data = seqof(t.encode(xs))
            ctx().cover('encoded')
            prove(val_eq(data.length(), n * z), 'length')
            q = fresh_int('q', 0)
            o = getattr(xs, 'other', None)
            at = q
            if o is not None:
                # member q is somewhere in the order
                at = o.back(q)
                ctx().assume_expr(bexpr(implies(q < n, and_(at < n, o.to(at) == q))))
            for j in range(z):
                prove(implies(q < n, data.at(at * z + j) == E.B(W(q), j)), 'byte %d of every member' % j)
        else:
            S = UF('S', 1, 0, 255)
            loops.ACTIVE[:] = [[AddLoop(E, S)]]
            with E:
                r = t.decode(mk('bytes', n=n * z, f=lambda k: S(k)))
            ctx().cover('decoded')
            prove(loops.ACTIVE[0][0].holds(r, n), 'the values of all elements')
    return body


class Texts(object):
    """m texts: text w has T(w) characters C(w, p) and begins at byte S(w)"""

    def __init__(self):
        h = self
        self.m = fresh_int('texts', 0, note=True)
        self.T = UF('T', 1, 0)
        self.C = UF('C', 2, 1, 0xFFFF, facts=lambda r, w, k: [or_(r < 0xD800, r > 0xDFFF)])
        self.H = UF('H', 1, 0)

    def S(self, w):
        """begin of text w, with the recurrence around it (lemma: prefix_sum)"""
        H, T = self.H, self.T
        ctx().assume_expr(bexpr(and_(H(0) == 0, implies(w >= 0, H(w + 1) == H(w) + T(w) + 1))))
        return 2 * H(w)

    def text(self, w): return mk('str', n=self.T(w), f=lambda p: self.C(w, p))

    def holds(self, at, w, p):
        """the layout of text w at its character p"""
        S, c = self.S(w), self.C(w, p)
        return and_(implies(and_(p >= 0, p < self.T(w)), and_(at(S + 2 * p) == c % 256, at(S + 2 * p + 1) == c // 256)),
                    at(S + 2 * self.T(w)) == 0, at(S + 2 * self.T(w) + 1) == 0)

    def below(self, w, k):
        """begins are ordered: text w < k ends before text k begins (lemma: prefix sums grow)"""
        return implies(and_(w >= 0, w < k), self.S(w) + 2 * self.T(w) + 2 <= self.S(k))


class TextsEnc(LoopSpec):
    """the layouts of the texts so far (at an arbitrary character of an arbitrary text)"""
    name = 'texts so far'
    fn = 'encode_utf16_array'

    def __init__(self, h, w, p): self.h, self.w, self.p = h, w, p
    def match(self, L, env): return L.lazy is not None and role(L, 'bytes') is not None

    def fresh(self, L):
        return dict(R=UF('R', 1, 0, 255))

    def constraint(self, L, g):
        return [implies(self.w < L.idx, self.h.holds(g['R'], self.w, self.p))] if 'R' in g else []

    def state(self, L, g):
        h, k = self.h, L.idx
        ctx().assume_expr(bexpr(h.below(self.w, k)))

        def ok(cur):
            s = seqof(cur)
            if s is None or s.kind != 'bytes':
                return False
            at = s.snapshot().at if s.items is None or s.items else (lambda i: 0)
            return and_(val_eq(s.length(), h.S(k)), implies(self.w < k, h.holds(at, self.w, self.p)))
        v = mk('bytes', n=h.S(k), f=g['R']) if 'R' in g else mk('bytes', items=[])
        return {role(L, 'bytes'): Val(v, ok)}

    def next(self, L, g, env): return {}


def texts_encode(tid):
    """an array of texts: any number, any lengths"""
    def body(P):
        t = symfile(P).metadict.lookup_typedef(P.auid.AUID(tid))
        h = Texts()
        w, p = fresh_int('w', 0), fresh_int('p', 0)
        assume(w < h.m)
        loops.ACTIVE[:] = [[TextsEnc(h, w, p)]]
        ctx().cover('entry')
        data = seqof(t.encode(mk('list', n=h.m, f=h.text)))
        ctx().cover('done')
        prove(val_eq(data.length(), h.S(h.m)), 'length')
        prove(h.holds(data.at, w, p), 'every character of every text, and two zeros after it')
    return body


class TextsDec(LoopSpec):
    """j texts are complete; the next one begins at start"""
    name = 'texts read'
    fn = 'iter_utf16_array'

    def __init__(self, h, log): self.h, self.log, self.j = h, log, 0
    def match(self, L, env): return L.lazy is not None and role(L, 'zero') is not None
    def ghost0(self, L, env): return dict(j=0)
    def fresh(self, L): return dict(j=fresh_int('j', 0))

    def constraint(self, L, g):
        h, j, i = self.h, g['j'], 2 * L.idx
        for x in (j, j - 1):
            ctx().assume_expr(bexpr(h.below(x, h.m)))
        return [j <= h.m, h.S(j) <= i, i <= h.S(h.m), implies(j < h.m, i < h.S(j) + 2 * h.T(j) + 2)]

    def state(self, L, g): return {role(L, 'zero'): self.h.S(g['j'])}
    def iteration(self, L, g): self.j, self.n0 = g['j'], len(self.log)

    def next(self, L, g, env):
        h, j = self.h, g['j']
        new = self.log[self.n0:]
        prove(len(new) <= 1, 'at most one text per place')
        if not new:
            ctx().cover('inside')
            return g
        ctx().cover('text')
        s = seqof(new[0])
        prove(s is not None and s.kind == 'str', 'a text')
        p = fresh_int('p', 0)
        prove(val_eq(s.length(), h.T(j)), 'its length')
        prove(implies(p < h.T(j), s.at(p) == h.C(j, p)), 'its characters')
        return dict(j=j + 1)


def texts_decode(tid):
    """and read back"""
    def body(P):
        h = Texts()
        log = []
        sp = TextsDec(h, log)

        def facts(r, p):
            """the data are the layouts of the texts: what that says about text j at this place"""
            j = sp.j
            k = (p - h.S(j)) // 2
            c = h.C(j, k)
            return [implies(and_(j < h.m, p >= h.S(j), k < h.T(j)), r == ite(p % 2 == 0, c % 256, c // 256)),
                    implies(and_(j < h.m, p >= h.S(j), k == h.T(j)), r == 0)]
        D = UF('D', 1, 0, 255, facts=facts)
        loops.ACTIVE[:] = [[sp]]
        ctx().cover('entry')
        for x in P.types.iter_utf16_array(mk('bytes', n=h.S(h.m), f=lambda k: D(k))):
            log.append(x)
        ctx().cover('done')
        prove(val_eq(sp.j, h.m), 'all texts are read')
    return body


def any_text(P):
    """aafString: a text of any length"""
    t = symfile(P).metadict.lookup_typedef(P.auid.AUID(STRING))
    n = fresh_int('n', 0, note=True)
    C = UF('C', 1, 1, 0xFFFF, facts=lambda r, k: [or_(r < 0xD800, r > 0xDFFF)])
    ctx().cover('entry')
    data = seqof(t.encode(mk('str', n=n, f=lambda k: C(k))))
    prove(val_eq(data.length(), 2 * n + 2), 'two bytes each and two zeros')
    q = fresh_int('q', 0)
    prove(implies(q < n, and_(data.at(2 * q) == C(q) % 256, data.at(2 * q + 1) == C(q) // 256)), 'every character')
    prove(and_(data.at(2 * n) == 0, data.at(2 * n + 1) == 0), 'two zeros')
    # the layout read back
    lay = mk('bytes', n=2 * n + 2, f=lambda p: ite(p < 2 * n, ite(p % 2 == 0, C(p // 2) % 256, C(p // 2) // 256), 0))
    ctx().memo['split'] = [n]
    s = seqof(t.decode(lay))
    prove(s.kind == 'str', 'a text')
    prove(val_eq(s.length(), n), 'same length')
    prove(implies(q < n, s.at(q) == C(q)), 'same characters')
    ctx().cover('done')



# ---------------------------------------------------------------- concrete
_f = []


def the_file():
    if not _f:
        plain()
        import aaf2
        _f.append(aaf2.open())
    return _f[0]


def concrete(t, v, want, dec, tid):
    data = t.encode(v)
    if bytes(data) != bytes(want):
        return '%s: %r encodes to %s, expected %s' % (t.type_name, v, bytes(data).hex()[:200], bytes(want).hex()[:200])
    b = t.decode(data)
    if isinstance(b, tuple):
        b = list(b)
    if b != dec or type(b) is not type(dec):
        return '%s: %r reads back as %r' % (t.type_name, v, b)
    if isinstance(dec, list):
        for x, y in zip(b, dec):
            if type(x) is not type(y) and not (isinstance(x, tuple) and isinstance(y, list)):
                return '%s: element %r reads back as %r' % (t.type_name, y, x)
    return None


def gen(rng, i):
    m, names = model()
    ts = sorted(t for t in m if usable(t))
    inp = dict(tid=ts[i % len(ts)], seed=rng.randrange(1 << 30))
    if m[inp['tid']][0] in ('var_arrays', 'strings', 'sets') and rng.random() < .06:
        inp['n'] = min(rng.choice([2048, 3000, 4097, 5000, 8191, 16384, 33000, 65536]), longest(inp['tid']))
    return inp


def fix_tuples(d):
    if isinstance(d, dict):
        return {k: fix_tuples(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [fix_tuples(x) for x in d]
    return d


def longest(tid):
    """elements that fit a property of 65535 bytes (records: fewer, they are slow)"""
    cat, name, v = model()[0][tid]
    if cat == 'strings':
        return 33000
    el = v[1] if cat != 'renames' else tid
    z = fixed_size(el) or 4
    return max(10, (65535 if model()[0][el][0] in ('ints', 'renames') else 10000) // z)


def check(inp):
    f = the_file()
    from aaf2.auid import AUID
    tid = inp['tid']
    rng = random.Random(inp['seed'])
    g = RandG(rng, inp.get('n'))
    t = f.metadict.lookup_typedef(AUID(tid))
    if t is None:
        return 'type %s is missing' % tid
    cat, name, v = model()[0][tid]
    if cat == 'sets':
        xs = [build(g, v[1]) for _ in range(g.count(3))]
        s = {}
        for x in xs:
            s[bytes(x[1])] = x
        vals = set(x[0] for x in s.values())
        data = bytes(t.encode(vals))
        sz = fixed_size(v[1])
        parts = [data[k:k + sz] for k in range(0, len(data), sz)]
        if sorted(parts) != sorted(s):
            return '%s: %d members stored as %s' % (t.type_name, len(s), data.hex()[:200])
        b = t.decode(data)
        if b != vals:
            return '%s: %r reads back as %r' % (t.type_name, vals, b)
        return None
    if cat in ('indirects', 'opaques'):
        m = model()[0]
        ts = sorted(x for x in m if usable(x) and m[x][0] not in ('indirects', 'opaques', 'sets'))
        k = rng.choice(['auto', 'typed'])
        if k == 'auto':
            tt = rng.choice([STRING, RAT, '01010700-0000-0000-060e-2b3401040101'])
            v, want, dec = build(g, tt)
            data = t.encode(v)
        else:
            tt = rng.choice(ts)
            v, want, dec = build(g, tt)
            data = t.encode(v, rng.choice([AUID(tt), m[tt][1]]))
        full = bytes([0x4c] + auid_le(tt)) + bytes(want)
        if bytes(data) != full:
            return 'indirect %s: %r encodes to %s, expected %s' % (m[tt][1], v, bytes(data).hex()[:200], full.hex()[:200])
        b = t.decode(data)
        if fix_tuples(b) != fix_tuples(dec):
            return 'indirect %s: %r reads back as %r' % (m[tt][1], v, b)
        return None
    v, want, dec = build(g, tid)
    data = t.encode(v)
    if bytes(data) != bytes(want):
        return '%s: %r encodes to %s, expected %s' % (t.type_name, v, bytes(data).hex()[:200], bytes(want).hex()[:200])
    sz = fixed_size(tid)
    if sz is not None and cat != 'extenums' and t.byte_size != sz:
        return '%s: byte_size %r, expected %d' % (t.type_name, t.byte_size, sz)
    b = t.decode(data)
    if fix_tuples(b) != fix_tuples(dec):
        return '%s: %r reads back as %r' % (t.type_name, v, b)
    if cat in ('records', 'ints', 'renames', 'strings') and type(b) is not type(dec):
        return '%s: %r reads back as %r (%s)' % (t.type_name, v, b, type(b).__name__)
    if cat == 'ints':
        bits = 8 * fixed_size(tid)
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if model()[0][tid][2][2] else (0, (1 << bits) - 1)
        for bad in (lo - 1, hi + 1, lo - rng.randrange(1, 1 << 70), hi + rng.randrange(1, 1 << 70)):
            try:
                t.encode(bad)
            except struct.error:
                continue
            return '%s: %d accepted' % (t.type_name, bad)
    return None


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check, 1500, 100000)


def rep(tid):
    def replay(m, name):
        if isinstance(m.get('n'), int):
            # the length of the counterexample, then lengths beyond the usual limits
            for k in sorted(set(min(k, longest(tid)) for k in (m['n'], m['n'] + 1, 300, 2500, 5000, 9000, 33000, 70000))):
                r = guarded(check, dict(tid=tid, seed=k, n=k))
                if r:
                    return r
        for k in range(150):
            r = guarded(check, dict(tid=tid, seed=k))
            if r:
                return r
        return None
    return replay


FN = {'ints': ['types.TypeDefInt.encode', 'types.TypeDefInt.decode', 'types.TypeDefInt.pack_format', 'types.TypeDefInt.size', 'types.TypeDefInt.signed'],
      'enums': ['types.TypeDefEnum.encode', 'types.TypeDefEnum.decode', 'types.TypeDefEnum.elements', 'types.iter_utf16_array'],
      'extenums': ['types.TypeDefExtEnum.encode', 'types.TypeDefExtEnum.decode', 'types.TypeDefExtEnum.elements', 'types.iter_auid_array'],
      'renames': ['types.TypeDefRename.encode', 'types.TypeDefRename.decode'],
      'fixed_arrays': ['types.TypeDefFixedArray.encode', 'types.TypeDefFixedArray.decode', 'types.TypeDefFixedArray.byte_size'],
      'var_arrays': ['types.TypeDefVarArray.encode', 'types.TypeDefVarArray.decode', 'utils.encode_utf16_array'],
      'strings': ['types.TypeDefString.encode', 'types.TypeDefString.decode', 'utils.encode_utf16le', 'utils.decode_utf16le'],
      'records': ['types.TypeDefRecord.encode', 'types.TypeDefRecord.decode', 'types.TypeDefRecord.fields', 'types.TypeDefRecord.byte_size'],
      'sets': ['types.TypeDefSet.encode', 'types.TypeDefSet.decode'],
      'indirects': ['types.TypeDefIndirect.encode', 'types.TypeDefIndirect.decode', 'types.TypeDefIndirect.decode_typedef']}
UNITS = []
m, names = model()
for tid in sorted(m):
    cat, name, v = m[tid]
    if not usable(tid):
        continue
    fns = FN.get(cat, [])
    R = rep(tid)
    if cat == 'sets':
        for n in (0, 1, 2):
            UNITS.append(Unit('%s[%d]' % (name, n), set_body(tid, n), fns, R, covers=['entry']))
    elif cat in ('var_arrays', 'strings'):
        for n in ((0, 1, 2) if cat == 'var_arrays' else (0, 1, 3)):
            UNITS.append(Unit('%s[%d]' % (name, n), enc_dec(tid, n), fns, R, covers=['entry']))
    elif cat in ('indirects', 'opaques'):
        pass
    else:
        UNITS.append(Unit(name, enc_dec(tid), fns, R, covers=['entry']))
    if cat == 'ints':
        UNITS.append(Unit(name + '/range', int_range(tid), fns, R, covers=['entry']))
        UNITS.append(Unit(name + '/decode', int_decode(tid), fns, R, covers=['entry']))
    if cat in ('fixed_arrays', 'var_arrays') and v[1] != CHAR:
        UNITS.append(Unit(name + '/any length encode', any_encode(tid), fns, R, covers=['entry', 'done'] + (['refused'] if cat == 'fixed_arrays' else [])))
        UNITS.append(Unit(name + '/any length decode', any_decode(tid), fns, R, covers=['entry', 'done']))
    if cat == 'var_arrays' and v[1] == CHAR:
        UNITS.append(Unit(name + '/any number and length encode', texts_encode(tid), fns, R, covers=['entry', 'done']))
        UNITS.append(Unit(name + '/any number and length decode', texts_decode(tid), fns, R, covers=['entry', 'done', 'inside', 'text']))
    if cat == 'sets':
        UNITS.append(Unit(name + '/any number', any_set(tid), fns, R, covers=['entry', 'encoded', 'decoded']))
    if tid == STRING:
        UNITS.append(Unit(name + '/any length', any_text, fns, R, covers=['entry', 'done']))
    if cat == 'fixed_arrays':
        UNITS.append(Unit(name + '/too many', too_many(tid), fns, R, covers=['entry']))
        UNITS.append(Unit(name + '/short', short_fixed(tid, 3), fns, R, covers=['entry']))
for how in ('int', 'rational', 'text'):
    UNITS.append(Unit('aafIndirect/' + how, indirect(None, how), FN['indirects'], rep(IND), covers=['entry']))
for nm in ('aafUInt8', 'aafInt64', 'aafPositionType', 'VersionType', 'AUID', 'MobIDType', 'aafUInt8Array', 'TimeStamp'):
    UNITS.append(Unit('aafIndirect/' + nm, indirect(names[nm], 'typed'), FN['indirects'], rep(IND), covers=['entry']))


UNITS.append(Lemma('lemma: prefix sums exist and grow', 'digits.lean', ['prefix_sum']))
ALL = UNITS
PRELOAD = lambda P: symfile(P)
BOUNDED = [Bounded('all types', run, 'every usable built-in and extension type in turn, random and boundary values, arrays of 0 to 1000 elements',
                   sorted(set(f for v in FN.values() for f in v)), check, shards=4, budget=9)]
TRUSTED = ['datetime constructors (range checks) are a contract', 'model tables (names, ids, sizes, members) are the specification of the layout']
ASSUMPTIONS = ['arrays, sets and texts of any length: an element stands for any value under the contract (proved per element type) that it encodes to its number of bytes and decodes from them alone; sets are iterated over in an arbitrary order',
               'text proofs: BMP characters without NUL']
LEVEL = 'proof'
