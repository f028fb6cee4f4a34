"""P10: rational conversion"""
import math
from fractions import Fraction
from pydv.core import *
from pydv.core import ctx
from pydv.seq import prove_eq, mk, le_bytes, sym_bytes, sum_le
from pydv.runner import Unit, Bounded, plain
from specs.common import drive, guarded
from specs.symfile import typedef

I32 = (1 << 31) - 1


def two(v):
    """bytes of a signed 32 bit value"""
    return le_bytes(ite(v < 0, v + (1 << 32), v), 4)


def pair(P):
    n, d = fresh_int('n', note=True), fresh_int('d', note=True)
    ctx().cover('entry')
    try:
        r = P.rational.AAFRational(n, d)
    except ZeroDivisionError:
        prove(and_(d == 0, n != 0), 'ZeroDivisionError only for a zero denominator')
        return
    if d == 0:
        prove(n == 0, 'n/0 refused')
        prove(and_(r.numerator == 0, r.denominator == 1), '0/0 is 0/1')
    else:
        prove(and_(r.numerator == n, r.denominator == d), 'pair kept unreduced')


def whole(P):
    n = fresh_int('n', note=True)
    ctx().cover('entry')
    r = P.rational.AAFRational(n)
    prove(and_(r.numerator == n, r.denominator == 1), 'integer is n/1')


def again(P):
    n, d = fresh_int('n', note=True), fresh_int('d', 1, note=True)
    r = P.rational.AAFRational(n, d)
    ctx().cover('entry')
    q = P.rational.AAFRational(r)
    prove(and_(q.numerator == n, q.denominator == d), 'rational of a rational is the same pair')


def ratio(P):
    """a ratio of two rationals"""
    a, b, c, d = [fresh_int(x, 1 if x in 'bcd' else None) for x in 'abcd']
    A = P.rational.AAFRational
    x, y = A(a, b), A(c, d)
    ctx().cover('entry')
    r = A(x, y)
    prove(and_(r.numerator == a * d, r.denominator == c * b), 'quotient of rationals')


class Match(object):
    """what the pattern of fractions.Fraction finds in a text"""

    def __init__(self, **g): self.g = g
    def group(self, name): return self.g[name]


def text(P):
    """every text of the pattern with up to 3 + 3 digits (values of the digits arbitrary), any sign, denominator or decimals, and exponent"""
    from pydv.seq import mk

    def digits(n):
        d = [fresh_int('digit', 48, 57) for _ in range(n)]
        v = 0
        for x in d:
            v = v * 10 + (x - 48)
        return mk('str', items=d), v
    nn = ctx().choose(4)
    num, nv = digits(nn)
    form = ctx().choose(3)           # plain, fraction, decimals
    dec = denom = None
    dv, places, den = 0, 0, 1
    if form == 1:
        denom, den = digits(1 + ctx().choose(3))
    elif form == 2:
        places = 1 + ctx().choose(3)
        dec, dv = digits(places)
    if nn == 0 and form != 2:
        return
    ex = (None, 0, 1, 4, -1, -4)[ctx().choose(6)] if form != 1 else None
    sign = ('', '+', '-')[ctx().choose(3)]
    real = P.rational._RATIONAL_FORMAT

    class Pattern(object):
        def match(self, t):
            prove(t == 'the text', 'the text itself is matched')
            return Match(num=num if nn else '', denom=denom, decimal=dec, exp=None if ex is None else '%d' % ex, sign=sign)
    P.rational._RATIONAL_FORMAT = Pattern()
    ctx().cover('entry')
    try:
        r = P.rational.AAFRational('the text')
    except ZeroDivisionError:
        ctx().cover('refused')
        prove(and_(den == 0, nv != 0), 'refused only for a zero denominator')
        return
    finally:
        P.rational._RATIONAL_FORMAT = real
    top, bottom = nv * 10 ** places + dv, 10 ** places
    if form == 1:
        top, bottom = nv, den
    if ex is not None:
        top, bottom = (top * 10 ** ex, bottom) if ex >= 0 else (top, bottom * 10 ** -ex)
    if sign == '-':
        top = -top
    if form == 1 and bottom == 0:
        ctx().cover('zero')
        prove(and_(r.numerator == 0, r.denominator == 1), '0/0 reads as 0/1')
        return
    if ex is None:
        prove(and_(r.numerator == top, r.denominator == bottom), 'the pair as written')
    else:
        prove(and_(r.numerator * bottom == top * r.denominator, r.denominator >= 1), 'the number written')
    ctx().cover('text')


def stored(P):
    """stored as two little-endian 32 bit integers, read back the same"""
    n, d = fresh_int('n', -I32 - 1, I32, note=True), fresh_int('d', -I32 - 1, I32, note=True)
    assume(d != 0)
    t = typedef(P, 'Rational')
    r = P.rational.AAFRational(n, d)
    ctx().cover('entry')
    data = t.encode(r)
    prove_eq(data, two(n) + two(d), 'layout')
    x = t.decode(data)
    prove(and_(x.numerator == n, x.denominator == d), 'read back')


def refused(P):
    n, d = fresh_int('n', note=True), fresh_int('d', 1, note=True)
    assume(or_(n > I32, n < -I32 - 1, d > I32))
    t = typedef(P, 'Rational')
    r = P.rational.AAFRational(n, d)
    ctx().cover('entry')
    import struct
    try:
        t.encode(r)
    except struct.error:
        prove(True, 'refused')
        return
    prove(False, 'a pair beyond 32 bits is refused')


def decode_any(P):
    """any 8 stored bytes decode to their pair (0/0 as 0/1)"""
    s = sym_bytes('raw', 8)
    b = list(s.items)
    t = typedef(P, 'Rational')
    ctx().cover('entry')
    sg = lambda x: ite(x >= (1 << 31), x - (1 << 32), x)
    n, d = sg(sum_le(b[:4])), sg(sum_le(b[4:]))
    try:
        x = t.decode(s)
    except ZeroDivisionError:
        prove(and_(d == 0, n != 0), 'only n/0 refused')
        return
    if d == 0:
        prove(and_(n == 0, x.numerator == 0, x.denominator == 1), '0/0 reads as 0/1')
    else:
        prove(and_(x.numerator == n, x.denominator == d), 'pair')


# ---------------------------------------------------------------- concrete
def r32(rng):
    return rng.choice([0, 1, -1, 2, I32, -I32, -I32 - 1, rng.randrange(-I32, I32), rng.randrange(-1000, 1000), 24000, 1001])


def gen(rng, i):
    k = rng.choice(['pair', 'pair', 'int', 'text', 'text', 'float', 'float', 'float', 'dec', 'frac'])
    if k == 'float':
        x = rng.choice([0.0, 23.976, 29.97, 59.94, 1e-3, 1e9, 2147483647.0, 2147483648.0, 4294967296.5, 1e20, 1e300, 1e-300, 5e-324, 0.5, 0.1,
                        rng.uniform(0, 1), rng.uniform(0, 100), rng.uniform(0, 1e6), math.ldexp(rng.random(), rng.randrange(-80, 120)),
                        float(rng.randrange(1 << 31)), rng.randrange(1 << 20) / 1024.0, rng.randrange(1 << 31) / float(1 << rng.randrange(31))])
        return dict(k=k, x=(x * rng.choice([1, -1])).hex())
    n, d = r32(rng), abs(r32(rng)) or 1
    d = min(d, I32)
    if k == 'pair' and rng.random() < .1:
        d = rng.choice([0, -5, -I32])
    if k == 'text':
        form = rng.randrange(6)
        if form > 3:
            places, ex = rng.randrange(0, 4), rng.randrange(-4, 5)
            m = rng.randrange(-99999, 99999)
            s = '%s%d' % ('-' if m < 0 else rng.choice(['', '+']), abs(m) // 10 ** places)
            if places:
                s += '.%0*d' % (places, abs(m) % 10 ** places)
            e = Fraction(m, 10 ** places) * Fraction(10) ** ex
            return dict(k=k, t=s + rng.choice(['e', 'E']) + ('%d' % ex if ex < 0 else rng.choice(['', '+']) + str(ex)), val=[e.numerator, e.denominator])
        if form == 0:
            t = '%d/%d' % (n, d)
            return dict(k=k, t=t, n=n, d=d)
        if form == 1:
            return dict(k=k, t=' %d ' % n, n=n, d=1)
        places = rng.randrange(1, 6)
        m = rng.randrange(-(1 << 29), 1 << 29)
        s = '%s%d.%0*d' % ('-' if m < 0 else '+' if form == 2 else '', abs(m) // 10 ** places, places, abs(m) % 10 ** places)
        return dict(k=k, t=s, n=m, d=10 ** places)
    return dict(k=k, n=n, d=d)


_f = []


def prop():
    if not _f:
        aaf2 = plain()
        import aaf2 as a
        f = a.open()
        _f.append((f, f.metadict.lookup_typedef('Rational')))
    return _f[0][1]


def check(inp):
    plain()
    from aaf2.rational import AAFRational
    from decimal import Decimal
    t = prop()
    k = inp['k']
    if k == 'float':
        x = float.fromhex(inp['x'])
        r = AAFRational(x)
        ex = Fraction(x)
        n, d = r.numerator, r.denominator
        if not (0 < d <= I32 and abs(n) <= I32 + 1):
            return 'float %r becomes %s/%s: not a 32 bit pair' % (x, n, d)
        if n and (n < 0) != (x < 0):
            return 'float %r becomes %s/%s: sign' % (x, n, d)
        if abs(ex.numerator) <= I32 and ex.denominator <= I32:
            if Fraction(n, d) != ex:
                return 'float %r becomes %s/%s: not exact' % (x, n, d)
        elif abs(x) > I32:
            if abs(n) != I32 or d != 1:
                return 'float %r becomes %s/%s: not saturated' % (x, n, d)
        else:
            tol = 2 * max(1, ex * ex) / (1 << 31)
            if abs(Fraction(n, d) - ex) > tol:
                return 'float %r becomes %s/%s: off by %g' % (x, n, d, float(abs(Fraction(n, d) - ex)))
        want = (n, d)
        v = x
    else:
        if k == 'pair':
            n, d = inp['n'], inp['d']
            if d == 0:
                if n == 0:
                    r = AAFRational(0, 0)
                    return None if (r.numerator, r.denominator) == (0, 1) else '0/0 is %r' % r
                try:
                    AAFRational(n, d)
                except ZeroDivisionError:
                    return None
                return '%d/0 accepted' % n
            r = AAFRational(n, d)
            want, v = (n, d), r
        elif k == 'int':
            want, v = (inp['n'], 1), inp['n']
        elif k == 'text' and 'val' in inp:
            r = AAFRational(inp['t'])
            n, d = inp['val']
            if r.numerator * d != n * r.denominator or r.denominator < 1:
                return '%r becomes %d/%d' % (inp['t'], r.numerator, r.denominator)
            if abs(r.numerator) > I32 or r.denominator > I32:
                return None
            want, v = (r.numerator, r.denominator), inp['t']
        elif k == 'text':
            want, v = (inp['n'], inp['d']), inp['t']
        elif k == 'dec':
            e = Fraction(inp['n'], 1000)
            want, v = (e.numerator, e.denominator), Decimal(inp['n']) / 1000
        else:
            e = Fraction(inp['n'], inp['d'])
            want, v = (e.numerator, e.denominator), e
        r = AAFRational(v)
    if (r.numerator, r.denominator) != want:
        return '%r becomes %d/%d, expected %d/%d' % (v, r.numerator, r.denominator, want[0], want[1])
    data = t.encode(v)
    if data != want[0].to_bytes(4, 'little', signed=True) + want[1].to_bytes(4, 'little', signed=True):
        return '%r stored as %s' % (v, data.hex())
    b = t.decode(data)
    if (b.numerator, b.denominator) != want:
        return '%r read back as %d/%d' % (v, b.numerator, b.denominator)
    return None


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check, 4000, 200000)


def replay(m, name):
    if 'n' in m and abs(m['n']) <= I32 and abs(m.get('d', 1)) <= I32:
        for k in ('pair', 'int'):
            if k == 'int' or 'd' in m:
                r = guarded(check, dict(k=k, n=m['n'], d=m.get('d', 1)))
                if r:
                    return r
    if 'raw' in m:
        b = bytes(m['raw'])
        return guarded(check, dict(k='pair', n=int.from_bytes(b[:4], 'little', signed=True), d=int.from_bytes(b[4:], 'little', signed=True)))
    return None


R = 'rational.AAFRational.__new__'
T = ['types.TypeDefRecord.encode', 'types.TypeDefRecord.decode', 'types.TypeDefRecord.fields', 'types.TypeDefInt.encode', 'types.TypeDefInt.decode', R]
UNITS = [Unit('pair', pair, [R], replay, covers=['entry']), Unit('integer', whole, [R], replay, covers=['entry']),
         Unit('rational', again, [R], replay, covers=['entry']), Unit('ratio', ratio, [R], replay, covers=['entry']),
         Unit('text', text, [R], replay, covers=['entry', 'text', 'refused', 'zero']),
         Unit('stored', stored, T, replay, covers=['entry']), Unit('range', refused, T, replay, covers=['entry']),
         Unit('decode', decode_any, T, replay, covers=['entry'])]
BOUNDED = [Bounded('forms', run, 'integers, pairs, decimals, fractions, text forms and floats of every magnitude (random and boundary)',
                   [R] + T, check, shards=4, budget=8)]
TRUSTED = ['fractions.Fraction and its text pattern (standard library)', 'float conversion is checked only by the bounded part']
LEVEL = 'proof'
