"""symbolic text: hex digits, case mapping, utf-16le (BMP), % formatting"""
import z3
from .core import (SInt, SBool, Unsupported, ctx, and_, or_, ite, implies, bexpr, toint, mkint, fresh_int)
from .seq import Seq, mk, seqof, kindof, is_sym, check_byte


def nib_char(nib, upper=False):
    """character code of one hex digit"""
    if isinstance(nib, int):
        return ord(('%X' if upper else '%x') % nib)
    c = ite(nib < 10, nib + 48, nib + (55 if upper else 87))
    if isinstance(c, SInt) and len(c.t) == 1 and c.c == 0:
        (co, ex), = c.t.values()
        if co == 1 and z3.is_app_of(ex, z3.Z3_OP_ITE):
            i = ex.get_id()
            ctx().hexnib[i] = nib
            ctx().ranges[i] = (48, 70 if upper else 102)
            ctx().rkeep.append(ex)
    return c


def is_nib(c):
    """the nibble a hex digit character stands for, or None"""
    if isinstance(c, SInt) and len(c.t) == 1 and c.c == 0:
        (co, ex), = c.t.values()
        if co == 1:
            return ctx().hexnib.get(ex.get_id())
    return None


def hex_digits(v, width):
    """exactly width lower case hex digits; v must be < 16**width"""
    return [nib_char((v >> (4 * (width - 1 - k))) % 16) for k in range(width)]


def digit_value(c, base):
    """value of one digit character; raises ValueError when not a digit"""
    if isinstance(c, int):
        return int(chr(c), base)
    if base == 16 and is_nib(c) is not None:
        return is_nib(c)
    if and_(c >= 48, c <= 57 if base >= 10 else c < 48 + base):
        return c - 48
    if base == 16:
        if and_(c >= 97, c <= 102):
            return c - 87
        if and_(c >= 65, c <= 70):
            return c - 55
    raise ValueError('invalid literal for int()')


def parse_int(s, base=10):
    s = seqof(s)
    n = s.length()
    if not isinstance(n, int):
        raise Unsupported('int() of a lazy string')
    if n == 0:
        raise ValueError('invalid literal for int()')
    r = 0
    for k in range(n):
        r = r * base + digit_value(s.at(k), base)
    return r


def str_lower(s):
    out = []
    for c in s.items if s.items is not None else _lazy():
        if isinstance(c, int):
            l = chr(c).lower()
            out += [ord(x) for x in l]
        elif is_nib(c) is not None:
            out.append(nib_char(is_nib(c)))
        else:
            if not (c <= 127):
                raise Unsupported('lower() of a non-ASCII symbolic character')
            out.append(ite(and_(c >= 65, c <= 90), c + 32, c))
    return mk('str', items=out)


def _lazy():
    raise Unsupported('text operation on a lazy string')


def str_upper(s):
    out = []
    for c in s.items if s.items is not None else _lazy():
        if isinstance(c, int):
            out += [ord(x) for x in chr(c).upper()]
        elif is_nib(c) is not None:
            out.append(nib_char(is_nib(c), True))
        else:
            if not (c <= 127):
                raise Unsupported('upper() of a non-ASCII symbolic character')
            out.append(ite(and_(c >= 97, c <= 122), c - 32, c))
    return mk('str', items=out)


def str_replace(s, a, b):
    a, b = seqof(a), seqof(b)
    if s.items is None:
        _lazy()
    n = a.length()
    out, k = [], 0
    while k < len(s.items):
        win = s.items[k:k + n]
        if len(win) == n and bool(and_(*[x == y for x, y in zip(win, a.items)])):
            out += b.items
            k += n
        else:
            out.append(s.items[k])
            k += 1
    return mk('str', items=out)


def str_strip(s, chars, left, right):
    if s.items is None:
        _lazy()
    cs = [ord(c) for c in chars] if chars is not None else [32, 9, 10, 11, 12, 13, 0x1c, 0x1d, 0x1e, 0x1f, 0x85, 0xa0]
    it = list(s.items)
    isin = lambda c: bool(or_(*[c == x for x in cs]))
    while left and it and isin(it[0]):
        it.pop(0)
    while right and it and isin(it[-1]):
        it.pop()
    return mk('str', items=it)


class LazyParts(object):
    """split() of a text of symbolic length: only the part before the first separator"""

    def __init__(self, s, ch):
        s, n = s.snapshot(), s.length()
        m = fresh_int('first part', 0)
        self.first = s[:m]
        c = ctx()
        c.assume_expr(bexpr(and_(m <= n, or_(m == n, s.at(m) == ch))))
        for h in list(c.memo.get('split', ())) + [c.memo.get('split arbitrary', 0)]:
            # instances of: no separator before m
            c.assume_expr(bexpr(implies(and_(h >= 0, h < m), s.at(h) != ch)))

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            return self.first
        raise Unsupported('later parts of a text of symbolic length')

    def __getattr__(self, n):
        raise Unsupported('parts of a text of symbolic length')


def str_split(s, sep, maxsplit):
    if s.items is None:
        sep = seqof(sep)
        if sep is None or sep.length() != 1 or maxsplit == 0:
            raise Unsupported('split')
        return LazyParts(s, sep.at(0))
    sep = seqof(sep)
    if sep is None or sep.length() != 1:
        raise Unsupported('split')
    ch = sep.at(0)
    out, cur = [], []
    for c in s.items:
        if bool(c == ch) and (maxsplit < 0 or len(out) < maxsplit):
            out.append(mk('str', items=cur))
            cur = []
        else:
            cur.append(c)
    out.append(mk('str', items=cur))
    return out


def str_encode(s, enc, errors):
    e = enc.lower().replace('_', '-')
    if s.items is None and e in ('utf-16le', 'utf-16-le'):
        s = s.snapshot()
        k = fresh_int('char', 0)
        c = s.at(k)
        if not ctx().implied(implies(k < s.length(), and_(c <= 0xFFFF, or_(c < 0xD800, c > 0xDFFF)))):
            raise Unsupported('characters outside the basic plane in a text of symbolic length')
        return mk('bytes', n=2 * s.length(), f=lambda p: ite(p % 2 == 0, s.at(p // 2) % 256, s.at(p // 2) // 256))
    if s.items is None:
        _lazy()
    out = []
    if e in ('utf-16le', 'utf-16-le'):
        for c in s.items:
            if isinstance(c, int):
                out += list(chr(c).encode('utf-16le'))
            else:
                if not (c <= 0xFFFF):
                    raise Unsupported('non-BMP symbolic character')
                if and_(c >= 0xD800, c <= 0xDFFF):
                    raise UnicodeEncodeError('utf-16le', 'x', 0, 1, 'surrogates not allowed')
                out += [c % 256, c // 256]
        return mk('bytes', items=out)
    if e in ('ascii', 'utf-8', 'utf8'):
        for c in s.items:
            if isinstance(c, int):
                out += list(chr(c).encode('utf-8'))
            else:
                if not (c <= 127):
                    raise Unsupported('non-ASCII symbolic character to utf-8')
                out.append(c)
        return mk('bytes', items=out)
    raise Unsupported('codec ' + enc)


def bytes_decode(b, enc, errors):
    e = enc.lower().replace('_', '-')
    if b.items is None and e in ('utf-16le', 'utf-16-le'):
        b = b.snapshot()
        n = b.length()
        k = fresh_int('unit', 0)
        u = b.at(2 * k) + 256 * b.at(2 * k + 1)
        if not ctx().implied(and_(n % 2 == 0, implies(2 * k + 1 < n, or_(u < 0xD800, u > 0xDFFF)))):
            raise Unsupported('surrogates or an odd length in data of symbolic length')
        return mk('str', n=n // 2, f=lambda k: b.at(2 * k) + 256 * b.at(2 * k + 1))
    if b.items is None:
        _lazy()
    it = b.items
    if e in ('utf-16le', 'utf-16-le'):
        out, k = [], 0
        while k + 1 < len(it):
            u = it[k] + it[k + 1] * 256
            if isinstance(u, int):
                if 0xD800 <= u <= 0xDFFF:
                    raise Unsupported('surrogates in symbolic decode')
            elif and_(u >= 0xD800, u <= 0xDFFF):
                raise Unsupported('surrogates in symbolic decode')
            out.append(u)
            k += 2
        if k != len(it):
            raise Unsupported('odd utf-16 data')
        return mk('str', items=out)
    if e in ('ascii', 'utf-8', 'utf8'):
        for c in it:
            if not (c <= 127):
                raise Unsupported('non-ASCII symbolic decode')
        return mk('str', items=list(it))
    raise Unsupported('codec ' + enc)


class Opaque(str):
    """text whose value is unknown; only used in messages"""


class RepFmt(Opaque):
    """a struct format repeated a symbolic number of times"""

    def __new__(cls, unit, count, order=''):
        self = Opaque.__new__(cls, '<%s repeated>' % unit)
        self.unit, self.count, self.order = unit, count, order
        return self

    def __radd__(self, o):
        return RepFmt(self.unit, self.count, o + self.order) if o in ('<', '>', '') else Opaque('<sym text>')

    def __add__(self, o): return Opaque('<sym text>')
    def lower(self): return RepFmt(self.unit.lower(), self.count, self.order)
    def upper(self): return RepFmt(self.unit.upper(), self.count, self.order)
    def __str__(self): return self


def fmt_percent(f, args):
    """symbolic '%' formatting for fixed-width conversions"""
    import re
    if not isinstance(args, (tuple,)):
        args = (args,)
    if not any(is_sym(a) or isinstance(a, Seq) for a in args):
        return f % tuple(args)
    m = re.match(r'^([<>]?)%d([bBhHiIqQ])$', f)
    if m and len(args) == 1 and isinstance(args[0], SInt):
        return RepFmt(m.group(2), args[0], m.group(1))
    if re.match(r'^[<>]?%ds$', f) and isinstance(args[0], SInt):
        # a struct field whose size this path has fixed
        for c in (16, 32):
            if ctx().implied(args[0] == c):
                return f % c
    out, ai, k, pieces = [], 0, 0, []
    for m in re.finditer(r'%(0?)(\d*)([%a-zA-Z])', f):
        out += [ord(c) for c in f[k:m.start()]]
        k = m.end()
        z, w, conv = m.groups()
        if conv == '%':
            out.append(37)
            continue
        v = args[ai]
        ai += 1
        if not is_sym(v) and not isinstance(v, Seq):
            out += [ord(c) for c in (m.group(0) % (v,))]
            continue
        if conv == 's' and isinstance(v, Seq) and v.kind == 'str':
            if v.items is None:
                pieces.append(mk('str', items=out))
                pieces.append(v)
                out = []
                continue
            out += v.items
            continue
        if conv == 'x' and isinstance(v, SInt):
            lo, hi = v.bounds()
            if z and w and lo is not None and lo >= 0 and hi is not None and hi < 16 ** int(w):
                out += hex_digits(v, int(w))
                continue
            if not w and not z:
                # variable width: fork on the number of digits
                if v < 0:
                    return Opaque('<sym text>')
                d = 1
                while d <= 16:
                    if v < 16 ** d:
                        out += hex_digits(v, d)
                        break
                    d += 1
                else:
                    raise Unsupported('hex of an unbounded int')
                continue
        if conv in 'dxsr' and not z:
            return Opaque('<sym text>')
        return Opaque('<sym text>')
    out += [ord(c) for c in f[k:]]
    if pieces:
        # text of symbolic length
        r = pieces[0]
        for x in pieces[1:] + [mk('str', items=out)]:
            r = seqof(r).concat(seqof(x))
        return r
    return mk('str', items=out)
