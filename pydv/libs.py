"""builtins and stdlib modules as the transformed code sees them.

With concrete arguments everything behaves as in CPython (the real builtin is
called); with symbolic arguments the symbolic semantics is used.  The
semantics given here to struct, array, uuid.UUID, memoryview, BytesIO are
trusted contracts on CPython / the standard library.
"""
import builtins
import io as _io
import struct as _struct
import types
import uuid as _uuid
import array as _array

import z3
from .core import *
from .core import ctx, toint
from .seq import *
from .seq import (mk, seqof, kindof, is_sym, check_byte, sum_le, le_bytes, to_concrete,
                  val_eq, smin, smax)
from .text import parse_int, fmt_percent, Opaque, RepFmt, hex_digits

real = builtins


def symbolic(x):
    return isinstance(x, (SInt, SBool, Seq, MView, SymFile, PvUUID))


def deep_sym(x, d=3):
    if symbolic(x):
        return True
    if d and isinstance(x, (list, tuple)):
        return any(deep_sym(y, d - 1) for y in x)
    return False


# ---------------------------------------------------------------- hash/dict
def pv_hash(x):
    return hash(x)


class PvDict(dict):
    """dict that also accepts symbolic keys (linear scan with equality forks)"""

    def _sym(self):
        try:
            return self._symitems
        except AttributeError:
            self._symitems = []
            return self._symitems

    def _scan(self, key):
        """-> ('real', k) | ('sym', i) | None"""
        for i, (k, v) in enumerate(self._sym()):
            if val_eq(k, key):
                return ('sym', i)
        for k in list(dict.keys(self)):
            e = val_eq(k, key) if not isinstance(k, tuple) else (k == key)
            if e:
                return ('real', k)
        return None

    def _loc(self, key):
        try:
            h = hash(key)
        except SymHash:
            return self._scan(key)
        if dict.__contains__(self, key):
            return ('real', key)
        for i, (k, v) in enumerate(self._sym()):
            if val_eq(k, key):
                return ('sym', i)
        return None

    def __contains__(self, key):
        return self._loc(key) is not None

    def get(self, key, default=None):
        l = self._loc(key)
        if l is None:
            return default
        return dict.__getitem__(self, l[1]) if l[0] == 'real' else self._sym()[l[1]][1]

    def __getitem__(self, key):
        l = self._loc(key)
        if l is None:
            raise KeyError(key)
        return dict.__getitem__(self, l[1]) if l[0] == 'real' else self._sym()[l[1]][1]

    def __setitem__(self, key, value):
        l = self._loc(key)
        if l is None:
            try:
                hash(key)
            except SymHash:
                self._sym().append((key, value))
                return
            dict.__setitem__(self, key, value)
        elif l[0] == 'real':
            dict.__setitem__(self, l[1], value)
        else:
            self._sym()[l[1]] = (self._sym()[l[1]][0], value)

    def __delitem__(self, key):
        l = self._loc(key)
        if l is None:
            raise KeyError(key)
        if l[0] == 'real':
            dict.__delitem__(self, l[1])
        else:
            del self._sym()[l[1]]

    _missing = object()

    def pop(self, key, default=_missing):
        l = self._loc(key)
        if l is None:
            if default is PvDict._missing:
                raise KeyError(key)
            return default
        v = self[key]
        if l[0] == 'real':
            dict.__delitem__(self, l[1])
        else:
            del self._sym()[l[1]]
        return v

    def setdefault(self, key, default=None):
        if key in self:
            return self[key]
        self[key] = default
        return default

    def __len__(self):
        return dict.__len__(self) + len(self._sym())

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        for k in dict.__iter__(self):
            yield k
        for k, v in self._sym():
            yield k

    def keys(self):
        return list(iter(self)) if self._sym() else dict.keys(self)

    def values(self):
        return [self[k] for k in self] if self._sym() else dict.values(self)

    def items(self):
        if not self._sym():
            return dict.items(self)
        return list(dict.items(self)) + list(self._sym())

    def copy(self):
        d = PvDict(dict.items(self))
        d._symitems = list(self._sym())
        return d

    def __eq__(self, o):
        if not self._sym() and not (isinstance(o, PvDict) and o._sym()):
            if len(self) != len(o):
                return False
            for k, v in dict.items(self):
                if k not in o:
                    return False
                if not val_eq(v, o[k]):
                    return False
            return True
        raise Unsupported('comparison of dicts with symbolic keys')

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


class PvSet(set):
    def _sym(self):
        try:
            return self._symitems
        except AttributeError:
            self._symitems = []
            return self._symitems

    def __contains__(self, x):
        try:
            hash(x)
            if set.__contains__(self, x):
                return True
        except SymHash:
            for k in list(set.__iter__(self)):
                if val_eq(k, x):
                    return True
        for k in self._sym():
            if val_eq(k, x):
                return True
        return False

    def add(self, x):
        if x in self:
            return
        try:
            hash(x)
            set.add(self, x)
        except SymHash:
            self._sym().append(x)

    def __len__(self):
        return set.__len__(self) + len(self._sym())

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        for k in set.__iter__(self):
            yield k
        for k in self._sym():
            yield k


def make_set(items=()):
    s = PvSet()
    for x in items:
        s.add(x)
    return s


def make_dict(pairs):
    d = PvDict()
    for k, v in pairs:
        d[k] = v
    return d


# ------------------------------------------------------------- type handles
class Handle(type):
    """metaclass of the replacement type objects"""

    def __instancecheck__(cls, o):
        if cls not in HANDLES:
            return type.__instancecheck__(cls, o)
        r, kinds, extra = HANDLES[cls]
        if isinstance(o, r):
            return True
        if kinds and isinstance(o, (Seq, MView)) and o.kind in kinds:
            return True
        return bool(extra) and isinstance(o, extra)

    def __subclasscheck__(cls, o):
        if cls in HANDLES:
            if o in HANDLES:
                return issubclass(HANDLES[o][0], HANDLES[cls][0])
            return issubclass(o, HANDLES[cls][0])
        return type.__subclasscheck__(cls, o)

    def __getattr__(cls, name):
        return getattr(HANDLES[cls][0], name)

    def __eq__(cls, o):
        if cls in HANDLES and o in (HANDLES[cls][0],):
            return True
        return cls is o

    def __hash__(cls):
        return type.__hash__(cls)


HANDLES = {}


def handle(r, kinds=(), extra=()):
    def deco(fn):
        ns = {'__new__': staticmethod(lambda cls, *a, **k: fn(*a, **k)), '__slots__': ()}
        h = Handle(r.__name__, (), ns)
        HANDLES[h] = (r, kinds, extra)
        return h
    return deco


@handle(int, extra=(SInt, SBool))
def h_int(*a, **k):
    if a and (isinstance(a[0], Seq) and a[0].kind in ('str', 'bytes')):
        base = a[1] if len(a) > 1 else k.get('base', 10)
        c = to_concrete(a[0])
        if c is not None:
            return int(c, base)
        return parse_int(a[0], base)
    if a and isinstance(a[0], SInt):
        return a[0]
    if a and isinstance(a[0], SBool):
        return a[0].as_int()
    if a and hasattr(a[0], 'pv_int'):
        return a[0].pv_int()
    return int(*a, **k)


@handle(bool, extra=(SBool,))
def h_bool(*a):
    if a and isinstance(a[0], SBool):
        return a[0]
    if a and isinstance(a[0], SInt):
        return a[0] != 0
    return bool(*a)


@handle(str, kinds=('str',))
def h_str(*a, **k):
    if a:
        x = a[0]
        if isinstance(x, Seq) and x.kind == 'str' or isinstance(x, RepFmt):
            return x
        if isinstance(x, Seq) and x.kind in ('bytes', 'bytearray') and len(a) > 1:
            return x.decode(a[1])
        if is_sym(x):
            return Opaque('<sym>')
        t = type(x)
        if not isinstance(x, (str, bytes, int, float, type(None), BaseException)):
            m = getattr(t, '__str__', None)
            if m is not None and m is not object.__str__:
                r = m(x)
                return r
            m = getattr(t, '__repr__', None)
            if m is not None and m is not object.__repr__:
                return m(x)
    return str(*a, **k)


@handle(bytes, kinds=('bytes',))
def h_bytes(*a, **k):
    return _mkbytes('bytes', *a, **k)


@handle(bytearray, kinds=('bytearray',))
def h_bytearray(*a, **k):
    return _mkbytes('bytearray', *a, **k)


def _mkbytes(kind, *a, **k):
    if not a:
        return mk(kind, items=[])
    x = a[0]
    if isinstance(x, str) or (isinstance(x, Seq) and x.kind == 'str'):
        enc = a[1] if len(a) > 1 else k.get('encoding')
        if enc is None:
            raise TypeError('string argument without an encoding')
        return mk(kind, items=list(x.encode(enc)))
    if isinstance(x, (SInt, SBool)):
        n = toint(x)
        if n < 0:
            raise ValueError('negative count')
        return mk(kind, n=n, f=lambda i: 0)
    if isinstance(x, int):
        if x < 0:
            raise ValueError('negative count')
        if kind == 'bytearray':
            return mk(kind, items=[0] * x)
        return bytes(x)
    if hasattr(x, 'bytes_protocol'):
        x = x.bytes_protocol()
    s = seqof(x)
    if s is None:
        s = seqof(list(x))
    if s.kind in ('list', 'tuple') and s.items is not None:
        for b in s.items:
            check_byte(b)
    if s.kind == 'list' and s.items is None:
        raise Unsupported('bytes of a lazy list')
    return mk(kind, s.items, s.n, s.f)


def _fromhex(kind):
    def fromhex(s):
        if not isinstance(s, Seq):
            return _mkbytes(kind, (bytearray if kind == 'bytearray' else bytes).fromhex(s))
        from .text import digit_value
        if s.items is None:
            raise Unsupported('fromhex of a lazy string')
        it = [c for c in s.items if not (isinstance(c, int) and chr(c).isspace())]
        if len(it) % 2:
            raise ValueError('non-hexadecimal number found in fromhex() arg')
        return mk(kind, items=[digit_value(it[k], 16) * 16 + digit_value(it[k + 1], 16)
                               for k in range(0, len(it), 2)])
    return staticmethod(fromhex)


type.__setattr__(h_bytearray, 'fromhex', _fromhex('bytearray'))
type.__setattr__(h_bytes, 'fromhex', _fromhex('bytes'))


def _from_bytes(b, byteorder='big', signed=False):
    if not isinstance(b, (Seq, MView)):
        return int.from_bytes(b, byteorder, signed=signed)
    s = seqof(b)
    if s.items is None:
        raise Unsupported('int.from_bytes of lazy bytes')
    v = sum_le(s.items if byteorder == 'little' else s.items[::-1])
    return from_signed(v, 1 << (8 * len(s.items) - 1)) if signed else v


type.__setattr__(h_int, 'from_bytes', staticmethod(_from_bytes))


@handle(list, kinds=('list',))
def h_list(*a):
    if not a:
        return []
    s = a[0]
    if isinstance(s, (Seq, MView)) and not isinstance(seqof(s).length(), int):
        q = seqof(s)
        return mk('list', q.items, q.n, q.f)
    if isinstance(s, Seq) and s.kind == 'str':
        return [s[i] for i in range(len(s))]
    z = lazy_iter(s)
    if z is not None:
        return mk('list', n=z.length(), f=lambda k: z.elem_out(z.at(k)))
    return list(s)


@handle(tuple, kinds=('tuple',))
def h_tuple(*a):
    if a and isinstance(a[0], Seq) and a[0].items is None:
        return mk('tuple', a[0].items, a[0].n, a[0].f)
    return tuple(*a)


@handle(dict)
def h_dict(*a, **k):
    d = PvDict()
    if a:
        src = a[0]
        if isinstance(src, dict):
            for key, v in src.items():
                d[key] = v
        else:
            for key, v in src:
                d[key] = v
    for key, v in k.items():
        d[key] = v
    return d


@handle(set)
def h_set(*a):
    if len(a) == 1 and hasattr(a[0], 'pv_set'):
        return a[0].pv_set()
    return make_set(*a)


@handle(frozenset)
def h_frozenset(*a):
    return frozenset(*a)


@handle(memoryview, kinds=('memoryview',))
def h_memoryview(x):
    if isinstance(x, MView):
        return MView(x.base, x.off, x.n)
    if isinstance(x, Seq):
        return MView(x)
    return MView(mk('bytearray', items=list(x)))


@handle(float)
def h_float(*a):
    if a and isinstance(a[0], SInt) and ctx().implied(and_(a[0] >= -(1 << 53), a[0] <= 1 << 53)):
        return ExactFloat(a[0])       # exact: every such integer is a float
    if a and isinstance(a[0], (SInt, SBool)):
        raise Unsupported('float of a symbolic int')
    if a and hasattr(a[0], 'pv_float'):
        return a[0].pv_float()
    return float(*a)


class ExactFloat(object):
    """a float whose value is an integer of up to 53 bits"""
    __slots__ = ('i',)

    def __init__(self, i): self.i = i
    def pv_float(self): return self
    def pv_int(self): return self.i


class PvRange(object):
    def __init__(self, *a):
        self.start, self.step = 0, 1
        if len(a) == 1:
            self.stop = a[0]
        else:
            self.start, self.stop = a[0], a[1]
            if len(a) > 2:
                self.step = a[2]

    def count(self):
        if not isinstance(self.step, int):
            raise Unsupported('symbolic range step')
        d = self.stop - self.start
        if self.step == 1:
            return smax(0, d)
        if self.step > 0:
            return smax(0, (d + self.step - 1) // self.step)
        return smax(0, (-d - self.step - 1) // (-self.step))

    def seq(self):
        return Seq('list', n=self.count(), f=lambda k: self.start + k * self.step)

    def __len__(self):
        return len(self.seq())

    def __iter__(self):
        n = self.count()
        if isinstance(n, SInt):
            lo, hi = n.bounds()
            # concrete count hidden behind a symbolic base
            raise Unsupported('iteration over a symbolic range')
        for k in range(n):
            yield self.start + k * self.step

    def __contains__(self, x):
        return bool(and_(x >= self.start, x < self.stop))


@handle(range, extra=(PvRange,))
def h_range(*a):
    if any(isinstance(x, (SInt, SBool)) for x in a):
        return PvRange(*[toint(x) for x in a])
    return range(*a)


@handle(enumerate)
def h_enumerate(x, start=0):
    return PvEnumerate(x, start)


class PvEnumerate(object):
    def __init__(self, x, start=0):
        self.x, self.start = x, start

    def lazy(self):
        l = lazy_iter(self.x)
        if l is None:
            return None
        return Seq('list', n=l.length(), f=lambda k: (self.start + k, l.elem_out(l.at(k))))

    def __iter__(self):
        k = self.start
        for v in self.x:
            yield (k, v)
            k += 1


@handle(reversed)
def h_reversed(x):
    s = seqof(x) if isinstance(x, (Seq, MView)) else None
    if s is not None and not isinstance(s.length(), int):
        src = s.snapshot()
        n = src.length()
        return Seq('list', n=n, f=lambda k: src.at(n - 1 - k))
    if isinstance(x, Seq):
        return iter([x[i] for i in range(len(x) - 1, -1, -1)])
    return reversed(x)


@handle(zip)
def h_zip(*a):
    return zip(*[iter(x) if isinstance(x, PvDict) else x for x in a])


def lazy_iter(x):
    """LAZY sequence behind an iterable, or None when it can be unrolled"""
    if isinstance(x, (Seq, MView)):
        s = seqof(x)
        return s if not isinstance(s.length(), int) else None
    if isinstance(x, PvRange):
        s = x.seq()
        return s if not isinstance(s.length(), int) else None
    if isinstance(x, PvEnumerate):
        return x.lazy()
    if hasattr(x, 'pv_lazy'):
        return x.pv_lazy()
    return None


def pv_listcomp(fn, it):
    z = lazy_iter(it)
    if z is None:
        return [fn(x) for x in it]
    z = z.snapshot() if isinstance(z, Seq) else z
    r = mk('list', n=z.length(), f=lambda k: fn(z.elem_out(z.at(k))))
    r.ghosts = list(getattr(z, 'ghosts', ()))
    return r


# ----------------------------------------------------------------- functions
def pv_len(x):
    if isinstance(x, (Seq, MView)):
        return x.length()
    if isinstance(x, PvRange):
        return x.count()
    if hasattr(x, 'pv_len'):
        return x.pv_len()
    if not isinstance(x, (list, tuple, dict, set, str, bytes, bytearray, range)):
        m = getattr(type(x), '__len__', None)
        if m is not None:
            return m(x)
    return len(x)


def _mm(name, rf, pick):
    def f(*a, **k):
        if len(a) == 1:
            a = tuple(a[0])
            if not a and 'default' in k:
                return k['default']
        if any(isinstance(x, (SInt, SBool)) for x in a) and not k.get('key'):
            r = a[0]
            for x in a[1:]:
                r = pick(r, x)
            return r
        return rf(*(a if len(a) > 1 else (a,)), **k)
    return f


pv_min = _mm('min', min, smin)
pv_max = _mm('max', max, smax)


def pv_abs(x):
    return x.__abs__() if isinstance(x, SInt) else abs(x)


def pv_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def pv_divmod(a, b):
    if isinstance(a, SInt) or isinstance(b, SInt):
        return a // b, a % b
    return divmod(a, b)


def pv_ord(c):
    if isinstance(c, Seq):
        if len(c) != 1:
            raise TypeError('ord() expected a character')
        return c.at(0)
    return ord(c)


def pv_chr(i):
    if isinstance(i, SInt):
        return mk('str', items=[i])
    return chr(i)


def pv_hex(x):
    if isinstance(x, SInt):
        raise Unsupported('hex()')
    return hex(x)


def pv_pow(a, b, *c):
    if isinstance(a, int) and isinstance(b, SInt):
        lo, hi = b.bounds()
        if lo is not None and hi is not None and 0 <= lo and hi - lo <= 300:
            for k in range(lo, hi):
                if b == k:
                    return a ** k
            return a ** hi
    return pow(a, b, *c)


def pv_repr(x):
    return Opaque('<sym>') if symbolic(x) else repr(x)


def pv_sorted(x, key=None, reverse=False):
    z = lazy_iter(x)
    if z is not None and key is None and not reverse:
        r = mk('list', n=z.length(), f=z.at)
        r.ghosts = list(getattr(z, 'ghosts', ()))
        r.sort()
        return r
    l = list(x)
    if key is None and len(l) > 1 and deep_sym(l):
        out = []
        for v in l:                     # insertion sort with forking comparisons
            k = len(out)
            while k > 0 and v < out[k - 1]:
                k -= 1
            out.insert(k, v)
        return out[::-1] if reverse else out
    return sorted(l, key=key, reverse=reverse)


def pv_mod(a, b):
    if isinstance(a, (str, bytes)) and (deep_sym(b)):
        if isinstance(a, bytes):
            raise Unsupported('bytes formatting')
        return fmt_percent(a, b)
    if isinstance(a, Seq) and a.kind == 'str':
        raise Unsupported('symbolic format string')
    return a % b


def pv_in(x, c):
    if isinstance(c, (PvDict, PvSet)):
        return x in c
    if isinstance(c, (Seq, MView)):
        return seqof(c).contains(x)
    if isinstance(c, (dict, set, frozenset)) and symbolic(x):
        return or_(*[val_eq(k, x) for k in c])
    if isinstance(c, dict) or isinstance(c, (set, frozenset)):
        try:
            return x in c
        except SymHash:
            return or_(*[val_eq(k, x) for k in c])
    if isinstance(c, (list, tuple)):
        if symbolic(x) or deep_sym(c):
            return or_(*[bexpr_eq(k, x) for k in c])
        return x in c
    if isinstance(c, (str, bytes)) and isinstance(x, Seq):
        if isinstance(c, str) and x.kind == 'str' and isinstance(x.length(), int) and x.length() == 1:
            return or_(*[val_eq(ord(k), x.at(0)) for k in c])
        raise Unsupported('substring search')
    if hasattr(c, 'pv_contains'):
        return c.pv_contains(x)
    return x in c


def bexpr_eq(k, x):
    if k is x:
        return True
    return val_eq(k, x)


def pv_join(sep, parts):
    parts = list(parts)
    if not any(isinstance(p, (Seq, MView)) for p in parts):
        return sep.join(parts)
    r = None
    for p in parts:
        r = p if r is None else r + sep + p
    return r


# ---------------------------------------------------------------------- struct
SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8,
         '?': 1, 'x': 1, 's': 1, 'c': 1}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if isinstance(fmt, Seq):
        raise Unsupported('symbolic struct format')
    order = '@'
    if fmt and fmt[0] in '<>=!@':
        order, fmt = fmt[0], fmt[1:]
    out, num = [], ''
    for ch in fmt:
        if ch.isdigit():
            num += ch
        elif ch.isspace():
            continue
        else:
            n = int(num) if num else 1
            out.append((ch, n, bool(num)))
            num = ''
    if order == '@':
        big = False
        if any(c in 'hHiIlLqQ' for c, n, h in out) and len(out) > 1:
            return None
        if any(c in 'lL' for c, n, h in out):
            return None
    return ('>' if order in '>!' else '<', out)


def s_pack(fmt, *args):
    if not deep_sym(args):
        return _struct.pack(fmt, *args)
    p = parse_fmt(fmt)
    if p is None:
        raise Unsupported('native struct layout')
    order, items = p
    out, args = [], list(args)
    for ch, n, has in items:
        if ch == 'x':
            out += [0] * n
            continue
        if ch == 's':
            v = seqof(args.pop(0))
            L = v.length()
            if not isinstance(L, int):
                raise Unsupported('lazy bytes in struct.pack')
            b = [v.at(k) for k in range(min(L, n))]
            out += b + [0] * (n - len(b))
            continue
        for _ in range(n):
            if not args:
                raise _struct.error('pack expected more items')
            v = args.pop(0)
            if ch == '?':
                out.append(ite(v, 1, 0) if isinstance(v, SBool) else (1 if v else 0))
                continue
            v = toint(v)
            if v is NotImplemented:
                raise _struct.error('required argument is not an integer')
            sz = SIZES[ch]
            lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if ch in 'bhilq' else (0, (1 << (8 * sz)) - 1)
            if not (v >= lo) or not (v <= hi):
                raise _struct.error('argument out of range')
            if ch in 'bhilq' and not isinstance(v, int):
                l2, h2 = v.bounds()
                if sz == 8 and (l2 is None or l2 < 0):
                    if v < 0:
                        v = v + (1 << 64)
                elif l2 is None or l2 < 0:
                    v = ite(v < 0, v + (1 << (8 * sz)), v)
                    if isinstance(v, SInt) and len(v.t) == 1:
                        (co, ex), = v.t.values()
                        if co == 1 and v.c == 0:
                            SInt.atom(ex, 0, (1 << (8 * sz)) - 1)
            elif isinstance(v, int) and v < 0:
                v += 1 << (8 * sz)
            b = le_bytes(v, sz)
            out += b if order == '<' else b[::-1]
    if args:
        raise _struct.error('pack expected fewer items')
    return mk('bytes', items=out)


def pv_star(f, first, rest):
    """f(*first, *rest); packing a sequence of symbolic length needs no argument list"""
    if isinstance(rest, Seq) and not isinstance(rest.length(), int):
        if f is s_pack and len(first) == 1 and isinstance(first[0], RepFmt):
            return pack_rep(first[0], rest)
        raise Unsupported('argument list of symbolic length')
    return f(*first, *rest)


def pack_rep(fmt, s):
    order = fmt.order or ('<' if fmt.unit in 'bB' else '')
    if not order or len(fmt.unit) != 1 or fmt.unit not in 'bBhHiIqQ':
        raise Unsupported('struct format repeated a symbolic number of times: %s%s' % (fmt.order, fmt.unit))
    s = s.snapshot()
    n = s.length()
    if not (fmt.count == n):
        raise _struct.error('pack expected another number of items')
    sz, sg = SIZES[fmt.unit], fmt.unit in 'bhilq'
    lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if sg else (0, (1 << (8 * sz)) - 1)
    k = fresh_int('packed', 0)
    v = s.at(k)
    if not isinstance(v, (int, SInt)) or not ctx().implied(implies(k < n, and_(v >= lo, v <= hi))):
        raise Unsupported('items to be packed may be out of range')

    def f(p):
        q, r = p // sz, p % sz
        v = s.at(q)
        if sg:
            v = ite(v < 0, v + (1 << (8 * sz)), v)
        b = [(v >> (8 * j)) % 256 for j in range(sz)]
        if order == '>':
            b = b[::-1]
        x = b[-1]
        for j in range(sz - 2, -1, -1):
            x = ite(r == j, b[j], x)
        return x
    return mk('bytes', n=n * sz, f=f)


def calcsize(fmt):
    return _struct.calcsize(fmt)


def s_unpack(fmt, data):
    if isinstance(data, MView):
        data = data.tobytes()
    if isinstance(fmt, RepFmt):
        return unpack_rep(fmt, data)
    if not isinstance(data, Seq):
        return _struct.unpack(fmt, data)
    c = to_concrete(data)
    if c is not None:
        return _struct.unpack(fmt, bytes(c))
    size = _struct.calcsize(fmt if not isinstance(fmt, Seq) else '')
    if not (data.length() == size):
        raise _struct.error('unpack requires a buffer of %d bytes' % size)
    if data.items is None:
        data = mk('bytes', items=[data.at(k) for k in range(size)])
        if not isinstance(data, Seq):
            return _struct.unpack(fmt, data)
    p = parse_fmt(fmt)
    if p is None:
        raise Unsupported('native struct layout')
    order, items = p
    out, pos = [], 0
    for ch, n, has in items:
        if ch == 'x':
            pos += n
            continue
        if ch == 's':
            out.append(mk('bytes', items=data.items[pos:pos + n]))
            pos += n
            continue
        for _ in range(n):
            sz = SIZES[ch]
            b = data.items[pos:pos + sz]
            pos += sz
            if order == '>':
                b = b[::-1]
            if ch == 'c':
                out.append(mk('bytes', items=b))
                continue
            v = sum_le(b)
            if ch == '?':
                v = v != 0
            elif ch in 'bhilq':
                h = 1 << (8 * sz - 1)
                v = from_signed(v, h)
            out.append(v)
    return tuple(out)


def unpack_rep(fmt, data):
    """unit repeated a symbolic number of times: a lazy tuple"""
    if not fmt.order and fmt.unit not in 'bB':
        raise Unsupported('native struct layout')
    unit = (fmt.order or '<') + fmt.unit
    size = _struct.calcsize(unit)
    per = sum(1 if c == 's' else n for c, n, h in parse_fmt(unit)[1])
    data = seqof(data).snapshot()
    if not (data.length() == size * fmt.count):
        raise _struct.error('unpack requires a buffer of another size')
    seen = []

    def record(q):
        for k, v in seen:
            if k is q or (isinstance(k, int) and isinstance(q, int) and k == q):
                return v
        v = s_unpack(unit, mk('bytes', items=[data.at(q * size + j) for j in range(size)]))
        seen.append((q, v))
        return v

    def f(k):
        q, r = (k // per, k % per) if per > 1 else (k, 0)
        j = 0
        while j < per - 1 and not (r == j):
            j += 1
        return record(q)[j]
    return mk('tuple', n=fmt.count * per, f=f)


def from_signed(v, h):
    if isinstance(v, int):
        return v - 2 * h if v >= h else v
    if h == 1 << 63:
        return v - 2 * h if bool(v >= h) else v
    r = ite(v >= h, v - 2 * h, v)
    return r


def s_pack_into(fmt, buf, off, *args):
    data = s_pack(fmt, *args)
    n = len(data)
    L = pv_len(buf)
    if isinstance(buf, bytes) or (isinstance(buf, Seq) and buf.kind == 'bytes'):
        raise TypeError('argument must be read-write bytes-like object, not bytes')
    if isinstance(off, int) and off < 0:
        off = L + off
    if not (off + n <= L):
        raise _struct.error('pack_into requires a buffer of at least %s bytes' % (n,))
    buf[off:off + n] = data


def s_unpack_from(fmt, buf, offset=0):
    n = _struct.calcsize(fmt)
    if not isinstance(buf, (Seq, MView)):
        return _struct.unpack_from(fmt, buf, offset)
    if not (offset + n <= pv_len(buf)):
        raise _struct.error('unpack_from requires a buffer of at least %d bytes' % n)
    return s_unpack(fmt, mk_from(buf[offset:offset + n]))


def mk_from(x):
    return x.tobytes() if isinstance(x, MView) else x


class PvStruct(object):
    def __init__(self, fmt):
        self.format = fmt
        self.size = None if isinstance(fmt, RepFmt) else _struct.calcsize(fmt)

    def pack(self, *a): return s_pack(self.format, *a)
    def unpack(self, d): return s_unpack(self.format, d)
    def pack_into(self, b, o, *a): return s_pack_into(self.format, b, o, *a)
    def unpack_from(self, b, offset=0): return s_unpack_from(self.format, b, offset)


struct_mod = types.ModuleType('struct')
for _k, _v in dict(pack=s_pack, unpack=s_unpack, pack_into=s_pack_into, unpack_from=s_unpack_from,
                   calcsize=_struct.calcsize, error=_struct.error, Struct=PvStruct).items():
    setattr(struct_mod, _k, _v)


# ----------------------------------------------------------------------- array
def pv_array(typecode, init=None):
    if typecode not in ('I', 'H'):
        return _array.array(typecode, *([] if init is None else [init]))
    a = PvArray('array', items=[])
    a.typecode = typecode
    if init is not None:
        a.extend(init)
    return a


array_mod = types.ModuleType('array')
array_mod.array = pv_array


# ------------------------------------------------------------------------ uuid
PERM = [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15]


class PvUUID(object):
    """uuid.UUID over symbolic bytes (RFC 4122 layouts; trusted stdlib contract)"""

    def __init__(self, be):
        self.be = list(be)

    @property
    def bytes(self):
        return mk('bytes', items=self.be)

    @property
    def bytes_le(self):
        return mk('bytes', items=[self.be[p] for p in PERM])

    @property
    def int(self):
        return sum_le(self.be[::-1])

    @property
    def hex(self):
        return mk('str', items=sum([hex_digits(b, 2) for b in self.be], []))

    def __eq__(self, o):
        if isinstance(o, PvUUID):
            return and_(*[val_eq(a, b) for a, b in zip(self.be, o.be)])
        if isinstance(o, _uuid.UUID):
            return and_(*[val_eq(a, b) for a, b in zip(self.be, o.bytes)])
        return NotImplemented

    def __hash__(self):
        raise SymHash()


class _UUIDMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (PvUUID, _uuid.UUID))


class UUIDHandle(metaclass=_UUIDMeta):
    def __new__(cls, hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None):
        if bytes_le is not None and isinstance(bytes_le, Seq):
            if len(bytes_le) != 16:
                raise ValueError('bytes_le is not a 16-char string')
            return PvUUID([bytes_le.items[p] for p in PERM])
        if bytes is not None and isinstance(bytes, Seq):
            if len(bytes) != 16:
                raise ValueError('bytes is not a 16-char string')
            return PvUUID(bytes.items)
        if isinstance(int, SInt):
            if not (0 <= int) or not (int < (1 << 128)):
                raise ValueError('int is out of range (need a 128-bit value)')
            return PvUUID(le_bytes(int, 16)[::-1])
        if isinstance(hex, Seq):
            raise Unsupported('uuid.UUID(symbolic hex)')
        return _uuid.UUID(hex=hex, bytes=bytes, bytes_le=bytes_le, fields=fields, int=int, version=version)


uuid_mod = types.ModuleType('uuid')
uuid_mod.__dict__.update({k: v for k, v in _uuid.__dict__.items() if not k.startswith('__')})
uuid_mod.UUID = UUIDHandle


# -------------------------------------------------------------------------- io
class SymFile(object):
    """binary file over a symbolic content function (a raw device: reads past
    the end are short; writes past the end leave a hole of zeros)"""

    def __init__(self, content=b'', size=None, f=None):
        if f is None:
            s = seqof(content).snapshot()
            self.size = s.length()
            self.f = lambda k: s.at(k)
            self.fixed = s.items
        else:
            self.size, self.f, self.fixed = size, f, None
        self.pos = 0
        self.closed = False

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        if whence == 1:
            off = self.pos + off
        elif whence == 2:
            off = self.size + off
        if off < 0:
            raise ValueError('negative seek value')
        self.pos = off
        return off

    def value(self):
        if self.fixed is not None:
            return mk('bytes', items=list(self.fixed))
        f = self.f
        return Seq('bytes', n=self.size, f=f)

    def read(self, n=-1):
        avail = smax(0, self.size - self.pos)
        if n is None or (isinstance(n, int) and n < 0):
            n = avail
        elif isinstance(n, SInt) and n < 0:
            n = avail
        else:
            n = smin(n, avail)
        p, f = self.pos, self.f
        self.pos = p + n
        if isinstance(n, int) and n <= 4096:
            if self.fixed is not None and isinstance(p, int):
                return mk('bytes', items=self.fixed[p:p + n])
            return mk('bytes', items=[f(p + k) for k in range(n)])
        return mk('bytes', n=n, f=lambda k: f(p + k))

    def readinto(self, buf):
        n = smin(pv_len(buf), smax(0, self.size - self.pos))
        p, f = self.pos, self.f
        base = buf.base if isinstance(buf, MView) else buf
        off = buf.off if isinstance(buf, MView) else 0
        base.splice(off, n, Seq('bytes', n=n, f=lambda k: f(p + k)))
        self.pos = p + n
        return n

    def write(self, data):
        src = seqof(data).snapshot()
        n = src.length()
        p, f, size = self.pos, self.f, self.size
        if isinstance(n, int) and n == 0:
            return 0
        if self.fixed is not None and src.items is not None and isinstance(p, int):
            it = self.fixed
            if p > len(it):
                it = it + [0] * (p - len(it))
            it = it[:p] + src.items + it[p + n:]
            self.fixed = it
            self.size = len(it)
            s = Seq('bytes', items=it)
            self.f = lambda k: s.at(k)
            self.pos = p + n
            return n
        self.fixed = None

        def g(k):
            c = and_(k >= p, k < p + n)
            return ite_lazy(c, lambda: src.at(k - p), lambda: ite_lazy(k < size, lambda: f(k), lambda: 0))
        self.f = g
        self.size = smax(size, p + n)
        self.pos = p + n
        return n

    def truncate(self, n=None):
        n = self.pos if n is None else n
        self.size = smin(self.size, n)
        if self.fixed is not None and isinstance(n, int):
            self.fixed = self.fixed[:n]
        return n

    def getvalue(self):
        return self.value()

    def flush(self): pass
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.closed = True

    def _pv_conc(self, m):
        return Seq('bytes', n=self.size, f=self.f)._pv_conc(m)


def ite_lazy(c, fa, fb):
    from .seq import val_ite
    return val_ite(c, fa, fb)


class _BIOMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _io.BytesIO)


class BytesIOHandle(metaclass=_BIOMeta):
    def __new__(cls, data=b''):
        if isinstance(data, (Seq, MView)):
            c = to_concrete(seqof(data))
            if c is None:
                return SymFile(data)
            data = bytes(c) if not isinstance(c, bytes) else c
        return PvBytesIO(data)


class PvBytesIO(_io.BytesIO):
    """concrete BytesIO; switches to Unsupported when symbolic data is written"""

    def write(self, d):
        if isinstance(d, (Seq, MView)):
            c = to_concrete(seqof(d))
            if c is None:
                raise Unsupported('symbolic data written to a concrete BytesIO')
            d = c
        return _io.BytesIO.write(self, d)

    def readinto(self, b):
        if isinstance(b, (Seq, MView)):
            data = self.read(pv_len(b))
            b[0:len(data)] = data
            return len(data)
        return _io.BytesIO.readinto(self, b)

    def seek(self, p, w=0):
        if isinstance(p, SInt):
            raise Unsupported('symbolic position in a concrete BytesIO')
        return _io.BytesIO.seek(self, p, w)


io_mod = types.ModuleType('io')
io_mod.__dict__.update({k: v for k, v in _io.__dict__.items() if not k.startswith('__')})
io_mod.BytesIO = BytesIOHandle


class PvFile(object):
    """a real binary file opened by the code under test (concrete runs)"""

    def __init__(self, f):
        self.__dict__['_f'] = f

    def write(self, d):
        if isinstance(d, (Seq, MView)):
            d = bytes(to_concrete(seqof(d)))
        return self._f.write(d)

    def readinto(self, b):
        if isinstance(b, (Seq, MView)):
            data = self._f.read(pv_len(b))
            b[0:len(data)] = data
            return len(data)
        return self._f.readinto(b)

    def __getattr__(self, k):
        return getattr(self._f, k)

    def __setattr__(self, k, v):
        setattr(self._f, k, v)

    def __iter__(self):
        return iter(self._f)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._f.close()


def pv_open(*a, **k):
    f = open(*a, **k)
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    return PvFile(f) if 'b' in mode else f


io_mod.open = pv_open


# ---------------------------------------------------------------- datetime
import datetime as _dt


class SymDate(object):
    def __init__(self, year, month, day):
        if not and_(year >= 1, year <= 9999) or not and_(month >= 1, month <= 12):
            raise ValueError('date out of range')
        leap = and_(year % 4 == 0, or_(year % 100 != 0, year % 400 == 0))
        last = ite(month == 2, ite(leap, 29, 28), ite(or_(month == 4, month == 6, month == 9, month == 11), 30, 31))
        if not and_(day >= 1, day <= last):
            raise ValueError('day is out of range for month')
        self.year, self.month, self.day = year, month, day

    def __repr__(self): return '<sym date>'


class SymTime(object):
    def __init__(self, hour=0, minute=0, second=0, microsecond=0):
        if not and_(hour >= 0, hour <= 23, minute >= 0, minute <= 59, second >= 0, second <= 59,
                    microsecond >= 0, microsecond <= 999999):
            raise ValueError('time out of range')
        self.hour, self.minute, self.second, self.microsecond = hour, minute, second, microsecond

    def __repr__(self): return '<sym time>'


class SymDatetime(SymDate):
    def __init__(self, year, month, day, hour=0, minute=0, second=0, microsecond=0):
        SymDate.__init__(self, year, month, day)
        self.t = SymTime(hour, minute, second, microsecond)

    hour = property(lambda s: s.t.hour)
    minute = property(lambda s: s.t.minute)
    second = property(lambda s: s.t.second)
    microsecond = property(lambda s: s.t.microsecond)

    def date(self): return SymDate(self.year, self.month, self.day)
    def time(self): return self.t


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (cls.real, cls.sym))

    def __getattr__(cls, k):
        return getattr(cls.real, k)


def _dthandle(real, sym):
    def new(cls, *a, **k):
        if any(isinstance(x, SInt) for x in a) or any(isinstance(x, SInt) for x in k.values()):
            return sym(*a, **k)
        return real(*a, **k)
    return _DTMeta(real.__name__, (), dict(__new__=new, real=real, sym=sym))


h_date, h_time, h_datetime = _dthandle(_dt.date, SymDate), _dthandle(_dt.time, SymTime), _dthandle(_dt.datetime, SymDatetime)


def _combine(d, t):
    if isinstance(d, SymDate) or isinstance(t, SymTime):
        return SymDatetime(d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond)
    return _dt.datetime.combine(d, t)


h_datetime.combine = _combine
datetime_mod = types.ModuleType('datetime')
datetime_mod.__dict__.update({k: v for k, v in vars(_dt).items() if not k.startswith('__')})
datetime_mod.date, datetime_mod.time, datetime_mod.datetime = h_date, h_time, h_datetime

MODULES = {'struct': struct_mod, 'array': array_mod, 'uuid': uuid_mod, 'io': io_mod, 'datetime': datetime_mod}

BUILTINS = dict(vars(builtins))
BUILTINS.update({
    'int': h_int, 'bool': h_bool, 'str': h_str, 'bytes': h_bytes, 'bytearray': h_bytearray,
    'list': h_list, 'tuple': h_tuple, 'dict': h_dict, 'set': h_set, 'memoryview': h_memoryview,
    'float': h_float, 'range': h_range, 'enumerate': h_enumerate, 'reversed': h_reversed,
    'zip': h_zip, 'len': pv_len, 'min': pv_min, 'max': pv_max, 'abs': pv_abs, 'sum': pv_sum,
    'divmod': pv_divmod, 'ord': pv_ord, 'chr': pv_chr, 'hex': pv_hex, 'pow': pv_pow,
    'repr': pv_repr, 'sorted': pv_sorted, 'open': pv_open,
    '__pv_mod__': pv_mod, '__pv_in__': pv_in, '__pv_dict__': make_dict, '__pv_set__': make_set,
    '__pv_join__': pv_join, '__pv_star__': pv_star, '__pv_listcomp__': pv_listcomp,
})
