"""symbolic sequences: bytes, bytearray, str, list, array, memoryview.

A sequence is either FIXED (a concrete number of possibly symbolic elements)
or LAZY (symbolic length, element function index -> value).  LAZY sequences
are composed functionally (concatenation, slice, store), so no quantifier and
no array theory is needed.
"""
import z3
from .core import (SInt, SBool, Unsupported, SymHash, ctx, and_, or_, not_, ite, implies,
                   toint, fresh_int, iexpr, mkint, implies, UF, prove, assume, conc)

BYTEK = ('bytes', 'bytearray', 'memoryview')


def is_sym(x):
    return isinstance(x, (SInt, SBool, Seq))


def conc_index(i):
    if isinstance(i, (SInt, SBool)):
        return None
    return i


def smin(a, b):
    """min without forking"""
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    c = a <= b
    if isinstance(c, bool):
        return a if c else b
    return ite(c, a, b)


def smax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    c = a >= b
    if isinstance(c, bool):
        return a if c else b
    return ite(c, a, b)


class Seq(object):
    """base; kind tells which Python type it stands for"""
    hits = ()          # (contents, index) where a membership test found something
    ghosts = ()        # indices a specification wants followed through sorted() and comprehensions

    def __init__(self, kind, items=None, n=None, f=None, elem=None):
        self.kind = kind
        if items is not None:
            self.items = list(items)
            self.n = len(self.items)
            self.f = None
        else:
            self.items = None
            self.n = n
            self.f = f

    # ---- basic access
    def length(self):
        return len(self.items) if self.items is not None else self.n

    def at(self, i):
        """element at 0 <= i < length (no bounds check, no negative index)"""
        if self.items is not None:
            if not isinstance(i, (SInt, SBool)):
                return self.items[i]
            if len(self.items) > 600:
                if all(type(x) is int for x in self.items) and len(set(self.items)) == 1:
                    return self.items[0]
                raise Unsupported('symbolic index into a large fixed sequence')
            if not self.items:
                return 0
            if all(isinstance(x, (int, SInt)) for x in self.items):
                lo, hi = i.bounds()
                a = 0 if lo is None else max(0, lo)
                b = len(self.items) - 1 if hi is None else min(hi, len(self.items) - 1)
                if b < a:
                    return self.items[0]
                r = self.items[b]
                for k in range(b - 1, a - 1, -1):
                    r = ite(i == k, self.items[k], r)
                return r
            for k in range(len(self.items) - 1):
                if i == k:
                    return self.items[k]
            return self.items[-1]
        return self.f(i)

    def snapshot(self):
        """immutable copy of the current value"""
        if self.items is not None:
            return Seq(self.kind, items=list(self.items))
        r = Seq(self.kind, n=self.n, f=self.f)
        r.ghosts = self.ghosts
        return r

    def make(self, items=None, n=None, f=None):
        kind = self.kind
        if kind == 'memoryview':
            kind = 'bytes'
        return mk(kind, items, n, f)

    def norm_index(self, i):
        n = self.length()
        if i < 0:
            i = i + n
            if i < 0:
                raise IndexError('index out of range')
        elif i >= n:
            raise IndexError('index out of range')
        return i

    def norm_slice(self, sl):
        n = self.length()

        def clamp(v, default):
            if v is None:
                return default
            if not isinstance(v, (int, SInt)):
                v = toint(v)
            if isinstance(v, int) and isinstance(n, int):
                if v < 0:
                    v += n
                    return max(v, 0)
                return min(v, n)
            if v < 0:
                v = v + n
                if v < 0:
                    return 0
                return v
            if v > n:
                return n
            return v
        a = clamp(sl.start, 0)
        b = clamp(sl.stop, n)
        if b < a:
            b = a
        return a, b

    def __len__(self):
        n = self.length()
        if isinstance(n, int):
            return n
        raise Unsupported('len() by CPython of a symbolic-length sequence')

    def __bool__(self):
        n = self.length()
        r = n != 0
        return r if isinstance(r, bool) else bool(r)

    def elem_out(self, v):
        if self.kind == 'str':
            return mk('str', items=[v])
        return v

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                if self.items is not None and not any(isinstance(x, SInt) for x in (i.start, i.stop, i.step)):
                    return self.make(items=self.items[i])
                raise Unsupported('stepped slice of a lazy sequence')
            a, b = self.norm_slice(i)
            if self.items is not None and isinstance(a, int) and isinstance(b, int):
                return self.make(items=self.items[a:b])
            src = self.snapshot()
            n = b - a
            if isinstance(n, int) and isinstance(a, int) and n <= 64:
                return self.make(items=[src.at(a + k) for k in range(n)])
            if isinstance(n, int) and n <= 64:
                return self.make(items=[src.at(a + k) for k in range(n)])
            return self.make(n=n, f=lambda k: src.at(k + a))
        i = self.norm_index(i)
        return self.elem_out(self.at(i))

    def __iter__(self):
        n = self.length()
        if not isinstance(n, int):
            raise Unsupported('iteration over a symbolic-length sequence')
        k = 0
        while k < self.length():
            yield self.elem_out(self.at(k))
            k += 1

    # ---- value equality
    def eq(self, o):
        o = seqof(o)
        if o is None:
            return False
        n, m = self.length(), o.length()
        if isinstance(n, int) and isinstance(m, int):
            if n != m:
                return False
            return and_(*[val_eq(self.at(k), o.at(k)) for k in range(n)])
        le = n == m
        if le is False:
            return False
        # lazily compared: fork on lengths, then on every element via a skolem
        raise Unsupported('equality of lazy sequences in code under test')

    def __eq__(self, o):
        if isinstance(o, Seq) or isinstance(o, (bytes, bytearray, str, list, tuple)):
            if kindclass(self.kind) != kindclass(kindof(o)):
                return False
            return self.eq(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not_(r)

    def __hash__(self):
        raise SymHash()

    def __lt__(self, o):
        return seq_lt(self, seqof(o))

    def __gt__(self, o):
        return seq_lt(seqof(o), self)

    # ---- concatenation
    def concat(self, o, kind=None):
        kind = kind or self.kind
        if kind == 'memoryview':
            raise TypeError('unsupported operand')
        if self.items is not None and o.items is not None:
            return mk(kind, items=self.items + o.items)
        a, b = self.snapshot(), o.snapshot()
        na, nb = a.length(), b.length()
        if isinstance(na, int) and na == 0:
            return mk(kind, b.items, b.n, b.f)
        if isinstance(nb, int) and nb == 0:
            return mk(kind, a.items, a.n, a.f)

        def f(k):
            c = k < na
            if c is True:
                return a.at(k)
            if c is False:
                return b.at(k - na)
            return val_ite(c, lambda: a.at(k), lambda: b.at(k - na))
        return mk(kind, n=na + nb, f=f)

    def __add__(self, o):
        s = seqof(o)
        if s is None or kindclass(self.kind) != kindclass(kindof(o)):
            return NotImplemented
        return self.concat(s)

    def __radd__(self, o):
        s = seqof(o)
        if s is None or kindclass(self.kind) != kindclass(kindof(o)):
            return NotImplemented
        return s.concat(self, kindof(o))

    def __mul__(self, k):
        if isinstance(k, int) and self.items is not None:
            return mk(self.kind, items=self.items * k)
        raise Unsupported('symbolic repetition')

    def _pv_conc(self, m):
        n = self.length()
        if isinstance(n, SInt):
            n = conc(n, m)
        if n > 200000:
            raise ValueError('counter-model length %d' % n)
        if self.items is not None:
            it = [conc(x, m) for x in self.items]
        else:
            it = [conc(self.at(k), m) for k in range(n)]
        if self.kind in BYTEK:
            return bytes(x % 256 for x in it)
        if self.kind == 'str':
            return ''.join(chr(x) if not isinstance(x, str) else x for x in it)
        return it

    def __repr__(self):
        if self.items is not None and not any(is_sym(x) for x in self.items):
            return repr(to_concrete(self))
        return '<sym %s>' % self.kind

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        if isinstance(self.length(), int):
            if self.kind == 'str':
                xs = seqof(x)
                if xs is not None and xs.length() == 1:
                    return or_(*[val_eq(y, xs.at(0)) for y in self.items])
                raise Unsupported('substring search')
            return or_(*[val_eq(y, x) for y in self.items])
        # fork: present at some (fresh) index, or absent: then every element looked at later differs from x
        from .core import UF, assume, fresh_bool, fresh_int
        n, old = self.length(), self.snapshot()
        if fresh_bool('member'):
            k = fresh_int('where', 0)
            assume(k < n)
            assume(val_eq(old.at(k), x))
            self.hits = self.hits + ((old.f, k),)
            return True

        def f(k):
            v = old.at(k)
            assume(implies(and_(k >= 0, k < n), not_(val_eq(v, x))))
            return v
        self.f = f
        for j in tuple(self.ghosts) + tuple(k for g, k in self.hits if g is old.f):
            f(j)
        return False

    def index(self, x):
        if not isinstance(self.length(), int):
            from .core import assume, fresh_int
            old = self.snapshot()
            if not self.contains(x):
                raise ValueError('not in list')
            k, n = fresh_int('first', 0), self.length()
            assume(k < n)
            assume(val_eq(old.at(k), x))
            for j in self.ghosts:
                assume(implies(and_(0 <= j, j < k), not_(val_eq(old.at(j), x))))
            return k
        for i, y in enumerate(self):
            if y == x:
                return i
        raise ValueError('not in list')


class PvBytes(Seq):
    def decode(self, enc='utf-8', errors='strict'):
        from .text import bytes_decode
        return bytes_decode(self, enc, errors)

    def hex(self):
        from .text import hex_digits
        out = []
        for b in self:
            out += hex_digits(b, 2)
        return mk('str', items=out)

    def tobytes(self):
        return mk('bytes', self.items, self.n, self.f)

    def join(self, parts):
        r = None
        for p in parts:
            r = p if r is None else r + self + p
        return mk('bytes', items=[]) if r is None else r

    def release(self):
        pass

    def startswith(self, p):
        p = seqof(p)
        n = p.length()
        if self.length() < n:
            return False
        return self[:n] == p


class Mutable(object):
    def __setitem__(self, i, v):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('stepped slice store')
            a, b = self.norm_slice(i)
            src = seqof(v)
            if src is None:
                src = seqof(list(v))
            src = src.snapshot()
            if self.kind in ('bytearray',) and src.kind in ('list', 'tuple') and src.items is not None:
                for x in src.items:
                    check_byte(x)
            if self.items is not None and src.items is not None and isinstance(a, int) and isinstance(b, int):
                self.items[a:b] = src.items
                return
            m = src.length()
            d = b - a
            if not (d == m):
                # resizing store: tail moves
                old = self.snapshot()
                n0 = self.length()
                na = a + m

                def f2(k):
                    return val_ite(k < a, lambda: old.at(k),
                                   lambda: val_ite(k < na, lambda: src.at(k - a),
                                                   lambda: old.at(k - na + b)))
                self.items, self.n, self.f = None, n0 - d + m, f2
                return
            self.splice(a, m, src)
            return
        i = self.norm_index(i)
        if self.kind == 'bytearray':
            check_byte(v)
        elif self.kind == 'array':
            check_u32(v)
        if self.items is not None and isinstance(i, int):
            self.items[i] = v
            return
        old = self.snapshot()
        n = self.length()
        self.items, self.n = None, n
        self.f = lambda k: val_ite(k == i, lambda: v, lambda: old.at(k))

    def splice(self, a, m, src):
        old = self.snapshot()
        n = self.length()
        if self.items is not None and isinstance(a, int) and isinstance(m, int) and m <= 4096:
            self.items[a:a + m] = [src.at(k) for k in range(m)]
            return

        def f(k):
            return val_ite(and_(k >= a, k < a + m), lambda: src.at(k - a), lambda: old.at(k))
        self.items, self.n, self.f = None, n, f

    def __iadd__(self, o):
        self.extend(o)
        return self

    def extend(self, o):
        s = seqof(o)
        if s is None:
            s = seqof(list(o))
        r = self.concat(s)
        self.items, self.n, self.f = r.items, r.n, r.f

    def append(self, v):
        if self.kind == 'bytearray':
            check_byte(v)
        self.extend(Seq('list', items=[v]))

    def pop(self, i=-1):
        n = self.length()
        if n == 0:
            raise IndexError('pop from empty list')
        if self.items is not None and isinstance(i, int):
            return self.items.pop(i)
        i = self.norm_index(i)
        v = self.at(i)
        old = self.snapshot()
        if isinstance(i, int) and i == 0:
            f = lambda k: old.at(k + 1)
        else:
            f = lambda k: val_ite(k < i, lambda: old.at(k), lambda: old.at(k + 1))
        self.items, self.n, self.f = None, n - 1, f
        return self.elem_out(v)

    def insert(self, i, v):
        if self.items is not None and isinstance(i, int):
            self.items.insert(i, v)
            return
        n = self.length()
        if isinstance(i, int) and i == 0:
            old = self.snapshot()
            f = lambda k: val_ite(k == 0, lambda: v, lambda: old.at(k - 1))
            self.items, self.n, self.f = None, n + 1, f
            return
        if i < 0:
            i = i + n
            if i < 0:
                i = 0
        elif i > n:
            i = n
        old = self.snapshot()

        def f(k):
            return val_ite(k < i, lambda: old.at(k),
                           lambda: val_ite(k == i, lambda: v, lambda: old.at(k - 1)))
        self.items, self.n, self.f = None, n + 1, f

    def __delitem__(self, i):
        if isinstance(i, slice):
            self[i] = Seq('list', items=[])
            return
        self.pop(i)

    def clear(self):
        self.items, self.n, self.f = [], 0, None

    def reverse(self):
        if self.items is None:
            raise Unsupported('reverse of lazy list')
        self.items.reverse()

    def copy(self):
        return mk(self.kind, self.items, self.n, self.f)


class PvBytearray(Mutable, PvBytes):
    def __buffer__(self, flags):
        return memoryview(bytes(self))


class PvList(Mutable, Seq):
    def sort(self, key=None, reverse=False):
        """contract of list.sort on integers: a non-decreasing permutation"""
        if key is not None or reverse:
            raise Unsupported('sort of a symbolic list with a key')
        if isinstance(self.n, int) and self.items is not None:
            from .libs import pv_sorted
            self.items = pv_sorted(self.items)
            return
        from .core import UF, assume
        n, old = self.n, self.snapshot()
        g, p, q = UF('sorted'), UF('perm', lo=0), UF('inv', lo=0)
        seen = []

        def f(i):
            v = g(i)
            assume(implies(and_(i >= 0, i < n), and_(p(i) < n, q(p(i)) == i, val_eq(v, old.at(p(i))))))
            for j, w in seen:
                assume(implies(and_(i >= 0, i <= j, j < n), v <= w))
                assume(implies(and_(j >= 0, j <= i, i < n), w <= v))
            seen.append((i, v))
            return v

        def inverse(j):
            """index where the element formerly at j is now"""
            k = q(j)
            assume(implies(and_(j >= 0, j < n), and_(k < n, p(k) == j, val_eq(g(k), old.at(j)))))
            f(k)
            return k
        self.f = f
        self.ghosts = [inverse(j) for j in old.ghosts]


class PvTuple(Seq):
    pass


class PvArray(Mutable, Seq):
    typecode = 'I'

    def byteswap(self):
        raise Unsupported('byteswap')

    @property
    def itemsize(self):
        return {'I': 4, 'H': 2}[self.typecode]

    def frombytes(self, data):
        data, z = seqof(data), self.itemsize
        n = data.length()
        if n % z != 0:
            raise ValueError('bytes length not a multiple of item size')
        if isinstance(n, int) and data.items is not None:
            for k in range(0, n, z):
                self.append(sum_le(data.items[k:k + z]))
            return
        src = data.snapshot()
        cnt = n // z
        self.extend(Seq('list', n=cnt, f=lambda k: sum_le([src.at(k * z + j) for j in range(z)])))

    def fromfile(self, f, n):
        self.frombytes(f.read(n * self.itemsize))

    def tobytes(self):
        it = []
        for v in self:
            it += le_bytes(v, self.itemsize)
        return mk('bytes', items=it)


class PvStr(Seq):
    def __init__(self, *a, **k):
        Seq.__init__(self, *a, **k)

    def encode(self, enc='utf-8', errors='strict'):
        from .text import str_encode
        return str_encode(self, enc, errors)

    def upper(self):
        from .text import str_upper
        return str_upper(self)

    def lower(self):
        from .text import str_lower
        return str_lower(self)

    def replace(self, a, b):
        from .text import str_replace
        return str_replace(self, a, b)

    def strip(self, chars=None):
        from .text import str_strip
        return str_strip(self, chars, True, True)

    def lstrip(self, chars=None):
        from .text import str_strip
        return str_strip(self, chars, True, False)

    def split(self, sep=None, maxsplit=-1):
        from .text import str_split
        return str_split(self, sep, maxsplit)

    def startswith(self, p):
        p = seqof(p)
        n = p.length()
        if self.length() < n:
            return False
        return self[:n] == p

    def endswith(self, p):
        p = seqof(p)
        n = p.length()
        if self.length() < n:
            return False
        return self[len(self) - n:] == p

    def join(self, parts):
        r = None
        for p in parts:
            r = p if r is None else r + self + p
        return mk('str', items=[]) if r is None else r

    def __str__(self):
        return '<sym str>'

    def __format__(self, s):
        return '<sym str>'


class MView(object):
    """memoryview over a bytearray: slices alias the base"""
    kind = 'memoryview'

    def __init__(self, base, off=0, n=None):
        self.base, self.off = base, off
        self.n = base.length() if n is None else n

    def length(self):
        return self.n

    def __len__(self):
        if isinstance(self.n, int):
            return self.n
        raise Unsupported('len() by CPython of a symbolic memoryview')

    def __bool__(self):
        r = self.n != 0
        return r if isinstance(r, bool) else bool(r)

    def seq(self):
        src = self.base.snapshot()
        off = self.off
        if src.items is not None and isinstance(off, int) and isinstance(self.n, int):
            return Seq('bytes', items=src.items[off:off + self.n])
        return Seq('bytes', n=self.n, f=lambda k: src.at(k + off))

    def _rng(self, sl):
        return Seq('bytes', n=self.n, f=lambda k: 0).norm_slice(sl)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                raise Unsupported('stepped memoryview slice')
            a, b = self._rng(i)
            return MView(self.base, self.off + a, b - a)
        i = Seq('bytes', n=self.n, f=lambda k: 0).norm_index(i)
        return self.base.at(self.off + i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            a, b = self._rng(i)
            src = seqof(v).snapshot()
            m = src.length()
            if not (b - a == m):
                raise ValueError('memoryview assignment: lvalue and rvalue have different structures')
            self.base.splice(self.off + a, m, src)
            return
        i = Seq('bytes', n=self.n, f=lambda k: 0).norm_index(i)
        check_byte(v)
        self.base[self.off + i] = v

    def __iter__(self):
        return iter(mk('bytes', self.seq().items, self.n, self.seq().f))

    def tobytes(self):
        s = self.seq()
        return mk('bytes', s.items, s.n, s.f)

    def __buffer__(self, flags):
        return memoryview(bytes(self.seq().items))

    def release(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __hash__(self):
        raise SymHash()

    def __eq__(self, o):
        return self.tobytes() == o

    def _pv_conc(self, m):
        return self.tobytes()._pv_conc(m)


CLS = {'bytes': PvBytes, 'bytearray': PvBytearray, 'str': PvStr, 'list': PvList,
       'tuple': PvTuple, 'array': PvArray}


def mk(kind, items=None, n=None, f=None):
    if kind == 'memoryview':
        kind = 'bytes'
    if items is not None and kind in ('bytes', 'str', 'tuple') and not any(is_sym(x) for x in items):
        if kind == 'bytes':
            return bytes(items)
        if kind == 'str':
            return ''.join(chr(x) for x in items)
        return tuple(items)
    return CLS[kind](kind, items=items, n=n, f=f)


def kindof(o):
    if isinstance(o, (Seq, MView)):
        return o.kind
    if isinstance(o, bytes): return 'bytes'
    if isinstance(o, bytearray): return 'bytearray'
    if isinstance(o, str): return 'str'
    if isinstance(o, list): return 'list'
    if isinstance(o, tuple): return 'tuple'
    if isinstance(o, memoryview): return 'memoryview'
    return None


def kindclass(k):
    return 'bytes' if k in BYTEK else k


def seqof(o):
    if isinstance(o, Seq):
        return o
    if isinstance(o, MView):
        return o.seq()
    if isinstance(o, str):
        return Seq('str', items=[ord(c) for c in o])
    if isinstance(o, (bytes, bytearray, memoryview)):
        return Seq('bytes', items=list(bytes(o)))
    if isinstance(o, (list, tuple)):
        return Seq('list', items=list(o))
    return None


def to_concrete(s):
    if s.items is None:
        return None
    if any(is_sym(x) for x in s.items):
        return None
    k = s.kind
    if k in ('bytes', 'memoryview'):
        return bytes(s.items)
    if k == 'bytearray':
        return bytearray(s.items)
    if k == 'str':
        return ''.join(chr(x) for x in s.items)
    if k == 'tuple':
        return tuple(s.items)
    return list(s.items)


def val_eq(a, b):
    if isinstance(a, (Seq, MView)) or isinstance(b, (Seq, MView)):
        a2, b2 = seqof(a), seqof(b)
        if a2 is None or b2 is None:
            return False
        return a2.eq(b2)
    r = a == b
    if r is NotImplemented:
        return False
    return r


def val_ite(c, fa, fb):
    if isinstance(c, bool):
        return fa() if c else fb()
    s = z3.simplify(c.e)
    if z3.is_true(s):
        return fa()
    if z3.is_false(s):
        return fb()
    a, b = fa(), fb()
    if isinstance(a, (int, SInt, SBool)) and isinstance(b, (int, SInt, SBool)):
        return ite(c, a, b)
    if a is b:
        return a
    return a if c else b          # fork for structured values


def check_byte(v):
    v = toint(v)
    if v is NotImplemented:
        raise TypeError('an integer is required')
    if not (v >= 0) or not (v <= 255):
        raise ValueError('byte must be in range(0, 256)')


def check_u32(v):
    v = toint(v)
    if v is NotImplemented:
        raise TypeError('an integer is required')
    if not (v >= 0) or not (v <= 0xFFFFFFFF):
        raise OverflowError('unsigned int out of range')


def _key(v):
    return (tuple(sorted((i, co) for i, (co, ex) in v.t.items())), v.c)


def _remember(v, n, out):
    """out are the base 256 digits of v: lets sum_le return v itself"""
    lo, hi = v.bounds()
    if lo is not None and lo >= 0 and hi is not None and hi < 256 ** n:
        d = ctx().origin
        for k, b in enumerate(out):
            if isinstance(b, SInt):
                d[_key(b), k, n] = v
    return out


def sum_le(items):
    n = len(items)
    if n > 1 and isinstance(items[0], SInt):
        d = ctx().origin
        if d:
            v = d.get((_key(items[0]), 0, n))
            if v is not None and all(isinstance(b, SInt) and d.get((_key(b), k, n)) is v for k, b in enumerate(items)):
                return v
    r = 0
    for k, b in enumerate(items):
        r = r + b * (1 << (8 * k))
    return r


def hi_lo(e):
    a, b = ctx().ranges.get(e.get_id(), (None, None))
    return a is not None and b is not None and a >= 0 and b <= 255


def le_bytes(v, n):
    if isinstance(v, int):
        return [(v >> (8 * k)) & 0xff for k in range(n)]
    if n >= 8 and not (len(v.t) > 1 and all(co % 256 == 0 or hi_lo(ex) for co, ex in v.t.values())):
        c = ctx()
        key = (tuple(sorted((i, co) for i, (co, ex) in v.t.items())), v.c, n)
        lo, hi = v.bounds()
        if key in c.digits or (lo is not None and lo >= 0 and hi is not None and hi < 256 ** n) or \
                c.implied(and_(v >= 0, v < 256 ** n)):
            # the (unique) base 256 digits of v, named once per path
            if key not in c.digits:
                d = [fresh_int('dig%d' % k, 0, 255) for k in range(n)]
                c.assume_expr(v.e == sum_le(d).e)
                c.digits[key] = (v, d)
            return _remember(v, n, list(c.digits[key][1]))
    return _remember(v, n, [(v >> (8 * k)) % 256 for k in range(n)])


def seq_lt(a, b):
    """lexicographic order (fixed lengths)"""
    n, m = a.length(), b.length()
    if not (isinstance(n, int) and isinstance(m, int)):
        raise Unsupported('ordering of lazy sequences')
    r = n < m
    for k in range(min(n, m) - 1, -1, -1):
        r = or_(a.at(k) < b.at(k), and_(val_eq(a.at(k), b.at(k)), r))
    return r


# ---- fresh symbolic sequences -------------------------------------------
def sym_bytes(name, n, kind='bytes', note=True):
    """fixed number of symbolic bytes"""
    s = CLS[kind](kind, items=[fresh_int('%s%d' % (name, k), 0, 255) for k in range(n)])
    if note:
        ctx().note(name, s.snapshot())
    return s


def lazy_bytes(name, n, kind='bytes', note=True):
    u = UF(name, 1, 0, 255)
    s = CLS[kind](kind, n=n, f=lambda k: u(k))
    if note:
        ctx().note(name, s.snapshot())
    return s


def prove_eq(a, b, name):
    """obligation: two sequence values are equal (skolem index for lazy ones)"""
    a, b = seqof(a), seqof(b)
    if a is None or b is None:
        return prove(False, name + ':type')
    n, m = a.length(), b.length()
    ok = prove(n == m if not (isinstance(n, int) and isinstance(m, int)) else n == m, name + ':length')
    if isinstance(n, int) and isinstance(m, int):
        if n != m:
            return False
        if n <= 256:
            return prove(and_(*[val_eq(a.at(k), b.at(k)) for k in range(n)]), name)
    j = fresh_int('j', 0)
    c = ctx()
    j_ok = and_(j < n, j < m)
    return prove(implies(j_ok, val_eq(a.at(j), b.at(j))), name)
