"""contracts shared by the AAF object layer specs (P12 - P16)"""
from pydv.core import *
from pydv.core import ctx
from pydv.seq import mk, Seq, seqof, val_eq
from pydv.libs import PvDict


class Blob(object):
    """bytes of arbitrary length: only identity and length matter"""

    def __init__(self, tag, n): self.tag, self.n = tag, n
    def pv_len(self): return self.n


class Buf(object):
    """BytesIO used for writing: where every write goes"""

    def __init__(self, *a): self.pos, self.log = 0, []
    def __enter__(self): return self
    def __exit__(self, *a): return False

    def write(self, d):
        if isinstance(d, Blob):
            self.log.append((self.pos, d))
            self.pos = self.pos + d.n
            return d.n
        it = list(seqof(d).items) if isinstance(d, Seq) else list(d)
        self.log.append((self.pos, it))
        self.pos = self.pos + len(it)
        return len(it)

    def getvalue(self): return ('written', self)


class Content(object):
    """contents of a stream of arbitrary length: a function of the position"""

    def __init__(self, name='raw'): self.f = UF(name, 1, 0, 255)

    def le(self, pos, n):
        return sum([self.f(pos + k) * (1 << 8 * k) for k in range(n)], 0)


class Rd(object):
    """BytesIO used for reading such contents (long enough for what the layout says)"""

    def __init__(self, c):
        self.c, self.pos = c, 0

    def __enter__(self): return self
    def __exit__(self, *a): return False

    def read(self, n):
        p, f = self.pos, self.c.f
        self.pos = p + n
        if isinstance(n, int):
            return mk('bytes', items=[f(p + k) for k in range(n)])
        return mk('bytes', n=n, f=lambda k: f(p + k))


class Out(object):
    """an open stream at its start"""

    def __init__(self, log): self.log = log
    def write(self, d): self.log.append(('write', d))
    def truncate(self, n=None): self.log.append(('truncate', n))


def flat(log):
    """consecutive writes as one list of cells (concrete sizes)"""
    out, start, pos = [], log[0][0], log[0][0]
    for p, d in log:
        prove(val_eq(p, pos), 'writes are consecutive')
        out += d
        pos = pos + len(d)
    return start, out


def le(v, n):
    return [(v // (1 << 8 * k)) % 256 for k in range(n)]


# ---------------------------------------------------------------- mappings of any size
class Key(object):
    """a unique key: an identity and its bytes"""

    def __init__(self, tok): self.tok, self.bytes_le = tok, ('bytes of', self)


def untok(k):
    return k.tok if isinstance(k, Key) else k


class LMap(object):
    """a mapping with integer keys: which keys it has, and the value of each"""

    def __init__(self, has, val): self.has, self.val, self.enum = has, val, None

    def pv_copy(self): return LMap(self.has, self.val)

    def get(self, k, d=None):
        k = untok(k)
        return self.val(k) if self.has(k) else d

    def __getitem__(self, k):
        k = untok(k)
        if not self.has(k):
            raise KeyError(k)
        return self.val(k)

    def __contains__(self, k): return bool(self.has(untok(k)))
    def pv_contains(self, k): return self.has(untok(k))

    def __setitem__(self, k, v):
        k = untok(k)
        oh, ov = self.has, self.val
        self.has = lambda j: or_(val_eq(j, k), oh(j))
        self.val = lambda j: v if val_eq(j, k) else ov(j)

    def pop(self, k, *d):
        k = untok(k)
        if not self.has(k):
            if d:
                return d[0]
            raise KeyError(k)
        r, oh = self.val(k), self.has
        self.has = lambda j: and_(not_(val_eq(j, k)), oh(j))
        return r

    def __delitem__(self, k): self.pop(k)

    def listing(self):
        """the keys in some order: key at a position, position of a key"""
        n = fresh_int('cached', 0)
        has = self.has
        key = UF('key')
        pos = UF('pos')
        self.enum = (n, key, pos)

        def at(p):
            k = key(p)
            assume(implies(and_(0 <= p, p < n), and_(has(k), pos(k) == p)))
            return k

        def where(k):
            p = pos(k)
            assume(implies(has(k), and_(0 <= p, p < n, key(p) == k)))
            return p
        self.enum = (n, at, where)
        return n, at, where

    def items(self):
        n, at, where = self.listing()
        v = self.val
        src = self

        class Items(object):
            def pv_lazy(s):
                z = mk('list', n=n, f=lambda p: (at(p), v(at(p))))
                z.map, z.where = src, where
                return z
        return Items()

    def pv_lazy(self):
        n, at, where = self.listing()
        z = mk('list', n=n, f=at)
        z.map, z.where = self, where
        return z

    def pv_len(self): return self.listing()[0]


def none():
    return LMap(lambda k: False, lambda k: None)


class Weak(object):
    """stands for the weakref module: nothing is collected while it is looked at
    (an entry which vanished is an entry that was never cached)"""

    class ref(object):
        def __init__(self, o): self.o = o
        def __call__(self): return self.o

    @staticmethod
    def WeakValueDictionary(d=None):
        if d is None:
            return none()
        if isinstance(d, LMap):
            return d.pv_copy()
        r = none()
        for k, v in d.items():
            r[k] = v
        return r
