"""P02: every sector and mini sector has at most one owner.

Deductive part: the allocator.  Ownership is the invariant

  INV   a sector is FREE in the table iff no chain or table owns it; the free
        list holds distinct FREE sectors
  MINI  with M = mini sectors covered by the mini stream and L = len(minifat):
        the last L-M entries of the mini free list are M, M+1, .., L-1 and the
        others are below M

Every function which changes a table is proved, for tables, lists and chains
of any length, to do exactly what keeps it: allocation returns a sector that
was FREE and removes it from the list, growing marks exactly the new table
sectors, appending changes only the old and the new end of one chain, freeing
frees exactly the sectors of one chain.  Callees are used by contract."""
import random
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec, Val, At
from pydv.seq import mk, prove_eq, Seq, seqof
from pydv.runner import Unit, Bounded, plain
from specs.common import drive, drop_chunks, guarded

FREE, EOC, FATS, DIFS = 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC
LOCK = 524286
BIG = 1 << 31


def container(P, ss, **over):
    """a container object with some methods replaced by contracts"""
    C = type('C', (P.cfb.CompoundFileBinary,), over)
    c = C.__new__(C)
    c.sector_size, c.mini_stream_sector_size, c.min_stream_max_size = ss, 64, 4096
    return c


class Call(object):
    def __init__(self): self.n = 0


# ---------------------------------------------------------------- next_free_sect
def take(ss):
    """the free list is not empty"""
    def body(P):
        n = fresh_int('free', 1, BIG)
        L = fresh_int('len', 0, BIG)
        fl, tab = UF('freelist', 1, 0, BIG), UF('fat', 1, 0, FREE)
        again = []
        res = fresh_int('again', 0, BIG)

        def rec(self):
            again.append((self.fat_freelist.length()))
            return res
        c = container(P, ss, next_free_sect=rec)
        c.fat_freelist = mk('list', n=n, f=lambda i: fl(i))
        c.fat = mk('array', n=L, f=lambda i: tab(i))
        f0 = fl(0)
        assume(and_(f0 < L, tab(f0) == FREE))
        k, x = fresh_int('k', 0), fresh_int('x', 0)
        assume(and_(k < n - 1, x < L))
        assume(fl(k + 1) != f0)
        ctx().cover('entry')
        r = P.cfb.CompoundFileBinary.next_free_sect(c)
        prove(c.fat_freelist.length() == n - 1, 'one entry leaves the free list')
        prove(c.fat_freelist.at(k) == fl(k + 1), 'the first entry leaves the free list')
        if again:
            ctx().cover('range lock')
            prove(and_(f0 == LOCK, ss == 4096), 'only the range lock sector is skipped')
            prove(c.fat.at(LOCK) == EOC, 'the range lock sector is not free any more')
            prove(implies(x != LOCK, c.fat.at(x) == tab(x)), 'no other entry changes')
            prove(again[0] == n - 1, 'the rest of the list is used')
            prove(r == res, 'the result of the next attempt')
            return
        ctx().cover('given')
        prove(c.fat.at(r) == FREE, 'the sector was free')
        prove(r == f0, 'the sector comes from the free list')
        if ss == 4096:
            prove(r != LOCK, 'never the range lock sector')
        prove(c.fat.at(x) == tab(x), 'the table is unchanged')
        prove(c.fat_freelist.at(k) != r, 'the sector is not in the free list any more')
    return body


class Slots(object):
    """the table of allocation table locations: any number of slots in any number of tables"""

    def __init__(self, ss):
        self.ss = ss
        self.D = fresh_int('slots', 109, BIG)
        self.T = fresh_int('tables', 1, BIG)
        self.tt, self.ii, self.vv = UF('tab', 1, 0, BIG), UF('idx', 1, 0, BIG), UF('loc', 1, 0, FREE)
        self.added, self.stores, self.links = [], [], []

    def lazy(self):
        if not self.added:
            return mk('tuple', n=self.D, f=lambda k: (self.tt(k), self.ii(k), self.vv(k)))
        D, T = self.D, self.T

        def f(k):
            new = k >= D
            return (ite(new, T, self.tt(k)), ite(new, k - D, self.ii(k)), ite(new, FREE, self.vv(k)))
        return mk('tuple', n=D + self.ss // 4 - 1, f=f)

    def pv_lazy(self): return self.lazy()

    # the list of tables as the code uses it
    def append(self, t): self.added.append(t)

    def __getitem__(self, t):
        if isinstance(t, int) and t == -1:
            return self.added[-1] if self.added else LinkRow(self)
        return Row(self, t)


class LinkRow(object):
    def __init__(self, s): self.s = s

    def __setitem__(self, i, v):
        prove(isinstance(i, int) and i == -1, 'only the link slot of the last table is set')
        self.s.links.append(v)


class Row(object):
    def __init__(self, s, t): self.s, self.t = s, t

    def __setitem__(self, i, v): self.s.stores.append((self.t, i, v))


class Search(LoopSpec):
    """no free slot so far"""
    name = 'free slot'
    fn = 'next_free_sect'
    once = False

    def __init__(self, s, J): self.s, self.J, self.hits = s, J, []

    def match(self, L, env): return L.lazy is not None and 'difat_index' in env

    def constraint(self, L, g):
        J = self.J
        return [implies(J < L.idx, self.s.vv(J) != FREE)] + ([L.idx <= self.s.D] if self.s.added else [])

    def state(self, L, g): return {'difat_index': None, 'difat_table': None}
    def iteration(self, L, g): self.hits.append((L.idx, len(self.s.added)))


def grow(ss, lock):
    per = ss // 4

    def body(P):
        from pydv import loops
        s = Slots(ss)
        J = fresh_int('J', 0)
        assume(J < s.D)
        if lock:
            L = LOCK // per * per
        else:
            q = fresh_int('table sectors', 1, BIG // per)
            L = q * per
            if ss == 4096:
                assume(or_(L > LOCK, L + per <= LOCK))
        tab = UF('fat', 1, 0, FREE)
        res = fresh_int('again', 0, BIG)
        again = []
        dcount = fresh_int('difat sectors', 0, BIG)
        fcount = fresh_int('fat sectors', 1, BIG)
        spec = Search(s, J)
        loops.ACTIVE[:] = [[spec]]

        def rec(self):
            again.append(list(self.fat_freelist.items if isinstance(self.fat_freelist, Seq) else self.fat_freelist))
            return res
        c = container(P, ss, next_free_sect=rec, iter_difat=lambda self: self.difat)
        c.fat_freelist = mk('list', items=[])
        c.fat = mk('array', n=L, f=lambda i: tab(i))
        c.difat = s
        c.difat_sector_count, c.difat_sector_start, c.fat_sector_count = dcount, FREE, fcount
        start0 = c.difat_sector_start
        x = fresh_int('x', 0)
        y = fresh_int('y', 0, per - 1)
        ctx().cover('entry')
        r = P.cfb.CompoundFileBinary.next_free_sect(c)
        newdif = len(s.added) > 0
        ctx().cover('with a new location table' if newdif else 'free slot')
        prove(r == res, 'the result of the next attempt')
        prove(len(again) == 1, 'one more attempt')
        fl = again[0]
        # the slot which records the new table sector was free
        prove(len(s.stores) == 1, 'one location is stored')
        t, i, v = s.stores[0]
        prove(v == L, 'the location of the new table sector is stored')
        at, n_ = spec.hits[-1]
        if newdif:
            prove(or_(and_(t == s.T, i < per - 1), and_(at < s.D, t == s.tt(at), i == s.ii(at), s.vv(at) == FREE)), 'in a free slot, never in the link slot')
            prove(implies(J < s.D, s.vv(J) != FREE), 'a location table is added only when no slot is free')
            row = s.added[0]
            prove(len(s.added) == 1 and len(row) == per, 'one location table')
            row = list(row)
            prove(and_(*[row[k] == FREE for k in range(per - 1)]), 'the new table is empty')
            prove(row[-1] == EOC, 'the new table ends the list of tables')
            prove(c.difat_sector_count == dcount + 1, 'location tables counted')
            if len(s.links) == 0:
                prove(and_(dcount == 0, c.difat_sector_start == L + 1), 'the header points at the first location table')
            else:
                prove(and_(dcount != 0, s.links[0] == L + 1, len(s.links) == 1), 'the previous table points at the new one')
                prove(c.difat_sector_start == start0, 'the header is unchanged')
        else:
            prove(and_(t == s.tt(at), i == s.ii(at), s.vv(at) == FREE, at < s.D), 'in a free slot')
            prove(c.difat_sector_count == dcount, 'no location table is added')
            prove(len(s.links) == 0, 'no link changes')
        prove(c.fat_sector_count == fcount + 1, 'table sectors counted')
        prove(c.fat.length() == L + per, 'the table grows by one sector')
        prove(implies(x < L, c.fat.at(x) == tab(x)), 'existing entries are unchanged')
        z = L + y
        special = or_(y == 0, and_(newdif, y == 1), and_(ss == 4096, z == LOCK))
        prove(iff(c.fat.at(z) == FREE, not_(special)), 'exactly the new table sectors and the range lock are taken')
        prove(c.fat.at(L) == FATS, 'the table sector is marked')
        if newdif:
            prove(c.fat.at(L + 1) == DIFS, 'the location table sector is marked')
        want = [k for k in range(per) if not (k == 0 or (newdif and k == 1) or (lock and L + k == LOCK))]
        prove(len(fl) == len(want), 'the free list holds the other new sectors')
        prove(and_(*[a == L + k for a, k in zip(fl, want)]), 'the free list holds exactly the free new sectors, once each')
    return body


class Tables(LoopSpec):
    """tables before this one have been gone through; t is the number of this one"""
    name = 'location tables'
    fn = 'iter_difat'

    def __init__(self, log, V, K): self.log, self.V, self.K = log, V, K
    def match(self, L, env): return L.lazy is not None
    def iteration(self, L, g): self.at, self.n0 = L.idx, len(self.log)

    def state(self, L, g):
        c = [n for n in L.names if isinstance(L.env0.get(n), int) and L.env0[n] == 1]
        return {c[0]: 1 + L.idx} if len(c) == 1 else {}

    def next(self, L, g, env):
        ctx().cover('table')
        got, t = self.log[self.n0:], self.at + 1
        prove(len(got) == self.K - 1, 'every slot of a table except the link')
        prove(and_(*[and_(a[0] == t, a[1] == k, a[2] == self.V(t, k)) for k, a in enumerate(got)]), 'slots of a table in order')
        return g


def iter_difat(ss):
    """every slot of any number of location tables in order, without the link slots"""
    def body(P):
        from pydv import loops
        c = container(P, ss)
        V = UF('loc', 2, 0, FREE)
        T = fresh_int('tables', 0, BIG)
        K = ss // 4
        row = lambda t: [V(t, k) for k in range(109 if isinstance(t, int) and t == 0 else K)]
        c.difat = mk('list', n=T + 1, f=row)
        log = []
        loops.ACTIVE[:] = [[Tables(log, V, K)]]
        ctx().cover('entry')
        for x in c.iter_difat():
            log.append(x)
        ctx().cover('done')
        prove(len(log) == 109, 'slots of the header')
        prove(and_(*[and_(a[0] == 0, a[1] == k, a[2] == V(0, k)) for k, a in enumerate(log)]), 'slots of the header in order')
    return body


# ---------------------------------------------------------------- mini sectors
class MiniWorld(object):
    def __init__(self, P, ss, empty):
        self.ss, self.per = ss, ss // 64
        m = self.m = fresh_int('mini stream sectors', 0, 1 << 24)
        self.M = m * self.per
        l = fresh_int('minifat sectors', 0, 1 << 20)
        self.l = l
        self.L = l * (ss // 4)
        assume(self.M <= self.L)
        self.n = 0 if empty else fresh_int('free', 1, BIG)
        self.K0 = self.n - (self.L - self.M)
        assume(self.K0 >= 0)
        self.fl_f, self.tab = UF('freelist', 1, 0, BIG), UF('minifat', 1, 0, FREE)
        self.grown = []

    def fl(self, k):
        v = self.fl_f(k)
        assume(implies(and_(k >= 0, k < self.n), and_(v < self.L, self.tab(v) == FREE,
                                                     implies(k < self.K0, v < self.M), implies(k >= self.K0, v == self.M + k - self.K0))))
        return v


def mini_take(ss):
    def body(P):
        w = MiniWorld(P, ss, False)

        def growms(self):
            # contract: the mini stream gets one sector longer
            w.grown.append(1)
            self.mini_stream_chain = mk('list', n=w.m + 1, f=lambda i: 0)
        c = container(P, ss, mini_stream_grow=growms)
        c.mini_stream_chain = mk('list', n=w.m, f=lambda i: 0)
        c.minifat_freelist = mk('list', n=w.n, f=w.fl)
        c.minifat = mk('array', n=w.L, f=lambda i: w.tab(i))
        k, x = fresh_int('k', 0), fresh_int('x', 0)
        assume(and_(k < w.n - 1, x < w.L))
        assume(w.fl(k + 1) != w.fl(0))
        ctx().cover('entry')
        r = P.cfb.CompoundFileBinary.next_free_minifat_sect(c)
        ctx().cover('grown' if w.grown else 'inside')
        M2 = (w.m + len(w.grown)) * w.per
        prove(len(w.grown) <= 1, 'at most one sector is added to the mini stream')
        prove(r == w.fl(0), 'the mini sector comes from the free list')
        prove(c.minifat.at(r) == FREE, 'the mini sector was free')
        prove(c.minifat.at(x) == w.tab(x), 'the table is unchanged')
        prove(c.minifat_freelist.length() == w.n - 1, 'one entry leaves the free list')
        prove(c.minifat_freelist.at(k) == w.fl(k + 1), 'the first entry leaves the free list')
        prove(c.minifat_freelist.at(k) != r, 'the mini sector is not in the free list any more')
        prove(r < M2, 'the mini sector lies inside the mini stream')
        prove(implies(w.grown == [], w.fl(0) < w.M), 'the mini stream grows when needed')
        K2 = (w.n - 1) - (w.L - M2)
        prove(and_(K2 >= 0, M2 <= w.L), 'MINI: shape')
        v = c.minifat_freelist.at(k)
        prove(implies(k < K2, v < M2), 'MINI: entries inside the mini stream first')
        prove(implies(k >= K2, v == M2 + k - K2), 'MINI: then the rest in order')
    return body


def mini_table(ss):
    per = ss // 4

    def body(P):
        w = MiniWorld(P, ss, True)
        res, sid = fresh_int('again', 0, BIG), fresh_int('new sector', 0, BIG)
        again = []

        def rec(self):
            f = self.minifat_freelist
            again.append(list(f.items if isinstance(f, Seq) else f))
            return res
        c = container(P, ss, next_free_minifat_sect=rec, next_free_sect=lambda self: sid)
        c.mini_stream_chain = mk('list', n=w.m, f=lambda i: 0)
        c.minifat_freelist = mk('list', items=[])
        c.minifat = mk('array', n=w.L, f=lambda i: w.tab(i))
        ch = UF('minifat chain', 1, 0, BIG)
        c.minifat_chain = mk('list', n=w.l, f=lambda i: ch(i))
        c.minifat_sector_count, c.minifat_sector_start = w.l, FREE
        start0 = fresh_int('start', 0, BIG)
        if w.l > 0:
            c.minifat_sector_start = start0
        n = fresh_int('len', 0, BIG)
        tab = UF('fat', 1, 0, FREE)
        c.fat = mk('array', n=n, f=lambda i: tab(i))
        # INV: sid is free, the table sectors of the minifat are not
        assume(and_(sid < n, tab(sid) == FREE))
        last = ch(w.l - 1)
        assume(implies(w.l > 0, and_(last < n, tab(last) != FREE)))
        x, y, k = fresh_int('x', 0), fresh_int('y', 0, per - 1), fresh_int('k', 0)
        ctx().cover('entry')
        r = P.cfb.CompoundFileBinary.next_free_minifat_sect(c)
        prove(r == res and len(again) == 1, 'the result of the next attempt')
        fl = again[0]
        prove(len(fl) == per, 'as many free mini sectors as a table sector describes')
        prove(and_(*[a == w.L + j for j, a in enumerate(fl)]), 'MINI: exactly the new mini sectors in order')
        prove(c.minifat.length() == w.L + per, 'the table grows by one sector')
        prove(implies(x < w.L, c.minifat.at(x) == w.tab(x)), 'existing entries are unchanged')
        prove(c.minifat.at(w.L + y) == FREE, 'new entries are free')
        prove(c.minifat_sector_count == w.l + 1, 'table sectors counted')
        prove(c.minifat_chain.length() == w.l + 1, 'one table sector more')
        prove(implies(k < w.l, c.minifat_chain.at(k) == ch(k)), 'existing table sectors stay')
        prove(c.minifat_chain.at(w.l) == sid, 'the new sector is the last table sector')
        prove(c.fat.at(sid) == EOC, 'the new sector ends the chain')
        if w.l == 0:
            ctx().cover('first')
            prove(c.minifat_sector_start == sid, 'the header points at the first table sector')
            prove(implies(and_(x < n, x != sid), c.fat.at(x) == tab(x)), 'no other entry changes')
        else:
            ctx().cover('next')
            prove(c.minifat_sector_start == start0, 'the header is unchanged')
            prove(c.fat.at(last) == sid, 'the chain continues at the new sector')
            prove(implies(and_(x < n, x != sid, x != last), c.fat.at(x) == tab(x)), 'no other entry changes')
    return body


def ministream_grow(P):
    for ss in (512, 4096):
        sid = fresh_int('new sector', 0, BIG)
        m, n = fresh_int('mini stream sectors', 0, BIG), fresh_int('len', 0, BIG)
        tab, ch = UF('fat', 1, 0, FREE), UF('chain', 1, 0, BIG)
        c = container(P, ss, next_free_sect=lambda self: sid)
        c.mini_stream_chain = mk('list', n=m, f=lambda i: ch(i))
        c.fat = mk('array', n=n, f=lambda i: tab(i))

        class Root(object):
            sector_id = None
        c.root = Root()
        first = ch(0)
        if m > 0:
            c.root.sector_id = first
        last = ch(m - 1)
        assume(and_(sid < n, tab(sid) == FREE, implies(m > 0, and_(last < n, tab(last) != FREE))))
        x, k = fresh_int('x', 0), fresh_int('k', 0)
        ctx().cover('entry')
        c.mini_stream_grow()
        ms = seqof(c.mini_stream_chain)
        prove(ms.length() == m + 1, 'one sector more')
        prove(implies(k < m, ms.at(k) == ch(k)), 'existing sectors stay')
        prove(ms.at(m) == sid, 'the new sector is last')
        prove(c.fat.at(sid) == EOC, 'the new sector ends the chain')
        if m == 0:
            prove(c.root.sector_id == sid, 'the root entry points at the first sector')
            prove(implies(and_(x < n, x != sid), c.fat.at(x) == tab(x)), 'no other entry changes')
        else:
            prove(c.root.sector_id == first, 'the root entry is unchanged')
            prove(c.fat.at(last) == sid, 'the chain continues at the new sector')
            prove(implies(and_(x < n, x != sid, x != last), c.fat.at(x) == tab(x)), 'no other entry changes')


# ---------------------------------------------------------------- chains
def append(minifat):
    def body(P):
        sid = fresh_int('new sector', 0, BIG)
        n, T = fresh_int('len', 0, BIG), fresh_int('chain length', 1, BIG)
        tab, oth, ch = UF('table', 1, 0, FREE), UF('other', 1, 0, FREE), UF('chain', 1, 0, BIG)
        last = ch(T - 1)
        assume(and_(sid < n, tab(sid) == FREE, last < n, tab(last) == EOC))
        asked = []

        def wrong(self):
            prove(False, 'allocates in the other area')
            return sid

        def chain(self, first, mini=False):
            asked.append((first, mini))
            return mk('list', n=T, f=lambda i: ch(i))
        over = dict(next_free_sect=wrong if minifat else lambda self: sid, next_free_minifat_sect=(lambda self: sid) if minifat else wrong,
                    get_fat_chain=chain)
        c = container(P, 512, **over)
        t, o = mk('array', n=n, f=lambda i: tab(i)), mk('array', n=n, f=lambda i: oth(i))
        c.fat, c.minifat = (o, t) if minifat else (t, o)
        x = fresh_int('x', 0)
        assume(x < n)
        start = ch(0)
        if fresh_bool('new chain'):
            start = None
        ctx().cover('entry')
        r = c.fat_chain_append(start, minifat)
        prove(r == sid, 'the sector allocated')
        prove(t.at(sid) == EOC, 'it ends the chain')
        prove(o.at(x) == oth(x), 'the other table is unchanged')
        if start is None:
            ctx().cover('new')
            prove(implies(x != sid, t.at(x) == tab(x)), 'no other entry changes')
        else:
            ctx().cover('extended')
            prove(len(asked) == 1 and asked[0][0] == start and bool(asked[0][1]) == minifat, 'the chain given')
            prove(t.at(last) == sid, 'the end of the chain continues at the new sector')
            prove(implies(and_(x != sid, x != last), t.at(x) == tab(x)), 'no other entry changes')
    return body


class Freeing(LoopSpec):
    """the first i sectors of the chain are free and in the list, the others untouched"""
    name = 'freeing'
    fn = 'free_fat_chain'

    def __init__(self, c, tab, lst, T, ch, t0, f0, n0, x, j):
        self.c, self.tab, self.lst, self.T, self.ch, self.t0, self.f0, self.n0, self.x, self.j = c, tab, lst, T, ch, t0, f0, n0, x, j

    def ghost0(self, L, env): return dict(t=self.tab.snapshot(), f=self.lst.snapshot())

    def fresh(self, L):
        t, f = UF('table_i', 1, 0, FREE), UF('list_i', 1, 0, FREE)
        return dict(t=mk('array', n=self.tab.length(), f=lambda k: t(k)), f=mk('list', n=self.n0 + fresh_int('grown', 0), f=lambda k: f(k)))

    def constraint(self, L, g):
        i, x, j = L.idx, self.x, self.j
        inch = and_(j >= 0, j < self.T, x == self.ch(j))
        # x is ch(j) when it is in the chain at all (j: its place), else j is out of range
        return [g['t'].at(x) == ite(and_(inch, j < i), FREE, self.t0(x)),
                g['f'].length() == self.n0 + i,
                implies(and_(j >= 0, j < i), g['f'].at(i - 1 - j) == self.ch(j)),
                implies(and_(self.k >= 0, self.k < self.n0), g['f'].at(i + self.k) == self.f0(self.k))]

    def state(self, L, g):
        return {At(self.tab): Val(g['t'], lambda cur: True), At(self.lst): Val(g['f'], lambda cur: True)}

    def next(self, L, g, env): return dict(t=self.tab.snapshot(), f=self.lst.snapshot())

    def iteration(self, L, g):
        # x is in the chain only at place j (INV: sectors of a chain are distinct)
        assume(implies(and_(L.idx < self.T, self.ch(L.idx) == self.x), L.idx == self.j))
        assume(implies(and_(L.idx < self.T), self.ch(L.idx) < self.tab.length()))


def free(minifat):
    def body(P):
        from pydv import loops
        T, n, n0 = fresh_int('chain length', 0, BIG), fresh_int('len', 0, BIG), fresh_int('free', 0, BIG)
        tab, oth, ch, fl = UF('table', 1, 0, FREE), UF('other', 1, 0, FREE), UF('chain', 1, 0, BIG), UF('freelist', 1, 0, BIG)
        start = ch(0)
        if not (T > 0):
            start = None
        asked = []

        def chain(self, first, mini=False):
            asked.append((first, mini))
            return mk('list', n=T, f=lambda i: ch(i))
        c = container(P, 512, get_fat_chain=chain)
        t, o = mk('array', n=n, f=lambda i: tab(i)), mk('array', n=n, f=lambda i: oth(i))
        l, lo = mk('list', n=n0, f=lambda i: fl(i)), mk('list', n=3, f=lambda i: fl(i + 7))
        c.fat, c.minifat = (o, t) if minifat else (t, o)
        c.fat_freelist, c.minifat_freelist = (lo, l) if minifat else (l, lo)
        x, j, k = fresh_int('x', 0), fresh_int('j', -1), fresh_int('k', 0)
        assume(x < n)
        assume(or_(j == -1, and_(j < T, x == ch(j))))       # j: the place of x in the chain, or -1
        spec = Freeing(c, t, l, T, ch, tab, fl, n0, x, j)
        spec.k = k
        loops.ACTIVE[:] = [[spec]]
        ctx().cover('entry')
        c.free_fat_chain(start, minifat)
        ctx().cover('done')
        prove(len(asked) == 1 and (asked[0][0] is None if start is None else asked[0][0] == start) and bool(asked[0][1]) == minifat, 'the chain given')
        prove(implies(j >= 0, t.at(x) == FREE), 'every sector of the chain is free')
        prove(implies(j < 0, t.at(x) == tab(x)), 'no other sector changes')
        prove(l.length() == n0 + T, 'the free list grows by the chain')
        prove(implies(and_(j >= 0, j < T), l.at(T - 1 - j) == ch(j)), 'every sector of the chain is in the free list')
        prove(implies(k < n0, l.at(T + k) == fl(k)), 'the old entries stay behind, in order (keeps MINI)')
        prove(o.at(x) == oth(x), 'the other table is unchanged')
        prove(lo.length() == 3, 'the other free list is unchanged')
    return body


def dir_ids(P):
    """directory entries: a free id, or the ids of one new directory sector"""
    for ss in (512, 4096):
        per = ss // 128
        D, sid, res = fresh_int('dir sectors', 1, 1 << 20), fresh_int('new sector', 0, BIG), fresh_int('again', 0, BIG)
        ch, fl = UF('dir chain', 1, 0, BIG), UF('freelist', 1, 0, BIG)
        n = fresh_int('free', 1, BIG)
        asked, again = [], []

        def append(self, first, minifat=False):
            asked.append((first, minifat))
            return sid

        def rec(self):
            again.append(list(self.dir_freelist.items if isinstance(self.dir_freelist, Seq) else self.dir_freelist))
            return res
        c = container(P, ss, fat_chain_append=append, next_free_dir_id=rec)
        c.f = None
        c.dir_fat_chain = mk('list', n=D, f=lambda i: ch(i))
        c.dir_sector_count = D
        k = fresh_int('k', 0)
        ctx().cover('entry')
        if fresh_bool('some free'):
            c.dir_freelist = mk('list', n=n, f=lambda i: fl(i))
            r = P.cfb.CompoundFileBinary.next_free_dir_id(c)
            prove(r == fl(0), 'a free id')
            prove(c.dir_freelist.length() == n - 1, 'leaves the free list')
            prove(implies(k < n - 1, c.dir_freelist.at(k) == fl(k + 1)), 'the others stay')
            prove(not asked and not again, 'nothing is allocated')
        else:
            c.dir_freelist = mk('list', items=[])
            r = P.cfb.CompoundFileBinary.next_free_dir_id(c)
            prove(r == res and len(again) == 1, 'the result of the next attempt')
            prove(len(asked) == 1 and asked[0][0] == ch(D - 1) and not asked[0][1], 'the directory chain grows at its end')
            dc = seqof(c.dir_fat_chain)
            prove(dc.length() == D + 1, 'one directory sector more')
            prove(implies(k < D, dc.at(k) == ch(k)), 'existing sectors stay')
            prove(dc.at(D) == sid, 'the new sector is last')
            prove(c.dir_sector_count == D + 1, 'directory sectors counted')
            prove(len(again[0]) == per, 'as many new ids as a sector holds')
            prove(and_(*[a == D * per + i for i, a in enumerate(again[0])]), 'exactly the ids of the new sector')


class GEntry(object):
    def __init__(self, typ, size, sid, child=None):
        self.type, self.byte_size, self.sector_id, self.child_id, self.class_id = typ, size, sid, child, None
        self.popped = 0

    def isfile(self): return self.type == 'stream'
    def isdir(self): return self.type != 'stream'
    def pop(self): self.popped += 1


def releases(P):
    """removing or overwriting a stream frees its chain once, in the area its size selects"""
    def setup(typ='stream', child=None):
        size = fresh_int('size', 0, 1 << 40)
        sid = fresh_int('first', 0, BIG)
        e = GEntry(typ, size, sid, child)
        log, ids = [], []
        c = container(P, 4096, find=lambda self, p: e, free_fat_chain=lambda self, s, m=False: log.append((s, m)),
                      free_dir_entry=lambda self, x: ids.append(x))
        return c, e, size, sid, log, ids
    ctx().cover('entry')
    c, e, size, sid, log, ids = setup()
    c.remove('/x')
    prove(len(log) == 1, 'remove: frees once')
    prove(and_(log[0][0] == sid, iff(log[0][1], size < 4096)), 'remove: the chain of the stream in its area')
    prove(len(ids) == 1 and ids[0] is e and e.popped == 1, 'remove: the entry is unlinked and its id is free')
    c, e, size, sid, log, ids = setup('storage')
    c.remove('/x')
    prove(len(log) == 0 and len(ids) == 1 and e.popped == 1, 'remove: a storage has no chain')
    c, e, size, sid, log, ids = setup('storage', 5)
    try:
        c.remove('/x')
        prove(False, 'remove: refuses a storage with children')
    except ValueError:
        prove(len(log) == 0 and len(ids) == 0 and e.popped == 0, 'remove: nothing changes when refused')
    c, e, size, sid, log, ids = setup()
    c.get_fat_chain = None
    s = c.open('/x', 'w')
    prove(len(log) == 1, 'open w: frees once')
    prove(and_(log[0][0] == sid, iff(log[0][1], size < 4096)), 'open w: the chain of the stream in its area')
    prove(e.sector_id is None and e.byte_size == 0, 'open w: the stream is empty')
    # a whole tree, bottom up
    size1, size2 = fresh_int('size1', 0, 1 << 40), fresh_int('size2', 0, 1 << 40)
    a, b = GEntry('stream', size1, fresh_int('f1', 0, BIG)), GEntry('stream', size2, fresh_int('f2', 0, BIG))
    d, top = GEntry('storage', 0, None, 3), GEntry('storage', 0, None, 4)
    log, ids, rem = [], [], []
    c = container(P, 4096, walk=lambda self, p, topdown=True: iter([(d, [], [b]), (top, [d], [a])]) if not topdown else None,
                  free_fat_chain=lambda self, s, m=False: log.append((s, m)), free_dir_entry=lambda self, x: ids.append(x),
                  remove=lambda self, p: rem.append(p))
    c.rmtree('/top')
    prove(len(log) == 2, 'rmtree: frees each stream once')
    for (s, m), e in zip(log, (b, a)):
        prove(and_(s == e.sector_id, iff(m, e.byte_size < 4096)), 'rmtree: the chain of the stream in its area')
    prove([x for x in ids] == [b, a, d] or sorted(map(id, ids)) == sorted(map(id, [a, b, d])), 'rmtree: every entry id below is free')
    prove(rem == ['/top'] and d.child_id is None and top.child_id is None, 'rmtree: the emptied storage is removed')


# ---------------------------------------------------------------- concrete
def gen(rng, i):
    from specs import cfbhist as H
    ss = rng.choice([512, 4096])
    n = rng.choice([1, 2, 4, 8, 20])
    paths = ['/s%d' % k for k in range(n)]
    if rng.random() < .4:
        paths += ['/d/s%d' % k for k in range(3)]
    ops = []
    if '/d/s0' in paths:
        ops.append(['makedir', '/d'])
    for p in paths:
        if rng.random() < .8:
            ops.append(['write', p, H.size(rng), rng.randrange(1 << 20)])
    ops += H.stream_ops(rng, paths, rng.choice([4, 10, 25]))
    if '/d' in [o[1] for o in ops if len(o) > 1] and rng.random() < .5:
        ops.insert(rng.randrange(len(ops)), ['rmtree', '/d'])
        ops.append(['makedir', '/d'])
    if rng.random() < .3:
        ops.append(['reopen'])
        ops += H.stream_ops(rng, paths, 6)
    if i % 40 == 13 and ss == 512:
        # grow past several table sectors
        ops.insert(len(paths) // 2, ['write', paths[0], rng.choice([70000, 200000, 600000]), 5])
    if i % 50 == 21:
        ops = [['write', '/big', rng.choice([7300000, 7180000]) if ss == 512 else 5000000, 3]] + ops
    return dict(ss=ss, ops=ops)


def shrink(inp):
    for o in drop_chunks(inp['ops']):
        yield dict(inp, ops=o)


def check(inp):
    plain()
    from specs import cfbhist as H
    box = H.Box(inp['ss'])
    big = any(o[0] == 'write' and o[2] > 100000 for o in inp['ops'])

    def each(b, op):
        if op[0] != 'read' and op[0] != 'seek' and not (big and op[0] == 'open'):
            b.check_tables()
    try:
        H.run_ops(box, inp['ops'], each)
        box.check_tables()
        box.check_streams()
    except H.Wrong as e:
        return str(e)
    return None


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check, 250, 30000, tlimit=60, shrink=shrink)


def gen_lock(rng, i):
    if i > 1:
        return None
    return dict(free=bool(i), count=rng.choice([3, 40]))


def check_lock(inp):
    """allocation around the range lock sector of a 2 GB file (the file is sparse)"""
    plain()
    from array import array
    from aaf2 import cfb
    from specs.common import tmpfile
    with tmpfile() as f:
        s = cfb.CompoundFileBinary(f, 'wb+', 4096)
        LK, per = 524286, 1024
        # pretend all sectors below are taken: the table is full up to LK's table sector
        n = LK // per * per
        s.fat = array('I', [EOC]) * n
        s.fat_freelist = []
        if inp['free']:
            s.fat = array('I', [EOC]) * (n + per)
            for k in range(LK - 2, LK + 2):
                s.fat[k] = FREE
            s.fat_freelist = list(range(LK - 2, LK + 2))
        d = [[5] * 109]
        left = len(s.fat) // per - 109
        while left > 0:
            d.append([7] * min(left, per - 1) + [FREE] * (per - 1 - min(left, per - 1)) + [EOC])
            left -= per - 1
        s.difat = d
        s.difat_sector_count, s.difat_sector_start = len(d) - 1, 9
        got = []
        for k in range(inp['count'] if not inp['free'] else 20):
            got.append(s.fat_chain_append(None))
        for _ in range(1100 if not inp['free'] else 0):
            got.append(s.fat_chain_append(None))
        if LK in got:
            return 'the range lock sector was allocated'
        if len(set(got)) != len(got):
            return 'a sector was allocated twice'
        if s.fat[LK] != EOC:
            return 'the range lock sector is marked %x' % s.fat[LK]
        for x in got:
            if s.fat[x] != EOC:
                return 'sector %d is not the end of its chain' % x
    return None


def run_lock(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_lock, check_lock, 2, 2, tlimit=60)


def rep(m, name):
    rng = random.Random(11)
    for i in range(120):
        inp = gen(rng, i)
        r = guarded(check, inp, 30)
        if r:
            return '%s on %s' % (r, str(inp)[:600])
    for i in range(2):
        r = guarded(check_lock, dict(free=bool(i), count=40), 60)
        if r:
            return r
    return None


F = 'cfb.CompoundFileBinary.'
UNITS = []
for ss_ in (512, 4096):
    UNITS.append(Unit('next_free_sect, from the list, %d' % ss_, take(ss_), [F + 'next_free_sect'], rep,
                      covers=['entry', 'given'] + (['range lock'] if ss_ == 4096 else [])))
    for lk_ in ((False, True) if ss_ == 4096 else (False,)):
        UNITS.append(Unit('next_free_sect, growing, %d%s' % (ss_, ' at the range lock' if lk_ else ''), grow(ss_, lk_), [F + 'next_free_sect'], rep,
                          covers=['entry', 'free slot', 'with a new location table'], timeout=300))
    UNITS.append(Unit('next_free_minifat_sect, from the list, %d' % ss_, mini_take(ss_), [F + 'next_free_minifat_sect'], rep, covers=['entry', 'grown', 'inside']))
    UNITS.append(Unit('next_free_minifat_sect, growing, %d' % ss_, mini_table(ss_), [F + 'next_free_minifat_sect'], rep, covers=['entry', 'first', 'next']))
UNITS += [Unit('iter_difat, %d' % ss_, iter_difat(ss_), [F + 'iter_difat'], rep, covers=['entry', 'table', 'done']) for ss_ in (512, 4096)]
UNITS += [
          Unit('mini_stream_grow', ministream_grow, [F + 'mini_stream_grow'], rep, covers=['entry']),
          Unit('fat_chain_append', append(False), [F + 'fat_chain_append'], rep, covers=['entry', 'new', 'extended']),
          Unit('fat_chain_append mini', append(True), [F + 'fat_chain_append'], rep, covers=['entry', 'new', 'extended']),
          Unit('free_fat_chain', free(False), [F + 'free_fat_chain'], rep, covers=['entry', 'done']),
          Unit('free_fat_chain mini', free(True), [F + 'free_fat_chain'], rep, covers=['entry', 'done']),
          Unit('next_free_dir_id', dir_ids, [F + 'next_free_dir_id'], rep, covers=['entry']),
          Unit('remove, overwrite, rmtree', releases, [F + 'remove', F + 'rmtree', F + 'open'], rep, covers=['entry'])]
BOUNDED = [Bounded('histories', run, 'up to 23 streams in two storages, up to 60 operations with sizes around every boundary, growth past the 109 header slots; '
                   'after every change the tables, free lists and chains of the live container are checked for single ownership',
                   ['cfb.CompoundFileBinary', 'cfb.Stream'], check, shards=7, budget=16),
           Bounded('range lock', run_lock, 'allocation across the range lock sector with 4096 byte sectors, growing into it and finding it free', [F + 'next_free_sect'],
                   check_lock, shards=1, budget=10)]
ASSUMPTIONS = ['get_fat_chain returns the linked sectors in order (P06) and fails on corrupt tables',
               'Stream.truncate and Stream.allocate call the allocator as proved in P01',
               'the file being opened satisfies INV and MINI (any well formed file does); read_fat and read_minifat are covered by the bounded histories',
               'fewer than 2^31 sectors']
LEVEL = 'proof'
