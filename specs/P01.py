"""P01: a stream is a byte array with a cursor.

Deductive part.  A stream is described by its size B, its chain of sectors
chain(0..N-1) (mini sectors: positions inside the mini stream, whose own
sectors are mc(0..)) and the bytes of the file disk(x).  Its contents are

    content(j) = disk(addr(j)),   0 <= j < B

with addr(j) the file position the container format prescribes.  read() and
write() are proved against this for every size, chain, cursor, length and
data with loop invariants (no bound on the number of sectors); seek(),
allocate() and truncate() are proved against the contracts of read(), write()
and the sector allocator."""
import io
import random
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec, Val, At
from pydv.seq import mk, prove_eq, lazy_bytes, MView, Seq, seqof
from pydv.runner import Unit, Bounded, plain
from specs.common import drive, drop_chunks, Mem, guarded

CUT = 4096
MAXB = 1 << 40


class Disk(object):
    """the file: a byte at every position"""

    def __init__(self, w):
        self.w = w
        self.byte = UF('disk', 1, 0, 255)
        self.at = self.byte
        self.pos = None

    def seek(self, p, *a):
        self.pos = p

    def write(self, data):
        s = seqof(data).snapshot()
        p, n, old = self.pos, s.length(), self.at
        self.w.on_write(p, n, s)
        self.at = lambda x: ite(and_(x >= p, x < p + n), s.at(x - p), old(x))
        self.pos = p + n


class World(object):
    """one stream in a container with arbitrary contents"""
    real_sectors = False

    def __init__(self, P, S, mini, slack=True):
        self.P, self.S, self.mini = P, S, mini
        self.SS = 64 if mini else S
        self.B = fresh_int('size', 0, CUT - 1) if mini else fresh_int('size', CUT, MAXB)
        self.N = fresh_int('sectors', 0, MAXB)
        assume(self.N * self.SS >= self.B)
        self.M = fresh_int('mini stream sectors', 0, MAXB)
        self.chain_f = UF('chain', 1, 0, 0xfffffffb)
        self.mc_f = UF('mini_chain', 1, 0, 0xfffffffb)
        self.f = Disk(self)
        self.writes = []
        self.pos = fresh_int('pos', 0, MAXB)
        self.new_stream()

    # ---- the container as the stream sees it
    def new_stream(self):
        st = self.st = GStorage()
        st.w = self
        st.sector_size, st.mini_stream_sector_size, st.min_stream_max_size = self.S, 64, CUT
        st.f = self.f
        st.mini_stream_chain = mk('list', n=self.M, f=lambda i: self.mc_f(i))
        st.sector_cache = GCache(self)
        d = self.dir = GDir()
        d.type, d.byte_size, d.sector_id = 'stream', self.B, self.chain(0)
        s = self.s = self.P.cfb.Stream.__new__(self.P.cfb.Stream)
        s.storage, s.dir, s.mode, s.pos = st, d, 'rw', self.pos
        s.fat_chain = mk('list', n=self.N, f=self.chain)

    def chain(self, i):
        v = self.chain_f(i)
        if self.mini:
            # every mini sector in use lies inside the mini stream (P02)
            assume(implies(and_(i >= 0, i < self.N), v * 64 // self.S < self.M))
        return v

    def addr(self, j):
        """file position of byte j of the stream (container format)"""
        if self.mini:
            p = self.chain(j // 64) * 64 + j % 64
            return (self.mc_f(p // self.S) + 1) * self.S + p % self.S
        return (self.chain(j // self.S) + 1) * self.S + j % self.S

    def distinct(self, i, j):
        """no sector is in the chain twice (P02)"""
        a, b = self.chain(i), self.chain(j)
        assume(implies(and_(i >= 0, j >= 0, i < self.N, j < self.N, a == b), i == j))
        if self.mini:
            x, y = a * 64 // self.S, b * 64 // self.S
            assume(implies(and_(x >= 0, y >= 0, x < self.M, y < self.M, self.mc_f(x) == self.mc_f(y)), x == y))

    def content(self, j):
        return self.f.at(self.addr(j))

    def on_write(self, p, n, s):
        pass


class GStorage(object):
    def read_sector_data(self, sid):
        w, S = self.w, self.w.S
        at = w.f.at
        return mk('bytearray', n=S, f=lambda k: at((sid + 1) * S + k))


class GDir(object):
    pass


class GCache(object):
    """sector cache: `in_(sid)` tells what it holds; the entry of the ghost sector C is followed"""

    def __init__(self, w):
        self.C = fresh_int('ghost sector', 0, 0xfffffffb)
        self.has = fresh_bool('ghost sector cached')
        self.other = UF('cached', 1, boolean=True)

    def __contains__(self, sid):
        raise Unsupported('cache membership by CPython')

    def pv_contains(self, sid):
        return ite(sid == self.C, self.has, self.other(sid))

    def __delitem__(self, sid):
        self.has = and_(self.has, sid != self.C)


# ---------------------------------------------------------------- read
class ReadLoop(LoopSpec):
    name = 'copy'
    fn = 'Stream.read'

    def __init__(self, w, k):
        self.w, self.k = w, k

    def match(self, L, env):
        return all(x in env for x in ('result', 'mv', 'bytes_to_read', 'index' if not self.w.mini else 'mini_fat_index'))

    def vars(self):
        return ('mini_fat_index', 'mini_sector_offset') if self.w.mini else ('index', 'start_offset')

    def ghost0(self, L, env):
        i, o = self.vars()
        if self.w.mini:
            if env['sector_data'] is None:
                prove(env['prev_sid'] == -1, 'copy:base:no sector read yet')
            else:
                prove_eq(env['sector_data'], self.w.st.read_sector_data(env['prev_sid']), 'copy:base:the sector read last')
        return dict(t=0, i=env[i], o=env[o])

    def fresh(self, L):
        g = dict(t=fresh_int('t', 0), i=fresh_int('i', 0), o=fresh_int('o', 0))
        if self.w.mini:
            g['prev'] = fresh_int('prev', -1)
        return g

    def constraint(self, L, g):
        w, t = self.w, g['t']
        q = w.pos + t
        return [t >= 0, t <= self.k, implies(t < self.k, and_(g['i'] == q // w.SS, g['o'] == q % w.SS))]

    def state(self, L, g):
        w, t, k = self.w, g['t'], self.k
        i, o = self.vars()
        res = L.env0['result']
        if 'old' not in g:
            g['old'] = UF('rest', 1, 0, 255)
        old = g['old']
        st = {(w.s, 'pos'): w.pos + t, 'bytes_to_read': k - t, i: g['i'], o: g['o'],
              At(res): Val(mk('bytearray', n=k, f=lambda j: ite(j < t, w.content(w.pos + j), old(j))),
                           lambda cur: self.same(cur, t))}
        st['mv'] = Val(MView(res, t, k - t), lambda cur: and_(cur.base is res, cur.off == t, cur.n == k - t))
        if w.mini:
            p = g.get('prev')
            data = w.st.read_sector_data(p) if p is not None else None
            st['prev_sid'] = Val(p, lambda cur: True)
            st['sector_data'] = Val(data, lambda cur: True)
        return st

    def same(self, cur, t):
        j = fresh_int('j', 0)
        return and_(cur.length() == self.k, implies(j < t, cur.at(j) == self.w.content(self.w.pos + j)))

    def next(self, L, g, env):
        i, o = self.vars()
        w = self.w
        if w.mini:
            # sector_data is the current contents of sector prev_sid
            prove_eq(env['sector_data'], w.st.read_sector_data(env['prev_sid']), 'copy:step:the sector read last')
        return dict(t=w.s.pos - w.pos, i=env[i], o=env[o], old=g['old'])

    def measure(self, L, g):
        return self.k - g['t']


def read(S, mini, all_):
    def body(P):
        from pydv import loops
        w = World(P, S, mini)
        n = -1 if all_ else fresh_int('n', 0, MAXB)
        left = w.B - w.pos
        k = ite(left < 0, 0, left)
        if not all_:
            k = ite(n < k, n, k)
        loops.ACTIVE[:] = [[ReadLoop(w, k)]]
        ctx().cover('entry')
        r = w.s.read(n)
        ctx().cover('done')
        prove_eq(r, mk('bytearray', n=k, f=lambda j: w.content(w.pos + j)), 'exactly the bytes of the stream, short only at the end')
        prove(w.s.pos == w.pos + k, 'the cursor moves by the bytes read')
        prove(w.dir.byte_size == w.B, 'the size is unchanged')
    return body


# ---------------------------------------------------------------- write
class WriteWorld(World):
    def __init__(self, P, S, mini, grow):
        World.__init__(self, P, S, mini)
        self.n = fresh_int('len', 0, MAXB)
        self.data = lazy_bytes('data', self.n)
        if grow:
            # before: any smaller size; allocate() brings the stream to the state described by this world
            self.B0 = fresh_int('old size', 0, MAXB)
            assume(and_(self.B0 < self.B, self.pos <= self.B0, self.pos + self.n == self.B))
            self.dir.byte_size = self.B0
            self.st.mini_stream_chain = Gone()
            self.s.fat_chain = Gone()
        else:
            self.B0 = self.B
            assume(and_(self.pos <= self.B, self.pos + self.n <= self.B))
        self.disk0 = self.f.at
        self.J = fresh_int('J', 0, MAXB)         # an arbitrary byte of the stream
        assume(self.J < self.B)
        self.X = fresh_int('X', 0)               # a byte of the file no written byte of the stream lies at
        c = self.st.sector_cache
        self.has0 = c.has
        r = fresh_int('r', 0, S - 1)
        self.Y = (c.C + 1) * S + r               # a byte of the ghost cached sector

    def on_write(self, p, n, s):
        now = self.s.pos
        self.distinct(self.J // self.SS, now // self.SS)
        j = now + (self.X - p)
        assume(implies(and_(j >= self.pos, j < self.pos + self.n), self.addr(j) != self.X))

    def facts(self, disk, has, t):
        J, p = self.J, self.pos
        inside = and_(J >= p, J < p + t)
        return [disk(self.addr(J)) == ite(inside, self.data.at(J - p), self.disk0(self.addr(J))),
                disk(self.X) == self.disk0(self.X),
                implies(has, and_(self.has0, disk(self.Y) == self.disk0(self.Y)))]


class Gone(object):
    """state which allocate() replaces: must not be used before"""


class WriteLoop(LoopSpec):
    name = 'store'
    fn = 'Stream.write'

    def __init__(self, w): self.w = w

    def vars(self):
        return ('mini_fat_index', 'mini_sector_offset') if self.w.mini else ('index', 'sid_offset')

    def match(self, L, env):
        return 'mv' in env and 'data_size' in env and self.vars()[0] in env

    def ghost0(self, L, env):
        i, o = self.vars()
        return dict(t=0, i=env[i], o=env[o], disk=self.w.f.at, has=self.w.st.sector_cache.has)

    def fresh(self, L):
        return dict(t=fresh_int('t', 0), i=fresh_int('i', 0), o=fresh_int('o', 0), disk=UF('disk_t', 1, 0, 255), has=fresh_bool('has_t'))

    def constraint(self, L, g):
        w, t = self.w, g['t']
        q = w.pos + t
        return [t >= 0, t <= w.n, implies(t < w.n, and_(g['i'] == q // w.SS, g['o'] == q % w.SS))] + w.facts(g['disk'], g['has'], t)

    def state(self, L, g):
        w, t = self.w, g['t']
        i, o = self.vars()
        mv = L.env0['mv']
        n = w.n
        return {(w.s, 'pos'): w.pos + t, 'data_size': n - t, i: g['i'], o: g['o'],
                (w.f, 'at'): Val(g['disk'], lambda cur: True), (w.st.sector_cache, 'has'): g['has'],
                'mv': Val(MView(mv.base, mv.off + t, n - t),
                          lambda cur: and_(cur.base is mv.base, cur.off == mv.off + t, cur.n == n - t))}

    def next(self, L, g, env):
        i, o = self.vars()
        w = self.w
        return dict(t=w.s.pos - w.pos, i=env[i], o=env[o], disk=w.f.at, has=w.st.sector_cache.has)

    def measure(self, L, g):
        return self.w.n - g['t']


def write(S, mini, grow):
    def body(P):
        from pydv import loops
        w = WriteWorld(P, S, mini, grow)
        loops.ACTIVE[:] = [[WriteLoop(w)]]
        calls = []

        class S_(P.cfb.Stream):
            __slots__ = ()

            def allocate(self, size):
                # contract of allocate(): proved in the units 'allocate ...'
                prove(size == w.B, 'allocate: called with the size needed')
                prove(size > w.dir.byte_size, 'allocate: precondition, the stream grows')
                calls.append(1)
                w.dir.byte_size = w.B
                w.s.fat_chain = mk('list', n=w.N, f=w.chain)
                w.st.mini_stream_chain = mk('list', n=w.M, f=lambda i: w.mc_f(i))
        s = S_.__new__(S_)
        for a in ('storage', 'dir', 'mode', 'pos', 'fat_chain'):
            setattr(s, a, getattr(w.s, a))
        w.s = s
        ctx().cover('entry')
        s.write(w.data)
        ctx().cover('done')
        prove(len(calls) == (1 if grow else 0), 'space is allocated exactly when the stream grows')
        prove(s.pos == w.pos + w.n, 'the cursor moves by the bytes written')
        prove(w.dir.byte_size == w.B, 'the size is the largest of the old size and the end of the data')
        for nm, x in zip(['exactly the written bytes are replaced', 'no byte outside the stream changes',
                          'the sector cache holds no stale sector'], w.facts(w.f.at, w.st.sector_cache.has, w.n)):
            prove(x, nm)
    return body


def read_sector(P):
    """read_sector_data: the current bytes of the sector, zero beyond the end of the file, and the cache stays true"""
    for S in (512, 4096):
        disk = UF('disk', 1, 0, 255)
        end = fresh_int('end', 0)
        sid = fresh_int('sid', 0, 0xfffffffb)

        def byte(x): return ite(x < end, disk(x), 0)

        class F(object):
            def seek(self, p, *a): self.pos = p

            def readinto(self, buf):
                left = end - self.pos
                m = ite(left < 0, 0, ite(left < S, left, S))
                p = self.pos
                prove(buf.length() == S, 'a whole sector is read')
                buf.splice(0, m, mk('bytes', n=m, f=lambda k: disk(p + k)))
                self.pos = p + m
                return m

        class C(object):
            def __init__(self):
                self.hit = fresh_bool('cached')
                self.stored = []

            def get(self, k, default=None):
                prove(k == sid, 'looked up under its own id')
                if self.hit:
                    return mk('bytearray', n=S, f=lambda k: byte((sid + 1) * S + k))
                return default

            def __setitem__(self, k, v):
                self.stored.append((k, v))
        s = P.cfb.CompoundFileBinary.__new__(P.cfb.CompoundFileBinary)
        s.f, s.sector_cache, s.sector_size = F(), C(), S
        ctx().cover('entry')
        r = s.read_sector_data(sid)
        prove_eq(r, mk('bytearray', n=S, f=lambda k: byte((sid + 1) * S + k)), 'the bytes of the sector %d' % S)
        for k, v in s.sector_cache.stored:
            prove(k == sid, 'stored under its own id %d' % S)
            prove(v is r, 'the sector itself is stored %d' % S)


# ---------------------------------------------------------------- seek, allocate, truncate against contracts
def contract_stream(P, S, B, pos, N, state):
    """a Stream whose read() and write() are their contracts; state.content is the ghost byte array"""

    class A(P.cfb.Stream):
        __slots__ = ()

        def read(self, n=-1):
            left = self.dir.byte_size - self.pos
            k = ite(left < 0, 0, left)
            if isinstance(n, SInt) or n != -1:
                prove(n >= 0, 'read: a legal length')
                k = ite(n < k, n, k)
            c, p = state.content, self.pos
            state.log.append(('read', self.fat_chain, p, k))
            self.pos = p + k
            return mk('bytearray', n=k, f=lambda j: c(p + j))

        def write(self, data):
            d = seqof(data).snapshot()
            n, p, c, old = d.length(), self.pos, state.content, self.dir.byte_size
            prove(p <= old, 'write: the cursor is not beyond the end')
            if p + n > old:
                state.grow(self, p + n)
            else:
                state.ready(self)
            state.log.append(('write', p, n))
            state.content = lambda j: ite(and_(j >= p, j < p + n), d.at(j - p), c(j))
            self.pos = p + n

    st = GStorage()
    st.sector_size, st.mini_stream_sector_size, st.min_stream_max_size = S, 64, CUT
    d = GDir()
    d.type, d.byte_size = 'stream', B
    state.sector0 = UF('chain', 1, 0, 0xfffffffb)
    s = A.__new__(A)
    s.storage, s.dir, s.mode, s.pos = st, d, 'rw', pos
    s.fat_chain = mk('list', n=N, f=lambda i: state.sector0(i))
    if N > 0:
        d.sector_id = state.sector0(0)
    else:
        d.sector_id = None
    return s


class State(object):
    def __init__(self):
        self.content0 = self.content = UF('content', 1, 0, 255)
        self.log = []

    def ready(self, s):
        pass

    def grow(self, s, n):
        s.dir.byte_size = n


class SeekLoop(LoopSpec):
    name = 'pad'
    fn = 'Stream.seek'

    def __init__(self, s, st, B, target, J): self.s, self.st, self.B, self.target, self.J = s, st, B, target, J

    def match(self, L, env): return 'bytes_left' in env
    def ghost0(self, L, env): return dict(z=0, c=self.st.content)
    def fresh(self, L): return dict(z=fresh_int('z', 0), c=UF('content_z', 1, 0, 255))

    def constraint(self, L, g):
        z, J = g['z'], self.J
        return [z >= 0, self.B + z <= self.target,
                implies(J < self.B, g['c'](J) == self.st.content0(J)),
                implies(and_(J >= self.B, J < self.B + z), g['c'](J) == 0)]

    def state(self, L, g):
        return {(self.s, 'pos'): self.B + g['z'], (self.s.dir, 'byte_size'): self.B + g['z'],
                'bytes_left': self.target - self.B - g['z'], (self.st, 'content'): Val(g['c'], lambda cur: True)}

    def next(self, L, g, env): return dict(z=self.s.dir.byte_size - self.B, c=self.st.content)
    def measure(self, L, g): return self.target - self.B - g['z']


def seek(S, whence):
    def body(P):
        from pydv import loops
        st = State()
        B, pos = fresh_int('size', 0, MAXB), fresh_int('pos', 0, MAXB)
        assume(pos <= B)
        s = contract_stream(P, S, B, pos, fresh_int('sectors', 0, MAXB), st)
        off = fresh_int('offset', -MAXB, MAXB)
        target = off + {0: 0, 1: pos, 2: B}[whence]
        J = fresh_int('J', 0, MAXB * 4)
        loops.ACTIVE[:] = [[SeekLoop(s, st, B, target, J)]]
        ctx().cover('entry')
        try:
            r = s.seek(off, whence) if whence else s.seek(off)
        except ValueError:
            ctx().cover('refused')
            prove(target < 0, 'refused only before the start')
            prove(and_(s.pos == pos, s.dir.byte_size == B), 'nothing changes when refused')
            prove(len(st.log) == 0, 'nothing is written when refused')
            return
        ctx().cover('done')
        prove(target >= 0, 'a position before the start is refused')
        prove(and_(s.pos == target, r == target, s.tell() == target), 'the cursor is at the target')
        prove(s.dir.byte_size == ite(target > B, target, B), 'the stream is extended exactly when the target is past its end')
        prove(implies(J < B, st.content(J) == st.content0(J)), 'existing bytes are kept')
        prove(implies(and_(J >= B, J < target), st.content(J) == 0), 'new bytes are zero')
    return body


class AllocLoop(LoopSpec):
    """sectors are added one at a time behind the last"""
    name = 'add sectors'
    fn = 'Stream.allocate'

    def __init__(self, w): self.w = w
    def match(self, L, env): return 'sector_count' in env
    def ghost0(self, L, env):
        self.n0 = self.w.s.fat_chain.length() if isinstance(self.w.s.fat_chain, Seq) else len(self.w.s.fat_chain)
        prove(self.n0 == self.w.base, 'add sectors:base:starts from the chain of the stream')
        return dict(k=0)

    def fresh(self, L): return dict(k=fresh_int('k', 0))

    def constraint(self, L, g):
        return [g['k'] >= 0, implies(g['k'] > 0, self.n0 + g['k'] <= self.w.count)]

    def state(self, L, g):
        w, n = self.w, self.n0 + g['k']
        first = w.newchain(0)
        return {(w.s, 'fat_chain'): mk('list', n=n, f=w.newchain),
                (w.s.dir, 'sector_id'): Val(first if n > 0 else None, lambda cur: (cur is None) if not (n > 0) else
                                            (cur is not None and cur == first)),
                (w, 'given'): g['k']}

    def next(self, L, g, env): return dict(k=self.w.given)
    def measure(self, L, g): return self.w.count - self.n0 - g['k'] + 1


class AllocWorld(object):
    pass


def allocate(S, before, after):
    """before/after: stream kept in the mini stream?"""
    def body(P):
        from pydv import loops
        w = AllocWorld()
        st = State()
        B = fresh_int('size', 0, CUT - 1) if before else fresh_int('size', CUT, MAXB)
        new = fresh_int('new size', 1, CUT - 1) if after else fresh_int('new size', CUT, MAXB)
        assume(new > B)
        ssb, ssa = (64 if before else S), (64 if after else S)
        pos = fresh_int('pos', 0, MAXB)
        assume(pos <= B)
        N = (B + ssb - 1) // ssb
        s = contract_stream(P, S, B, pos, N, st)
        w.s = s
        w.base = 0 if before != after else N
        w.count = (new + ssa - 1) // ssa
        w.given = 0
        fresh_sect = UF('new sector', 1, 0, 0xfffffffb)
        w.newchain = lambda i: ite(i < w.base, st.sector0(i), fresh_sect(i - w.base))
        freed = []
        old_first = s.dir.sector_id

        def append(last, minifat=False):
            # contract (P02): a sector no chain uses becomes the end of the chain `last` is in
            prove(minifat == after if isinstance(minifat, bool) else iff(minifat, after), 'fat_chain_append: in the right area')
            if w.base + w.given == 0:
                prove(last is None, 'fat_chain_append: a new chain')
            else:
                prove(last is not None and last == w.newchain(w.base + w.given - 1), 'fat_chain_append: behind the last sector')
            k = w.given
            w.given = k + 1
            return fresh_sect(k)

        def free(first, minifat=False):
            prove(minifat is True and before and not after, 'free_fat_chain: the old mini chain')
            prove(any(x[0] == 'read' for x in st.log), 'free_fat_chain: after the bytes were read')
            if old_first is None:
                prove(first is None, 'free_fat_chain: whole chain')
            else:
                prove(first is not None and first == old_first, 'free_fat_chain: whole chain')
            freed.append(first)
        s.storage.fat_chain_append, s.storage.free_fat_chain = append, free

        def ready(s):
            n = s.fat_chain.length() if isinstance(s.fat_chain, Seq) else len(s.fat_chain)
            prove(and_(s.dir.byte_size == new, n * ssa >= new), 'write: only when all sectors are there')
        st.ready = ready

        def grow(s, n):
            prove(False, 'write: never grows again')
        st.grow = grow
        loops.ACTIVE[:] = [[AllocLoop(w)]]
        ctx().cover('entry')
        s.allocate(new)
        ctx().cover('done')
        J = fresh_int('J', 0, MAXB)
        prove(s.dir.byte_size == new, 'the new size')
        prove(s.pos == pos, 'the cursor does not move')
        prove_eq(s.fat_chain, mk('list', n=w.count, f=w.newchain), 'exactly the sectors the size needs: the old ones, then new ones')
        prove(s.dir.sector_id is not None and s.dir.sector_id == w.newchain(0), 'the entry points at the first sector')
        prove(len(freed) == (1 if before != after else 0), 'the mini sectors are freed exactly when the stream leaves the mini stream')
        prove(implies(J < B, st.content(J) == st.content0(J)), 'existing bytes are kept')
    return body


def truncate(S, mini, root=False):
    def body(P):
        st = State()
        if root:
            mini_ = False
            B = fresh_int('size', 0, MAXB)
        else:
            mini_ = mini
            B = fresh_int('size', 0, CUT - 1) if mini else fresh_int('size', CUT, MAXB)
        ss = 64 if mini_ else S
        pos = fresh_int('pos', 0, MAXB)
        assume(pos <= B)
        N = (B + ss - 1) // ss
        s = contract_stream(P, S, B, pos, N, st)
        if root:
            s.dir.type = 'root storage'
        size = fresh_int('new size', 0, MAXB)
        given = size
        if fresh_bool('at the cursor'):
            given, size = None, pos
        old_first = s.dir.sector_id
        calls = []
        eoc = []

        class Table(object):
            def __init__(self, m): self.m = m

            def __setitem__(self, i, v):
                eoc.append((self.m, i, v))
        s.storage.fat, s.storage.minifat = Table(False), Table(True)

        def free(first, minifat=False):
            calls.append(('free', first, minifat))
            prove(minifat == mini_ if isinstance(minifat, bool) else iff(minifat, mini_), 'free_fat_chain: in the area of the stream')
        s.storage.free_fat_chain = free

        def grow(s, n):
            # inside write(): from an empty stream
            prove(and_(s.dir.byte_size == 0, len(s.fat_chain) == 0, s.dir.sector_id is None, n == size), 'write: into an emptied stream')
            s.dir.byte_size = n
        st.grow = grow

        class T(type(s)):
            __slots__ = ()

            def allocate(self, n):
                prove(and_(n == size, n > self.dir.byte_size), 'allocate: precondition')
                calls.append(('allocate',))
                self.dir.byte_size = n
        s.__class__ = T
        ctx().cover('entry')
        if given is None:
            s.truncate()
        else:
            s.truncate(given)
        kinds = [c[0] for c in calls]
        prove(s.dir.byte_size == size, 'the new size')
        prove(s.pos == ite(pos < size, pos, size), 'the cursor stays, or moves to the new end')
        J = fresh_int('J', 0, MAXB)
        prove(implies(and_(J < B, J < size), st.content(J) == st.content0(J)), 'remaining bytes are kept')

        def frees_all():
            prove(kinds.count('free') == 1, 'the sectors are freed once')
            f = [c for c in calls if c[0] == 'free'][0]
            if old_first is None:
                prove(f[1] is None, 'the whole chain is freed')
            else:
                prove(f[1] is not None and f[1] == old_first, 'the whole chain is freed')
        if size == 0:
            ctx().cover('emptied')
            frees_all()
            prove(and_(len(s.fat_chain) == 0, s.dir.sector_id is None), 'an empty stream has no sectors')
        elif size > B:
            ctx().cover('grown')
            prove(kinds == ['allocate'], 'growing only allocates')
        elif not mini_ and not root and size < CUT:
            ctx().cover('moved')
            frees_all()
            prove([x[0] for x in st.log] == ['read', 'write'], 'the bytes are read, then written to the mini stream')
        else:
            ctx().cover('cut')
            cnt = (size + ss - 1) // ss
            prove_eq(s.fat_chain, mk('list', n=cnt, f=lambda i: st.sector0(i)), 'the first sectors are kept')
            prove(s.dir.sector_id is not None and s.dir.sector_id == st.sector0(0), 'the first sector stays')
            prove(len(st.log) == 0, 'no byte is written')
            if cnt < N:
                prove(len(calls) == 1 and calls[0][0] == 'free', 'the rest is freed')
                prove(calls[0][1] == st.sector0(cnt), 'exactly the rest is freed')
                prove(len(eoc) == 1, 'the chain is ended')
                m, i, v = eoc[0]
                prove(and_(m == mini_, i == st.sector0(cnt - 1), v == 0xfffffffe), 'the chain ends after the last sector kept')
            else:
                prove(len(calls) == 0 and len(eoc) == 0, 'no sector is freed')
    return body


def open_stream(P):
    """a new Stream object starts at 0 with the chain of its entry, from the table its size selects"""
    for S in (512, 4096):
        st = GStorage()
        st.sector_size, st.mini_stream_sector_size, st.min_stream_max_size = S, 64, CUT
        d = GDir()
        d.type, d.byte_size = 'stream', fresh_int('size', 0, MAXB)
        d.sector_id = fresh_int('first', 0, 0xfffffffb)
        if fresh_bool('empty'):
            d.sector_id = None
        asked = []

        def chain(first, minifat=False):
            asked.append((first, minifat))
            return [first, 7]
        st.get_fat_chain = chain
        ctx().cover('entry')
        s = P.cfb.Stream(st, d, 'r')
        prove(s.tell() == 0, 'starts at 0')
        if d.sector_id is None:
            prove(len(asked) == 0 and len(s.fat_chain) == 0, 'no sectors')
        else:
            prove(len(asked) == 1 and asked[0][0] == d.sector_id, 'the chain of the entry')
            m = asked[0][1]
            prove(iff(m, d.byte_size < CUT), 'in the table the size selects')
            prove(len(s.fat_chain) == 2 and s.fat_chain[0] == d.sector_id, 'the chain is kept')


# ---------------------------------------------------------------- concrete
def gen(rng, i):
    from specs import cfbhist as H
    ss = rng.choice([512, 4096])
    paths = ['/s%d' % k for k in range(rng.choice([1, 2, 3, 5, 9]))]
    ops = []
    for p in paths:
        if rng.random() < .7:
            ops.append(['write', p, H.size(rng), rng.randrange(1 << 20)])
    ops += H.stream_ops(rng, paths, rng.choice([4, 10, 25, 60]))
    if i % 60 == 17:
        # many sectors: the allocation table and the cache overflow
        ops.insert(len(paths) // 2, ['write', paths[0], rng.choice([70000, 300000, 600000]), 5])
    return dict(ss=ss, ops=ops)


def shrink(inp):
    for o in drop_chunks(inp['ops']):
        yield dict(inp, ops=o)
    for k, o in enumerate(inp['ops']):
        if o[0] == 'write' and o[2] > 1:
            for n in (1, 64, 512, 4096, o[2] // 2):
                if n < o[2]:
                    yield dict(inp, ops=inp['ops'][:k] + [[o[0], o[1], n, o[3]]] + inp['ops'][k + 1:])


def check(inp):
    plain()
    from specs import cfbhist as H
    box = H.Box(inp['ss'])
    try:
        H.run_ops(box, inp['ops'])
        box.check_streams()
    except H.Wrong as e:
        return str(e)
    return None


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check, 700, 60000, tlimit=60, shrink=shrink)


def rep(m, name):
    rng = random.Random(11)
    for i in range(400):
        inp = gen(rng, i)
        r = guarded(check, inp, 30)
        if r:
            return '%s on %s' % (r, str(inp)[:600])
    return None


UNITS = []
for S_ in (512, 4096):
    for mini_ in (False, True):
        for all_ in (False, True):
            UNITS.append(Unit('read %d %s%s' % (S_, 'mini' if mini_ else 'regular', ' all' if all_ else ''), read(S_, mini_, all_),
                              ['cfb.Stream.read'], rep, covers=['entry', 'done'], timeout=200))
        for grow_ in (False, True):
            UNITS.append(Unit('write %d %s%s' % (S_, 'mini' if mini_ else 'regular', ' growing' if grow_ else ''), write(S_, mini_, grow_),
                              ['cfb.Stream.write'], rep, covers=['entry', 'done'], timeout=200))
UNITS.append(Unit('read_sector_data', read_sector, ['cfb.CompoundFileBinary.read_sector_data'], rep, covers=['entry']))
for S_ in (512, 4096):
    for wh_ in (0, 1, 2):
        UNITS.append(Unit('seek %d whence %d' % (S_, wh_), seek(S_, wh_), ['cfb.Stream.seek', 'cfb.Stream.tell'], rep, covers=['entry', 'done', 'refused']))
    for b_, a_ in ((True, True), (True, False), (False, False)):
        UNITS.append(Unit('allocate %d %s-%s' % (S_, 'mini' if b_ else 'regular', 'mini' if a_ else 'regular'), allocate(S_, b_, a_),
                          ['cfb.Stream.allocate', 'cfb.Stream.is_mini_stream', 'cfb.Stream.sector_size'], rep, covers=['entry', 'done']))
    UNITS.append(Unit('truncate %d mini' % S_, truncate(S_, True), ['cfb.Stream.truncate'], rep, covers=['entry', 'emptied', 'grown', 'cut']))
    UNITS.append(Unit('truncate %d regular' % S_, truncate(S_, False), ['cfb.Stream.truncate'], rep, covers=['entry', 'emptied', 'grown', 'moved', 'cut']))
    UNITS.append(Unit('truncate %d mini stream itself' % S_, truncate(S_, False, True), ['cfb.Stream.truncate'], rep,
                      covers=['entry', 'emptied', 'grown', 'cut']))
UNITS.append(Unit('open', open_stream, ['cfb.Stream.__init__'], rep, covers=['entry']))
BOUNDED = [Bounded('histories', run, '1 to 9 streams, up to 70 reads, writes, seeks, truncations, removals and reopenings with sizes around every '
                   'boundary (64, 512, 4096 and multiples), 512 and 4096 byte sectors, up to 600 kB; every read and the final contents compared with a byte array model',
                   ['cfb.Stream', 'cfb.CompoundFileBinary'], check, shards=8, budget=14)]
ASSUMPTIONS = ['the sectors of a chain are distinct, as many as the size needs, and mini sectors lie inside the mini stream (P02 decides that)',
               'the file object stores bytes at positions and reads them back; a read past its end is short',
               'the sector cache returns the object last stored under a sector id or nothing (P07); sector data is not modified by callers',
               'one Stream object at a time works on a stream that changes size',
               'sizes and positions below 2^40']
LEVEL = 'proof'
