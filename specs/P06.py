"""P06: sector chains are followed exactly, and corrupt tables never hang.

Deductive part: get_fat_chain over a table of arbitrary size n and arbitrary
contents.  Chains are described by the mathematical sequence it(0)=start,
it(i+1)=table[it(i)].  For every table and start exactly one case holds
(finite table, pigeonhole): the sequence meets the end mark first at T, or
leaves the table first at T, or stays inside for ever and then it(2K)==it(K)
for some K>=1.  In each case the loop invariant, the postcondition and a
decreasing measure are proved, hence exact result and termination."""
import random
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec, Val
from pydv.seq import mk, prove_eq, seqof
from pydv.runner import Unit, Bounded, Lemma, plain
from specs.common import drive, guarded, Mem

EOC, FREE, DIF, FATS = 0xFFFFFFFE, 0xFFFFFFFF, 0xFFFFFFFC, 0xFFFFFFFD
SPECIAL = (EOC, FREE, DIF, FATS)
U32 = (1 << 32) - 1


class Chain(object):
    """ghost description of one chain in an arbitrary table"""

    def __init__(self, case):
        self.case = case
        self.n = fresh_int('n', 0, 1 << 31)
        self.table = UF('table', lo=0, hi=U32)
        self.it = UF('it', lo=0, hi=U32)
        self.start = self.it(0)
        self.T = fresh_int('T', 0) if case != 'cycle' else None
        self.K = fresh_int('K', 1) if case == 'cycle' else None
        if case == 'ends':
            assume(self.it(self.T) == EOC)
        if case == 'leaves':
            assume(and_(self.it(self.T) >= self.n, self.it(self.T) != EOC))
        if case == 'cycle':
            assume(self.it(2 * self.K) == self.it(self.K))
            self.at(0)
        self.at(0)

    def at(self, i):
        """facts of the chain at position i >= 0"""
        x = self.it(i)
        inside = and_(x < self.n, x != EOC)
        assume(implies(and_(i >= 0, inside), self.it(i + 1) == self.table(x)))
        if self.case == 'cycle':
            assume(implies(i >= 0, inside))
        else:
            assume(implies(and_(i >= 0, i < self.T), inside))
        return x


class Walk(LoopSpec):
    """sectors == [it(0..k-1)], b == it(k), a == the hare"""
    name = 'walk'
    once = True

    def __init__(self, c):
        self.c = c

    def ghost0(self, L, env): return dict(k=0)
    def fresh(self, L): return dict(k=fresh_int('k', 0))

    def constraint(self, L, g):
        c, k = self.c, g['k']
        if c.case == 'ends':
            return [k >= 0, k <= c.T]
        if c.case == 'leaves':
            return [k >= 0, 2 * k <= c.T]
        return [k >= 0, k < c.K]

    def hare(self, k):
        c = self.c
        if c.case == 'ends':
            return c.it(ite(2 * k <= c.T, 2 * k, c.T))
        return c.it(2 * k)

    def state(self, L, g):
        c, k = self.c, g['k']
        return {'b': c.it(k), 'a': self.hare(k), 'sectors': mk('list', n=k, f=lambda i: c.it(i))}

    def next(self, L, g, env): return dict(k=g['k'] + 1)

    def measure(self, L, g):
        return (self.c.T if self.c.case != 'cycle' else self.c.K) - g['k']

    def iteration(self, L, g):
        c, k = self.c, g['k']
        for i in (k, 2 * k, 2 * k + 1, k + 1, 2 * k + 2):
            c.at(i)
        if c.case == 'ends':
            # lemma 'before the end mark no sector repeats' (unit 'lemma: no repetition')
            assume(implies(and_(2 * k + 2 <= c.T), c.it(k + 1) != c.it(2 * k + 2)))


def storage(P, c, minifat):
    s = P.cfb.CompoundFileBinary.__new__(P.cfb.CompoundFileBinary)
    t = mk('array', n=c.n, f=lambda i: c.table(i))
    o = mk('array', n=fresh_int('n2', 0), f=lambda i: 0)
    s.fat, s.minifat = (o, t) if minifat else (t, o)
    return s, t


def walk(case, minifat):
    def body(P):
        from pydv import loops
        c = Chain(case)
        loops.ACTIVE[:] = [[Walk(c)]]
        s, t = storage(P, c, minifat)
        # ids which mean 'no sector': an empty chain by definition
        if c.start == EOC or c.start == FREE or c.start == DIF or c.start == FATS:
            r = s.get_fat_chain(c.start, minifat)
            prove(len(r) == 0, 'no sector: empty chain')
            raise EndPath()
        ctx().cover('entry')
        try:
            r = s.get_fat_chain(c.start, minifat)
        except (IndexError, P.exceptions.CompoundFileBinaryError) as e:
            prove(case != 'ends', 'a proper chain is not refused')
            return
        prove(case == 'ends', 'a chain which never ends is refused')
        if case == 'ends':
            prove_eq(r, mk('list', n=c.T, f=lambda i: c.it(i)), 'exactly the linked sectors, in order')
    return body


def lemma(P):
    """ends at T (first): i < j <= T and it(i)=it(j) is impossible.
    Induction over d: it(i+d)=it(j+d) while j+d <= T; then d=T-j gives an end mark before T."""
    c = Chain('ends')
    i, j, d = fresh_int('i', 0), fresh_int('j', 1), fresh_int('d', 0)
    assume(and_(i < j, j <= c.T))
    assume(and_(j + d < c.T, c.it(i + d) == c.it(j + d)))
    ctx().cover('entry')
    c.at(i + d)
    c.at(j + d)
    prove(c.it(i + d + 1) == c.it(j + d + 1), 'step')
    return


def lemma_end(P):
    c = Chain('ends')
    i, j = fresh_int('i', 0), fresh_int('j', 1)
    assume(and_(i < j, j <= c.T))
    ctx().cover('entry')
    assume(c.it(i + c.T - j) == c.it(c.T))      # the induction at d = T-j
    c.at(i + c.T - j)
    prove(False, 'contradiction')


def none_start(P):
    s = P.cfb.CompoundFileBinary.__new__(P.cfb.CompoundFileBinary)
    s.fat = s.minifat = mk('array', n=fresh_int('n', 0), f=lambda i: 0)
    ctx().cover('entry')
    for m in (False, True):
        prove(len(s.get_fat_chain(None, m)) == 0, 'no start sector: empty chain')


# ---------------------------------------------------------------- concrete
def ref_chain(table, start):
    """list | None (refused)"""
    if start is None or start in SPECIAL:
        return []
    out, seen, b = [], set(), start
    while b != EOC:
        if b in seen or b >= len(table):
            return None
        seen.add(b)
        out.append(b)
        b = table[b]
    return out


_s = []


def check(inp):
    plain()
    from array import array
    from aaf2 import cfb
    from aaf2.exceptions import CompoundFileBinaryError
    s = cfb.CompoundFileBinary.__new__(cfb.CompoundFileBinary)
    tab, other = array('I', inp['table']), array('I', [EOC] * 3)
    s.fat, s.minifat = (other, tab) if inp['mini'] else (tab, other)
    want = ref_chain(inp['table'], inp['start'])
    try:
        got = s.get_fat_chain(inp['start'], inp['mini'])
    except (IndexError, CompoundFileBinaryError) as e:
        if want is None:
            return None
        return 'table %s start %s: refused (%s), the chain is %s' % (inp['table'][:40], inp['start'], e, want[:40])
    if want is None:
        return 'table %s start %s: returned %s for a chain which never ends' % (inp['table'][:40], inp['start'], list(got)[:40])
    if list(got) != want:
        return 'table %s start %s: returned %s instead of %s' % (inp['table'][:40], inp['start'], list(got)[:40], want[:40])
    if list(tab) != inp['table'] :
        return 'the table was changed'
    return None


def gen_for(shard):
    state = {}

    def exhaustive():
        for n in (1, 2, 3, 4):
            vals = list(range(n)) + [EOC, FREE, n, FATS]
            k = len(vals)
            for code in range(k ** n):
                t, x = [], code
                for _ in range(n):
                    t.append(vals[x % k])
                    x //= k
                for st in list(range(n)) + ([EOC, FREE, n, None] if code % 50 == 0 else []):
                    yield t, st

    def gen(rng, i):
        if 'it' not in state:
            state['it'] = exhaustive()
            state['k'] = 0
        if i % 3 != 2:
            for t, st in state['it']:
                state['k'] += 1
                if state['k'] % 4 == shard % 4:
                    return dict(table=t, start=st, mini=bool(state['k'] // 4 % 2))
        n = rng.choice([5, 8, 20, 100, 1000, 5000])
        order = list(range(n))
        rng.shuffle(order)
        t = [rng.choice([FREE, EOC, rng.randrange(n)]) for _ in range(n)]
        m = rng.randrange(1, n + 1)
        for a, b in zip(order[:m], order[1:m]):
            t[a] = b
        t[order[m - 1]] = rng.choice([EOC, EOC, EOC, FREE, n, n + 7, FATS, DIF, 0xFFFFFFF0, order[rng.randrange(m)], order[0], order[m - 1]])
        return dict(table=t, start=order[0], mini=rng.random() < .5)
    return gen


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_for(shard), check, 9000, 400000, tlimit=5)


def gen_file(rng, i):
    return dict(seed=rng.randrange(1 << 30), mini=rng.random() < .5, cut=rng.choice(['self', 'back', 'out', 'free', 'none', 'none']),
                ss=rng.choice([512, 4096]), size=rng.choice([1, 300, 4095, 4096, 5000, 30000]))


def check_file(inp):
    """a corrupted container file: opening a stream raises or gives the stored chain, never hangs"""
    plain()
    import struct
    from aaf2 import cfb
    rng = random.Random(inp['seed'])
    f = Mem(mode='wb+')
    s = cfb.CompoundFileBinary(f, 'wb+', inp['ss'])
    data = bytes(rng.randrange(256) for _ in range(min(inp['size'], 3000))) * 20
    data = data[:inp['size']]
    for k in range(3):
        st = s.open('/s%d' % k, 'w')
        st.write(data)
    s.close()
    raw = bytearray(f.getvalue())
    s = cfb.CompoundFileBinary(Mem(bytes(raw), 'rb'), 'rb')
    st = s.open('/s1', 'r')
    mini = st.is_mini_stream()
    chain = list(st.fat_chain)
    tab = s.minifat_chain if mini else [x for _, _, x in s.iter_difat() if x < EOC - 3]
    per = inp['ss'] // 4
    k = rng.randrange(len(chain))

    def setv(idx, v):
        off = (tab[idx // per] + 1) * inp['ss'] + idx % per * 4
        raw[off:off + 4] = struct.pack('<I', v)
    c = inp['cut']
    v = {'self': chain[k], 'back': chain[rng.randrange(k + 1)], 'out': 0x00ffff00 + rng.randrange(50), 'free': FREE}.get(c)
    if v is not None:
        setv(chain[k], v)
    s2 = cfb.CompoundFileBinary(Mem(bytes(raw), 'rb'), 'rb')
    try:
        st = s2.open('/s1', 'r')
        got = bytes(st.read())
    except Exception as e:
        if v is None:
            return 'an intact file was refused: %r' % e
        return None
    if v is not None:
        return 'a chain corrupted by %s was accepted' % c
    if got != data:
        return 'wrong data'
    return None


def run_file(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_file, check_file, 250, 20000, tlimit=10)


def rep(minifat):
    def replay(m, name):
        rng = random.Random(7)
        g = gen_for(0)
        for i in range(6000):
            inp = g(rng, i)
            inp['mini'] = minifat
            r = guarded(check, inp, 5)
            if r:
                return r
        return None
    return replay


G = ['cfb.CompoundFileBinary.get_fat_chain']
UNITS = [Unit('%s, %s' % (c, 'minifat' if mf else 'fat'), walk(c, mf), G, rep(mf), covers=['entry'])
         for c in ('ends', 'leaves', 'cycle') for mf in (False, True)]
UNITS += [Unit('lemma: no repetition (step)', lemma, G, None, covers=['entry']),
          Unit('lemma: no repetition (end)', lemma_end, G, None, covers=['entry']),
          Lemma('lemma: the three kinds of chains, and the hare meets the tortoise (pigeonhole)', 'pigeonhole.lean', ['chains', 'no_repetition']),
          Unit('no start', none_start, G, rep(False), covers=['entry'])]
BOUNDED = [Bounded('tables', run, 'all tables of up to 4 entries over {every entry, end, free, fat mark, out of range} with every start, and random '
                   'tables up to 5000 entries with every kind of bad tail', G, check, shards=4, budget=8),
           Bounded('files', run_file, 'container files with one chain corrupted on disk', G + ['cfb.Stream.__init__'], check_file, shards=2, budget=8)]
TRUSTED = ['the three units of a walk assume the facts of one case of the lemma `chains` (lemmas/pigeonhole.lean, proved by Lean on every run)']
ASSUMPTIONS = ['the table does not change while the chain is followed (one thread)']
LEVEL = 'proof'
