"""loop cut points.

Every loop of the code under test calls head() before its condition.  Without
a matching LoopSpec the loop is unrolled (complete when the iteration count is
concrete; bounded by FUEL otherwise -> Unsupported).  With a LoopSpec the loop
is verified by its invariant:
  1st arrival  the invariant must hold (obligation 'base'); then every local
               and heap location the loop modifies is havocked to an arbitrary
               state satisfying the invariant
  2nd arrival  the invariant must hold again and the measure must have
               decreased (obligations 'step', 'decreases'); the path ends
Locals that the loop assigns but the spec does not mention become Poison: any
use before re-assignment makes the proof undecided, never wrongly proved.
"""
from .core import (Unsupported, EndPath, SInt, SBool, ctx, prove, assume, fresh_int, and_, Control)
from .seq import Seq, MView, seqof, prove_eq, val_eq

FUEL = 20000
ACTIVE = []        # LoopSpecs of the harness now running (a stack of lists)


class Poison(object):
    def __init__(self, why):
        object.__setattr__(self, 'why', why)

    def _bad(self, *a, **k):
        raise Unsupported('loop-modified variable without invariant: ' + object.__getattribute__(self, 'why'))
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __lt__ = __gt__ = __le__ = __ge__ = _bad
    __eq__ = __ne__ = __bool__ = __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = _bad
    __floordiv__ = __mod__ = __and__ = __or__ = __contains__ = __rmul__ = __index__ = _bad
    __getattr__ = _bad
    __hash__ = None


class Sink(Poison):
    """a container the loop only adds to: unknown contents"""

    def _add(self, *a, **k):
        return None
    append = extend = insert = add = update = __setitem__ = _add


class SpecMismatch(Exception):
    pass


class Val(object):
    """location value with custom step/base check"""

    def __init__(self, value, check):
        self.value, self.check = value, check


class At(object):
    """location obj.attr (attr '[]': the cells of a sequence) for objects which cannot be hashed"""

    def __init__(self, obj, attr='[]'):
        self.k = (obj, attr)

    def __getitem__(self, i):
        return self.k[i]

    def __hash__(self):
        return hash((id(self.k[0]), self.k[1]))

    def __eq__(self, o):
        return isinstance(o, At) and o.k[0] is self.k[0] and o.k[1] == self.k[1]


class LoopSpec(object):
    """subclass and override; `fn` restricts to loops of functions whose
    qualified name ends with fn (None: any)"""
    name = 'loop'
    fn = None
    once = True

    def match(self, L, env):
        return True

    def ghost0(self, L, env):          # ghosts at entry
        return {}

    def fresh(self, L):                # fresh ghosts
        return {}

    def constraint(self, L, g):        # facts about ghosts (list of SBool)
        return []

    def state(self, L, g):             # {'local:x': value, (obj, 'attr'): value}
        return {}

    def next(self, L, g, env):         # ghosts at the end of an iteration
        return g

    def measure(self, L, g):           # non-negative int that decreases
        return None

    def iteration(self, L, g):         # assume-only hook right after havoc
        pass


def getloc(env, loc):
    if isinstance(loc, str):
        return env.get(loc, UNBOUND)
    o, a = loc[0], loc[1]
    if a == '[]':
        return o
    return getattr(o, a)


UNBOUND = object()


def check_state(L, spec, g, env, phase):
    st = spec.state(L, g)
    for i, c in enumerate(spec.constraint(L, g)):
        prove(c, '%s:%s:constraint%d' % (spec.name, phase, i))
    for loc, want in st.items():
        cur = getloc(env, loc)
        nm = '%s:%s:%s' % (spec.name, phase, loc if isinstance(loc, str) else loc[1])
        if isinstance(want, Val):
            prove(want.check(cur), nm)
        elif cur is UNBOUND:
            raise SpecMismatch(nm)
        elif isinstance(want, (Seq, MView)) or isinstance(want, (bytes, str, list)):
            if not isinstance(cur, (Seq, MView, bytes, bytearray, str, list, tuple)):
                raise SpecMismatch(nm)
            prove_eq(cur, want, nm)
        elif hasattr(want, 'pv_same'):
            want.pv_same(cur, nm)
        elif isinstance(want, (int, SInt, SBool)):
            if not isinstance(cur, (int, SInt, SBool)):
                raise SpecMismatch(nm)
            prove(val_eq(cur, want), nm)
        else:
            prove(cur is want, nm)


class Loop(object):
    def __init__(self, q, k, names, it=UNBOUND):
        self.q, self.k, self.names = q, k, names
        self.cut = None
        self.count = 0
        self.lazy = None
        self.idx = None
        self.isfor = it is not UNBOUND
        if self.isfor:
            from .libs import lazy_iter, PvDict
            self.lazy = lazy_iter(it)
            self.src = it
            self.it = None if self.lazy is not None else iter(it)
        self.checked = False

    # tick(): True -> plain iteration, no re-binding
    def tick(self):
        if self.cut is not None:
            return False
        if not self.checked:
            self.checked = True
            self.spec = None
            if ACTIVE:
                for s in ACTIVE[-1]:
                    if s.fn is not None and not self.q.endswith(s.fn):
                        continue
                    if getattr(s, 'only_for', None) is True and not self.isfor:
                        continue
                    if getattr(s, 'used', False) and s.once:
                        continue
                    self.spec = s
                    break
            if self.spec is not None:
                return False
            if self.lazy is not None:
                raise Unsupported('loop over a symbolic-length iterable without invariant in %s' % self.q)
        elif self.spec is not None:
            return False
        self.count += 1
        if self.count > FUEL:
            raise Unsupported('unrolling limit in ' + self.q)
        return True

    def head(self, env):
        s = self.spec
        c = ctx()
        if self.cut is None:
            self.env0 = dict(env)
            # an invariant with a measure is one of a while loop: it says nothing about a loop rewritten over an iterable
            other = self.lazy is not None and type(s).measure is not LoopSpec.measure
            if other or not s.match(self, env):
                self.spec = None
                if self.lazy is not None:
                    raise Unsupported('no invariant matches the loop in %s' % self.q)
                self.vals = env
                self.rebind = {n: env.get(n, UNBOUND) for n in self.names}
                return True
            s.used = True
            self.idx = 0
            g0 = s.ghost0(self, env)
            try:
                check_state(self, s, g0, env, 'base')
            except SpecMismatch as e:
                raise Unsupported('loop invariant does not bind: %s' % e)
            g = s.fresh(self)
            if self.lazy is not None:
                self.idx = fresh_int('idx', 0)
                assume(self.idx <= self.lazy.length())
            for x in s.constraint(self, g):
                assume(x)
            st = s.state(self, g)
            self.rebind = {}
            self.held = set(id(loc[0]) for loc in st if not isinstance(loc, str))
            for n in self.names:
                self.rebind[n] = Poison(n)
            for loc, v in st.items():
                if isinstance(v, Val):
                    v = v.value
                if isinstance(loc, str):
                    self.rebind[loc] = v
                elif loc[1] == '[]':
                    o = loc[0]
                    o.items, o.n, o.f = (v.items, v.n, v.f)
                else:
                    setattr(loc[0], loc[1], v)
            self.cut = g
            c.cut = True
            self.m0 = s.measure(self, g)
            self.arrived = 1
            s.iteration(self, g)
            return True
        # second arrival
        g1 = s.next(self, self.cut, env)
        try:
            check_state(self, s, g1, env, 'step')
        except SpecMismatch as e:
            raise Unsupported('loop invariant does not bind: %s' % e)
        m = s.measure(self, g1)
        if m is not None:
            prove(and_(self.m0 >= 0, m < self.m0), s.name + ':decreases')
        s.done = True
        raise EndPath()

    def val(self, n):
        return self.rebind.get(n)

    def mval(self, n, cur):
        """a local whose object the loop changes in place"""
        if n in self.rebind:
            return self.rebind[n]
        if self.cut is not None and id(cur) not in self.held and not getattr(cur, 'pv_ghost', False):
            return Sink(n)
        return cur

    # for loops
    def more(self):
        if self.lazy is not None:
            i = self.idx
            ok = i < self.lazy.length()
            if not ok:
                return False
            self.item = self.lazy.elem_out(self.lazy.at(i))
            self.idx = i + 1
            return True
        try:
            self.item = next(self.it)
            return True
        except StopIteration:
            return False
