"""pydv core: symbolic values and path exploration.

The verifier executes the real functions of /repo (loaded and mechanically
transformed by loader.py) in CPython on symbolic values.  Every truth test on
a symbolic boolean is a decision; all feasible decision sequences are explored
by re-execution, so a function without symbolic loops is covered completely.
Obligations are discharged by z3 (and cvc5 when z3 gives up).
Python integers are mathematical integers (z3 Int): this is exact for Python.
"""
import time
import z3

Z = z3


class Control(BaseException):
    """engine control flow; never caught by code under test"""


class EndPath(Control):
    """the current path is finished (loop re-entered, or assumed false)"""


class Unsupported(Control):
    """the code left the subset the verifier can handle: undecided"""


class SymHash(Control):
    """a symbolic value was hashed (caught by PvDict / PvSet)"""


class Failure(object):
    def __init__(self, name, model, pc_len, info, cut):
        self.name, self.model, self.info, self.cut = name, model, info, cut
        self.pc_len = pc_len
        self.exc = False


class Ctx(object):
    cur = None

    def __init__(self, rlimit=30000000, branch_rlimit=2000000, deadline=None):
        self.rlimit = rlimit
        self.branch_rlimit = branch_rlimit
        self.deadline = deadline
        self.obl = {}            # name -> [discharged, failed, unknown]
        self.failures = []
        self.unknowns = []
        self.covers = {}
        self.solver_time = 0.0
        self.queries = 0
        self.backends = {}
        self.paths = 0

    # ---- path control
    def start(self, prefix):
        self.prefix = prefix
        self.trail = []
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('rlimit', self.branch_rlimit)
        self.n = 0
        self.inputs = []
        self.cut = False
        self.ranges = {}
        self.rkeep = []
        self.hexnib = {}
        self.digits = {}
        self.origin = {}
        self.memo = {}           # decisions a spec makes once per path

    def fresh_name(self, base):
        self.n += 1
        return '%s!%d' % (base, self.n)

    def assume_expr(self, e):
        if z3.is_true(e):
            return
        self.pc.append(e)
        self.solver.add(e)

    def _check(self, *assume):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        t = time.time()
        r = self.solver.check(*assume)
        self.solver_time += time.time() - t
        self.queries += 1
        return r

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        i = len(self.trail)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trail.append(d)
            self.assume_expr(e if d[0] else z3.Not(e))
            return d[0]
        if i > 4000:
            raise Unsupported('too many decisions on one path')
        t = self._check(e) != z3.unsat
        f = True if not t else self._check(z3.Not(e)) != z3.unsat
        if not t and not f:
            raise EndPath()
        if t and f:
            d = (True, True)
            self.work.append(tuple(self.trail) + ((False, False),))
        else:
            d = (t, False)
        self.trail.append(d)
        self.assume_expr(e if d[0] else z3.Not(e))
        return d[0]

    def choose(self, n):
        """nondeterministic choice of 0..n-1 (every alternative explored)"""
        for k in range(n - 1):
            b = z3.Bool(self.fresh_name('choice'))
            if self.branch(b):
                return k
        return n - 1

    def implied(self, b):
        """does the path condition imply b (decided quickly, False when unknown)"""
        if isinstance(b, bool):
            return b
        return self._check(z3.Not(bexpr(b))) == z3.unsat

    # ---- obligations
    def prove(self, e, name, info=None):
        rec = self.obl.setdefault(name, [0, 0, 0])
        if isinstance(e, SBool):
            e = e.e
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        s = z3.simplify(e)
        if z3.is_true(s):
            rec[0] += 1
            self.backends['simplifier'] = self.backends.get('simplifier', 0) + 1
            return True
        r, m = self.solve(list(self.pc) + [z3.Not(e)])
        if r == 'unsat':
            rec[0] += 1
            return True
        if r == 'sat':
            rec[1] += 1
            self.failures.append(Failure(name, self.extract(m), len(self.pc), info, self.cut))
            return False
        rec[2] += 1
        self.unknowns.append(name)
        return None

    def solve(self, assertions):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        t = time.time()
        try:
            s = z3.Solver()
            s.set('rlimit', self.rlimit)
            s.add(*assertions)
            r = s.check()
            self.queries += 1
            if r == z3.unsat:
                self.backends['z3'] = self.backends.get('z3', 0) + 1
                return 'unsat', None
            if r == z3.sat:
                return 'sat', s.model()
            s = z3.SolverFor('QF_UFLIA')
            s.set('rlimit', self.rlimit)
            s.add(*assertions)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                self.backends['z3/QF_UFLIA'] = self.backends.get('z3/QF_UFLIA', 0) + 1
                return 'unsat', None
            if r == z3.sat:
                return 'sat', s.model()
            r = run_cvc5(s.sexpr())
            if r == 'unsat':
                self.backends['cvc5'] = self.backends.get('cvc5', 0) + 1
                return 'unsat', None
            return 'unknown', None
        finally:
            self.solver_time += time.time() - t

    def cover(self, name):
        """reachability: some path reaches this point with a satisfiable PC"""
        if self.covers.get(name):
            return
        r, m = self.solve(list(self.pc))
        self.covers[name] = (r == 'sat')

    def note(self, name, value):
        """name an input so that counter-models can be decoded and replayed"""
        self.inputs.append((name, value))

    def extract(self, m):
        out = {}
        for name, v in self.inputs:
            try:
                out[name] = conc(v, m)
            except Exception as e:
                out[name] = 'unavailable: %r' % (e,)
        return out


def run_cvc5(text):
    try:
        import cvc5
    except ImportError:
        return 'unknown'
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit', '8000')
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text + '\n(check-sat)\n', 'q')
        sm = p.getSymbolManager()
        res = ''
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            res += c.invoke(slv, sm)
        return res.strip() or 'unknown'
    except Exception:
        return 'unknown'


def ctx():
    return Ctx.cur


def explore(fn, c, max_paths=20000):
    """run fn under every feasible decision sequence"""
    Ctx.cur = c
    c.work = [()]
    while c.work:
        c.paths += 1
        if c.paths > max_paths:
            raise Unsupported('more than %d paths' % max_paths)
        prefix = c.work.pop()
        c.start(prefix)
        try:
            fn()
        except EndPath:
            pass
        except RecursionError:
            raise
        except Exception as e:
            import traceback
            name = 'no unexpected %s' % type(e).__name__
            r, m = c.solve(list(c.pc))
            if r != 'unsat':
                rec = c.obl.setdefault(name, [0, 0, 0])
                if r == 'sat':
                    rec[1] += 1
                    f = Failure(name, c.extract(m), len(c.pc), traceback.format_exc()[-1500:], c.cut)
                    f.exc = True
                    c.failures.append(f)
                else:
                    rec[2] += 1
                    c.unknowns.append(name)
    return c


# --------------------------------------------------------------- booleans
class SBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __and__(self, o):
        return SBool(z3.And(self.e, bexpr(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, bexpr(o)))
    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return SBool(self.e == bexpr(o))
        if isinstance(o, (int, SInt)):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def as_int(self):
        return SInt.atom(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def __index__(self):
        return 1 if bool(self) else 0

    def __hash__(self):
        raise SymHash()

    def __add__(self, o): return self.as_int() + o
    __radd__ = __add__
    def __sub__(self, o): return self.as_int() - o
    def __rsub__(self, o): return o - self.as_int()
    def __mul__(self, o): return self.as_int() * o
    __rmul__ = __mul__

    def __repr__(self):
        return '<sym bool>'


def bexpr(b):
    if isinstance(b, SBool):
        return b.e
    if isinstance(b, bool):
        return z3.BoolVal(b)
    if z3.is_expr(b):
        return b
    return z3.BoolVal(bool(b))


def wrapb(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def and_(*a):
    a = [bexpr(x) for x in a]
    return wrapb(z3.simplify(z3.And(*a))) if a else True


def or_(*a):
    a = [bexpr(x) for x in a]
    return wrapb(z3.simplify(z3.Or(*a))) if a else False


def not_(a):
    if isinstance(a, bool):
        return not a
    return wrapb(z3.Not(bexpr(a)))


def implies(a, b):
    return wrapb(z3.simplify(z3.Implies(bexpr(a), bexpr(b))))


def iff(a, b):
    return wrapb(z3.simplify(bexpr(a) == bexpr(b)))


# --------------------------------------------------------------- integers
INF = None


def _rng(e):
    r = ctx().ranges.get(e.get_id())
    return r if r is not None else (INF, INF)


class SInt(object):
    """sum(coef * atom) + const; atoms are z3 Int terms with known ranges"""
    __slots__ = ('t', 'c', '_lo', '_hi', '_e')

    def __init__(self, t, c):
        self.t = t      # dict id -> (coef, expr)
        self.c = c
        self._e = None
        self._lo = 0

    @staticmethod
    def atom(e, lo=INF, hi=INF):
        if z3.is_int_value(e):
            return e.as_long()
        cx = ctx()
        i = e.get_id()
        if i not in cx.ranges:
            cx.rkeep.append(e)      # keep the ast alive: ids stay unique
            cx.ranges[i] = (lo, hi)
        else:
            a, b = cx.ranges[i]
            if lo is not INF and (a is INF or lo > a): a = lo
            if hi is not INF and (b is INF or hi < b): b = hi
            cx.ranges[i] = (a, b)
        return SInt({i: (1, e)}, 0)

    @property
    def e(self):
        if self._e is None:
            parts = []
            for k, (co, ex) in self.t.items():
                parts.append(ex if co == 1 else z3.IntVal(co) * ex)
            if self.c or not parts:
                parts.append(z3.IntVal(self.c))
            self._e = parts[0] if len(parts) == 1 else z3.Sum(parts)
        return self._e

    def bounds(self):
        lo = hi = self.c
        for co, ex in self.t.values():
            a, b = _rng(ex)
            if co < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + co * a
            hi = None if hi is None or b is None else hi + co * b
        return lo, hi

    # -- arithmetic
    def __add__(self, o):
        o = toint(o)
        if o is NotImplemented:
            return o
        if isinstance(o, int):
            return SInt(self.t, self.c + o)
        t = dict(self.t)
        for k, (co, ex) in o.t.items():
            if k in t:
                n = t[k][0] + co
                if n:
                    t[k] = (n, ex)
                else:
                    del t[k]
            else:
                t[k] = (co, ex)
        c = self.c + o.c
        if not t:
            return c
        return SInt(t, c)
    __radd__ = __add__

    def __neg__(self):
        return SInt({k: (-co, ex) for k, (co, ex) in self.t.items()}, -self.c)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self

    def __sub__(self, o):
        o = toint(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = toint(o)
        if o is NotImplemented:
            return o
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, str):
            from .text import RepFmt
            return RepFmt(o, self)
        o = toint(o)
        if o is NotImplemented:
            return o
        if isinstance(o, int):
            if o == 0:
                return 0
            return SInt({k: (co * o, ex) for k, (co, ex) in self.t.items()}, self.c * o)
        if len(self.t) == 1 and len(o.t) == 1 and self.c == 0 and o.c == 0:
            (c1, e1), = self.t.values()
            (c2, e2), = o.t.values()
            if e1.get_id() > e2.get_id():
                e1, e2 = e2, e1
            return SInt.atom(e1 * e2) * (c1 * c2)
        return SInt.atom(z3.simplify(self.e * o.e, som=True))
    __rmul__ = __mul__

    def _divmod_const(self, d):
        """floor division by a positive constant, by splitting the linear form"""
        q, rest = {}, {}
        for k, (co, ex) in self.t.items():
            if co % d == 0:
                q[k] = (co // d, ex)
            else:
                rest[k] = (co, ex)
        qc, rc = divmod(self.c, d)
        quo = SInt(q, qc) if q else qc
        if not rest:
            return quo, rc
        r = SInt(rest, rc)
        lo, hi = r.bounds()
        if lo is not None and hi is not None and lo // d == hi // d:
            k = lo // d
            return quo + k, r - k * d
        # reduce coefficients modulo d when ranges allow a smaller form
        ex = r.e
        dq = ex / z3.IntVal(d)
        dm = ex % z3.IntVal(d)
        qa = SInt.atom(dq, None if lo is None else lo // d, None if hi is None else hi // d)
        # x - d*(x div d) is the remainder: keep both facts
        ra = SInt.atom(dm, 0, d - 1)
        return quo + qa, ra

    def __floordiv__(self, o):
        o = toint(o)
        if o is NotImplemented:
            return o
        if isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o < 0:
                return (-self) // (-o)
            return self._divmod_const(o)[0]
        return _sym_divmod(self, o)[0]

    def __mod__(self, o):
        o = toint(o)
        if o is NotImplemented:
            return o
        if isinstance(o, int):
            if o == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
            if o < 0:
                return -((-self) % (-o))
            return self._divmod_const(o)[1]
        return _sym_divmod(self, o)[1]

    def __rfloordiv__(self, o):
        o = toint(o)
        if o is NotImplemented:
            return o
        return _sym_divmod(o, self)[0]

    def __rmod__(self, o):
        o = toint(o)
        if o is NotImplemented:
            return o
        return _sym_divmod(o, self)[1]

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        raise Unsupported('true division of a symbolic int')
    __rtruediv__ = __truediv__

    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o <= 4 and m is None:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported('symbolic power')

    def __rpow__(self, o, m=None):
        raise Unsupported('symbolic exponent')

    def __lshift__(self, o):
        if isinstance(o, SInt):
            raise Unsupported('symbolic shift count')
        return self * (1 << o)

    def __rlshift__(self, o):
        raise Unsupported('symbolic shift count')

    def __rshift__(self, o):
        if isinstance(o, SInt):
            raise Unsupported('symbolic shift count')
        return self // (1 << o)

    def __rrshift__(self, o):
        raise Unsupported('symbolic shift count')

    def __and__(self, o):
        o = toint(o)
        if isinstance(o, SInt):
            # disjoint supports
            raise Unsupported('bitwise and of two symbolic ints')
        if o is NotImplemented:
            return o
        if o == 0:
            return 0
        if o < 0:
            # x & ~m == x - (x & m)
            return self - (self & ~o)
        r = 0
        a = 0
        while o >> a:
            if not (o >> a) & 1:
                a += 1
                continue
            b = a
            while (o >> b) & 1:
                b += 1
            r = r + ((self >> a) % (1 << (b - a))) * (1 << a)
            a = b
        return r
    __rand__ = __and__

    def __or__(self, o):
        o = toint(o)
        if o is NotImplemented:
            return o
        if isinstance(o, int):
            return self + o - (self & o)
        for a, b in ((self, o), (o, self)):
            lo, hi = b.bounds()
            if lo is not None and hi is not None and lo >= 0:
                k = hi.bit_length()
                if all(co % (1 << k) == 0 for co, _ in a.t.values()) and a.c % (1 << k) == 0:
                    return a + b
        raise Unsupported('bitwise or of two symbolic ints')
    __ror__ = __or__

    def __xor__(self, o):
        o = toint(o)
        if isinstance(o, int):
            return self + o - 2 * (self & o)
        raise Unsupported('bitwise xor of two symbolic ints')
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    # -- comparisons
    def _cmp(self, o, op):
        o = toint(o)
        if o is NotImplemented:
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
        d = self - o
        if isinstance(d, int):
            return {'==': d == 0, '!=': d != 0, '<': d < 0, '<=': d <= 0,
                    '>': d > 0, '>=': d >= 0}[op]
        lo, hi = d.bounds()
        if op in ('==', '!='):
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return op == '!='
            # divide by gcd
            l, r = _sides(d)
            e = l == r
            return SBool(e) if op == '==' else SBool(z3.Not(e))
        if op == '<':
            if hi is not None and hi < 0: return True
            if lo is not None and lo >= 0: return False
        elif op == '<=':
            if hi is not None and hi <= 0: return True
            if lo is not None and lo > 0: return False
        elif op == '>':
            if lo is not None and lo > 0: return True
            if hi is not None and hi <= 0: return False
        elif op == '>=':
            if lo is not None and lo >= 0: return True
            if hi is not None and hi < 0: return False
        l, r = _sides(d)
        return SBool({'<': l < r, '<=': l <= r, '>': l > r, '>=': l >= r}[op])

    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')
    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __hash__(self):
        raise SymHash()

    def __index__(self):
        raise Unsupported('symbolic int used where CPython needs a concrete one')

    def __int__(self):
        raise Unsupported('symbolic int converted by CPython')

    def __float__(self):
        raise Unsupported('symbolic int converted to float')

    def __repr__(self):
        return '<sym int>'

    def __format__(self, spec):
        return '<sym int>'

    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1
    @property
    def real(self): return self

    def bit_length(self):
        raise Unsupported('bit_length of a symbolic int')


import numbers
numbers.Integral.register(SInt)


def _sides(d):
    pos = SInt({k: v for k, v in d.t.items() if v[0] > 0}, max(d.c, 0))
    neg = SInt({k: (-v[0], v[1]) for k, v in d.t.items() if v[0] < 0}, max(-d.c, 0))
    return pos.e, neg.e


def _sym_divmod(a, b):
    if isinstance(b, SInt):
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if b < 0:
            raise Unsupported('division by a symbolic negative')
    ae, be = iexpr(a), iexpr(b)
    q = SInt.atom(ae / be)
    r = SInt.atom(ae % be, 0, None)
    return q, r


def toint(o):
    if isinstance(o, bool):
        return int(o)
    if isinstance(o, (int, SInt)):
        return o
    if isinstance(o, SBool):
        return o.as_int()
    return NotImplemented


def iexpr(x):
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SBool):
        return x.as_int().e
    raise Unsupported('not an int: %r' % (x,))


def mkint(e, lo=INF, hi=INF):
    """z3 int expression -> int or SInt"""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt.atom(e, lo, hi)


def fresh_int(name='x', lo=None, hi=None, note=False):
    c = ctx()
    v = z3.Int(c.fresh_name(name))
    s = SInt.atom(v, lo, hi)
    if lo is not None:
        c.assume_expr(v >= lo)
    if hi is not None:
        c.assume_expr(v <= hi)
    if note:
        c.note(name, s)
    return s


def fresh_bool(name='b', note=False):
    c = ctx()
    s = SBool(z3.Bool(c.fresh_name(name)))
    if note:
        c.note(name, s)
    return s


def assume(b):
    if isinstance(b, bool):
        if not b:
            raise EndPath()
        return
    ctx().assume_expr(bexpr(b))


def prove(b, name, info=None):
    return ctx().prove(b, name, info)


def ite(cond, a, b):
    """value-level if-then-else (ints / bools)"""
    if isinstance(cond, bool):
        return a if cond else b
    ce = z3.simplify(cond.e)
    if z3.is_true(ce):
        return a
    if z3.is_false(ce):
        return b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return wrapb(z3.If(ce, bexpr(a), bexpr(b)))
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    ae, be = iexpr(a), iexpr(b)
    if ae.eq(be):
        return a
    la, ha = a.bounds() if isinstance(a, SInt) else (int(a), int(a))
    lb, hb = b.bounds() if isinstance(b, SInt) else (int(b), int(b))
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    return SInt.atom(z3.If(ce, ae, be), lo, hi)


class UF(object):
    """uninterpreted function over ints; every application can add facts"""

    def __init__(self, name, arity=1, lo=None, hi=None, boolean=False, facts=None):
        self.name = ctx().fresh_name(name)
        self.f = z3.Function(self.name, *([z3.IntSort()] * arity +
                                         [z3.BoolSort() if boolean else z3.IntSort()]))
        self.lo, self.hi, self.boolean, self.facts = lo, hi, boolean, facts
        self.seen = set()

    def __call__(self, *args):
        a = self.f(*[z3.simplify(iexpr(x)) for x in args])
        if self.boolean:
            r = SBool(a)
        else:
            r = SInt.atom(a, self.lo, self.hi)
        i = a.get_id()
        c = ctx()
        if i not in self.seen:
            self.seen.add(i)
            c.rkeep.append(a)      # keeps ast ids unique on this path
            if not self.boolean:
                if self.lo is not None:
                    c.assume_expr(a >= self.lo)
                if self.hi is not None:
                    c.assume_expr(a <= self.hi)
            if self.facts:
                for f in self.facts(r, *args):
                    c.assume_expr(bexpr(f))
        return r


def conc(v, m):
    """evaluate a value (possibly nested) in a model"""
    if isinstance(v, SInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SBool):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, (list, tuple)):
        return type(v)(conc(x, m) for x in v)
    if isinstance(v, dict):
        return {k: conc(x, m) for k, x in v.items()}
    if hasattr(v, '_pv_conc'):
        return v._pv_conc(m)
    if callable(v):
        return v(m)
    return v
