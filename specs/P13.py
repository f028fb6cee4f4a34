"""P13: owned-object collections behave like lists and keyed sets.

Contract of a vector: its list of local keys is the list; the member at i is the object stored under that
key, from the cache if it is there, else from the folder of that key.  Invariant: an object cached at i
is the member of the key at i, keys are distinct and below next_free_key, and a detached vector caches all.
Contract of a set: the same, by unique key.  Members are identified with their local key, so every
operation is compared with the list (dictionary) operation on those."""
import random
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec, Val, Poison, UNBOUND
from pydv.seq import mk, seqof, val_eq, Seq
from pydv.libs import PvDict
from pydv.runner import Unit, Bounded, plain
from specs.aafsym import Key, LMap, Weak, none, Rd, Content, Buf, Out, flat, le
from specs.common import drive, drop_chunks, guarded, minimise

U32 = 0xFFFFFFFF


class Entry(object):
    """folder of a member: by its local key"""

    def __init__(self, t): self.t = t
    def __eq__(self, o): return isinstance(o, Entry) and (self.t == o.t)
    def __ne__(self, o): return not_(self == o) if isinstance(o, Entry) else True
    __hash__ = None


class Ob(object):
    """a member"""

    def __init__(self, w, t, dir, root, key=None):
        self.w, self.t, self.dir, self.root, self.unique_key = w, t, dir, root, key
        self.classdef = 'good'

    def detach(self):
        self.w.log.append(('detach', self.t))
        self.dir = None

    def attach(self, e):
        prove(self.dir is None, 'only detached objects are attached')
        self.w.log.append(('attach', self.t, e.t))
        self.dir = e


class RefClass(object):
    unique_key_pid, unique_key_size = 5, 16
    auid = 'class'
    class_name = 'C'

    def isinstance(self, c): return c == 'good'


class W(object):
    """owner, storage and members"""

    def __init__(self, P, attached, mode='rb+'):
        self.P, self.attached, self.log, self.obs = P, attached, [], []
        P.properties.weakref = Weak
        w = self

        class M(object):
            def add_modified(s, o): w.log.append(('modified', o))

            def read_object(s, e):
                prove(isinstance(e, Entry), 'read from an existing folder')
                return w.ob(e.t)

        class R(object):
            manager = M()
        self.root = R()
        self.root.mode = mode

        class Dir(object):
            def get(s, name, default=None):
                prove(isinstance(name, tuple) and name[0] == 'ref', 'a folder of the vector')
                for t in w.made:
                    if val_eq(t, name[1]):
                        return Entry(name[1])
                return Entry(name[1]) if w.exists(name[1]) else None

            def makedir(s, name):
                w.made.append(name[1])
                return Entry(name[1])

        class Owner(object): pass
        self.made = []
        self.exists = lambda t: bool(ctx().choose(2))
        self.owner = Owner()
        self.owner.root = self.root
        self.owner.dir = Dir() if attached else None
        self.owner.property_entries = PvDict()

    def ob(self, t, key=None):
        for t0, o in self.obs:
            if t0 is t or ctx().implied(val_eq(t0, t)):
                return o
        o = Ob(self, t, Entry(t) if self.attached else None, self.root, key)
        self.obs.append((t, o))
        return o

    def fresh(self, dir=None, root=None, key=None):
        return Ob(self, 'new', dir, root or self.root, key)

    def logged(self, k): return [x for x in self.log if x[0] == k]


def bare(P, cls, w, **k):
    """a property object with contracts in the place of what it calls"""
    d = dict(__slots__=('pid', 'format', 'version', 'data', 'parent', '_propertydef', 'references', 'objects', 'next_free_key', 'last_free_key', 'w', 'N', 'calls'))
    d.update(k)
    C = type('C', (getattr(P.properties, cls),), dict(d, __slots__=('w', 'N', 'calls')))
    v = C.__new__(C)
    v.parent, v.pid, v.format, v.data, v._propertydef, v.version = w.owner, 0x1234, 0, None, None, 32
    v.w, v.calls = w, []
    return v


def vector(P, attached=None, mode='rb+', **k):
    """a vector with any number of members"""
    if attached is None:
        attached = bool(ctx().choose(2))
    w = W(P, attached, mode)
    n = fresh_int('n', 0, 1 << 31)
    nfk = fresh_int('next', 0, U32 - 1)
    ref = UF('ref', 1, 0, facts=lambda r, i: [r < nfk])
    has = UF('cached', 1, boolean=True, facts=lambda r, i: [implies(r, and_(0 <= i, i < n))] + ([] if attached else [implies(and_(0 <= i, i < n), r)]))
    w.exists = lambda t: True
    d = dict(index_ref_name=lambda s, i: ('ref', s.references[i]), ref_classdef=RefClass(), index_name='idx')

    def att(s):
        s.calls.append(('attach', seqof(s.references).length()))
    d['attach'] = att
    d.update(k)
    for key in [x for x in d if d[x] is None]:
        del d[key]
    v = bare(P, 'StrongRefVectorProperty', w, **d)
    v.N = (n, nfk, ref, has)
    v.references = mk('list', n=n, f=ref)
    v.objects = LMap(has, lambda i: w.ob(ref(i)))
    v.next_free_key, v.last_free_key = nfk, U32
    return v, w, n, nfk, ref, has


def distinct(ref, n, *idx):
    for a in range(len(idx)):
        for b in range(a):
            assume(implies(and_(0 <= idx[a], idx[a] < n, 0 <= idx[b], idx[b] < n, idx[a] != idx[b]), ref(idx[a]) != ref(idx[b])))


def same_list(v, n, f, what):
    """the local keys are the list, and the cache agrees with it"""
    r = seqof(v.references)
    prove(r.length() == n, what + ': length')
    j = fresh_int('j', 0)
    assume(j < n)
    prove(r.at(j) == f(j), what + ': member at every position')
    cached(v, j, f, what)
    return j


def cached(v, j, f, what):
    if v.objects.get(j, None) is not None:
        o = v.objects.get(j, None)
        prove(val_eq(tok(v, o), f(j)), what + ': the object cached there is the member')
    else:
        prove(v.w.attached, what + ': a detached owner holds all its members')


def tok(v, o):
    return o.t


# ---------------------------------------------------------------- reading
def getting(P):
    v, w, n, nfk, ref, has = vector(P)
    i = fresh_int('index')
    assume(i >= -n)
    d = object()
    ctx().cover('entry')
    r = v.get(i, d)
    if i >= n:
        ctx().cover('beyond')
        prove(r is d, 'the default beyond the end')
    else:
        ctx().cover('found')
        k = ite(i < 0, i + n, i)
        prove(isinstance(r, Ob) and val_eq(r.t, ref(k)), 'the member at that index')
    same_list(v, n, ref, 'afterwards')
    prove(not w.log and not v.calls, 'nothing is changed')


def item(P):
    v, w, n, nfk, ref, has = vector(P)
    i = fresh_int('index')
    assume(i >= -n)
    ctx().cover('entry')
    try:
        r = v[i]
    except IndexError:
        prove(i >= n, 'only beyond the end')
        ctx().cover('refused')
        return
    prove(i < n, 'beyond the end is refused')
    prove(val_eq(r.t, ref(ite(i < 0, i + n, i))), 'the member at that index')
    prove(val_eq(v.__len__(), n), 'length')
    ctx().cover('found')


class Walk(LoopSpec):
    name = 'members'
    fn = '__iter__'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None
    def iteration(self, L, g): self.h['at'] = L.idx
    def next(self, L, g, env):
        prove(len(self.h['got']) == 1, 'one object per index')
        return g


def walking(P):
    from pydv import loops
    v, w, n, nfk, ref, has = vector(P)
    h = dict(got=[])
    loops.ACTIVE[:] = [[Walk(h)]]
    ctx().cover('entry')
    for o in v.__iter__():
        k = h['at']
        h['got'].append(o)
        prove(val_eq(o.t, ref(k)), 'the members in order')
        j = fresh_int('j', 0)
        assume(j < n)
        cached(v, j, ref, 'on the way')
        ctx().cover('member')
    prove(not w.log, 'nothing is changed')


def lazily(v):
    """contract of __iter__: the members in order"""
    n, f = seqof(v.references).length(), v.references
    return mk('list', n=n, f=lambda k: v.get(k))


def valuing(P):
    v, w, n, nfk, ref, has = vector(P, pv_lazy=lambda s: lazily(s))
    ctx().cover('entry')
    r = v.value
    prove(isinstance(r, (Seq, list)), 'a list')
    prove(seqof(r).length() == n, 'as many as members')
    k = fresh_int('k', 0)
    assume(k < n)
    prove(val_eq(seqof(r).at(k).t, ref(k)), 'in order')


# ---------------------------------------------------------------- refusals
def refusable(P, do, name):
    """an object of another file, one attached already and a read only file are refused with nothing changed"""
    def body(P):
        why = ctx().choose(4)
        v, w, n, nfk, ref, has = vector(P, mode='rb' if why == 2 else 'rb+')
        bad = w.fresh()
        if why == 0:
            bad.root = object()
        elif why == 1:
            bad.dir = Entry(fresh_int('elsewhere', 0))
        elif why == 3:
            bad.classdef = 'other'
        if name == '__setitem__' and why == 3:
            return
        before = bad.dir
        i = fresh_int('index')
        if name == '__setitem__':
            assume(and_(i >= -n, i < n))
        ctx().cover('entry')
        try:
            do(v, i, bad)
        except (P.exceptions.AAFAttachError, P.exceptions.AAFPropertyError, AssertionError) as e:
            ctx().cover('refused')
        else:
            prove(False, 'accepted')
        prove(not w.log and not v.calls, 'nothing happened to it, to the members or to the owner')
        prove(bad.dir is before, 'the object is where it was')
        prove(len(w.owner.property_entries) == 0, 'no property appeared')
        prove(val_eq(v.next_free_key, nfk), 'no key was used')
        same_list(v, n, ref, 'afterwards')
    return body


# ---------------------------------------------------------------- changing
class Moves(LoopSpec):
    """rebuilding of the cache with shifted indices"""
    name = 'shift'

    def __init__(self, fn, h): self.fn, self.h = fn, h
    def match(self, L, env): return L.lazy is not None and hasattr(L.lazy, 'map') and 'objects' in env

    def ghost0(self, L, env):
        self.z = L.lazy
        self.loc = dict(env)
        return {}

    def src(self, j):
        """index before the change of the one now at j (None: the new one)"""
        return self.h['src'](j)

    def want(self, L):
        h, z, idx = self.h, self.z, L.idx

        def has(j):
            s = self.src(j)
            fresh = h['new'](j)
            return or_(fresh, and_(not_(fresh), z.map.has(s), z.where(s) < idx))

        def val(j):
            if h['new'](j):
                return h['value']
            return z.map.val(self.src(j))
        return LMap(has, val)

    def state(self, L, g):
        want = self.want(L)
        h = self.h
        d = {'objects': Val(want, lambda cur: self.same(cur, want))}
        if h.get('item') is not None:
            z = self.z
            i = h['index']
            # (what an earlier pass of the loop took out)
            if self.taken(L, i):
                d['item'] = Val(h['item'], lambda cur: isinstance(cur, Ob) and val_eq(cur.t, h['item'].t))
            else:
                d['item'] = Val(Poison('item'), lambda cur: True)
        return d

    def taken(self, L, i):
        return and_(self.z.map.has(i), self.z.where(i) < L.idx)

    def same(self, cur, want):
        j = fresh_int('j')
        a = cur.get(j, None) if isinstance(cur, (dict, LMap)) else None
        b = want.get(j, None)
        if a is None or b is None:
            prove(a is None and b is None, 'the same indices are cached')
            return True
        prove(val_eq(a.t, b.t), 'with their members')
        return True


def inserting(P):
    from pydv import loops
    v, w, n, nfk, ref, has = vector(P)
    i = fresh_int('index')
    x = w.fresh()
    x.t = nfk
    pos = ite(i < 0, ite(i + n < 0, 0, i + n), ite(i > n, n, i))
    h = dict(src=lambda j: ite(j > pos, j - 1, j), new=lambda j: j == pos, value=x)
    loops.ACTIVE[:] = [[Moves('insert', h)]]
    ctx().cover('entry')
    v.insert(i, x)
    ctx().cover('done')
    f = lambda j: nfk if j == pos else ref(ite(j > pos, j - 1, j))
    same_list(v, n + 1, f, 'after insert')
    prove(val_eq(v.next_free_key, nfk + 1), 'its key is used up')
    after(v, w, n + 1)


def after(v, w, n):
    """the members are attached at the end, the property belongs to the owner, which is marked"""
    at = [x for x in v.calls if x[0] == 'attach']
    prove(len(at) >= 1 and val_eq(at[-1][1], n), 'attached when all members are in')
    prove(v.pid in w.owner.property_entries and w.owner.property_entries[v.pid] is v, 'the property is part of the owner')
    marked(v, w)


def marked(v, w):
    if w.attached:
        prove(len(w.logged('modified')) >= 1, 'the owner is marked as modified')
    for x in w.logged('modified'):
        prove(x[1] is w.owner, 'only the owner is marked')


class Check(LoopSpec):
    name = 'accepted'
    fn = 'extend'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None
    def constraint(self, L, g): return [implies(self.h['J'] < L.idx, self.h['good'](self.h['J']))]


class Adds(LoopSpec):
    name = 'added'
    fn = 'extend'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None and 'self' in env

    def state(self, L, g):
        h = self.h
        n, nfk, ref, has, v, k = h['n'], h['nfk'], h['ref'], h['has'], h['v'], L.idx
        want = LMap(lambda j: or_(has(j), and_(n <= j, j < n + k)), lambda j: h['w'].ob(ref(j)) if j < n else h['new'](j - n))

        def same(cur):
            j = fresh_int('j')
            a, b = cur.get(j, None), want.get(j, None)
            if a is None or b is None:
                prove(a is None and b is None, 'the same indices are cached')
                return True
            prove(val_eq(a.t, b.t), 'with their members')
            return True
        return {(v, 'next_free_key'): nfk + k,
                (v, 'references'): mk('list', n=n + k, f=lambda j: ref(j) if j < n else nfk + (j - n)),
                (v, 'objects'): Val(want, same)}


def extending(P, one=False):
    from pydv import loops
    v, w, n, nfk, ref, has = vector(P)
    m = fresh_int('m', 0, 1 << 20)
    good = UF('good', 1, boolean=True)
    J = fresh_int('J', 0)
    assume(J < m)
    kind = ctx().choose(3)
    memo = []

    def new(k):
        for k0, o in memo:
            if k0 is k or ctx().implied(val_eq(k0, k)):
                return o
        o = w.fresh()
        o.t = nfk + k
        if not good(k):
            if kind == 0:
                o.root = object()
            elif kind == 1:
                o.dir = Entry(fresh_int('elsewhere', 0))
            else:
                o.classdef = 'other'
        memo.append((k, o))
        return o

    class Values(object):
        def pv_lazy(s): return mk('list', n=m, f=new)
    h = dict(v=v, w=w, n=n, nfk=nfk, ref=ref, has=has, J=J, good=good, new=new)
    loops.ACTIVE[:] = [[Check(h), Adds(h)]]
    ctx().cover('entry')
    try:
        v.extend(Values())
    except (P.exceptions.AAFAttachError, AssertionError):
        ctx().cover('refused')
        prove(not w.log and not v.calls and len(w.owner.property_entries) == 0, 'nothing happened')
        prove(val_eq(v.next_free_key, nfk), 'no key was used')
        same_list(v, n, ref, 'afterwards')
        return
    ctx().cover('done')
    prove(good(J), 'only acceptable objects are accepted')
    same_list(v, n + m, lambda j: ref(j) if j < n else nfk + (j - n), 'after extend')
    prove(val_eq(v.next_free_key, nfk + m), 'their keys are used up')
    after(v, w, n + m)


def extend_empty(P):
    v, w, n, nfk, ref, has = vector(P)
    ctx().cover('entry')
    v.extend([])
    same_list(v, n, ref, 'after extending by nothing')
    prove(val_eq(v.next_free_key, nfk), 'no key is used up')


def appending(P):
    v, w, n, nfk, ref, has = vector(P)
    got = []
    C = type('C2', (type(v),), dict(extend=lambda s, x: got.append(list(x)), __slots__=()))
    v.__class__ = C
    x = w.fresh()
    ctx().cover('entry')
    v.append(x)
    prove(len(got) == 1 and len(got[0]) == 1 and got[0][0] is x, 'append is extend by one')


def popping(P):
    from pydv import loops
    v, w, n, nfk, ref, has = vector(P)
    i = fresh_int('index')
    assume(i >= -n)
    pos = ite(i < 0, i + n, i)
    h = dict(src=lambda j: ite(j >= pos, j + 1, j), new=lambda j: False, index=pos)
    if i < n:
        h['item'] = w.ob(ref(pos))
    loops.ACTIVE[:] = [[Moves('pop', h)]]
    ctx().cover('entry')
    try:
        r = v.pop(i)
    except IndexError:
        ctx().cover('refused')
        prove(i >= n, 'only beyond the end')
        prove(not w.log and not v.calls, 'and nothing happened')
        same_list(v, n, ref, 'afterwards')
        return
    ctx().cover('done')
    prove(i < n, 'beyond the end is refused')
    prove(r is h['item'], 'the object which was there')
    prove(r.dir is None and [x for x in w.log if x[0] == 'detach'] == [('detach', r.t)], 'it is detached, and only it')
    f = lambda j: ref(ite(j >= pos, j + 1, j))
    same_list(v, n - 1, f, 'after pop')
    prove(v.next_free_key >= nfk, 'its key is not used again')
    marked(v, w)


def replacing(P):
    v, w, n, nfk, ref, has = vector(P)
    i = fresh_int('index')
    assume(i >= -n)
    x = w.fresh()
    pos = ite(i < 0, i + n, i)
    old = w.ob(ref(pos)) if i < n else None
    ctx().cover('entry')
    try:
        v[i] = x
    except IndexError:
        ctx().cover('refused')
        prove(i >= n and not w.log and not v.calls, 'only beyond the end')
        same_list(v, n, ref, 'afterwards')
        return
    ctx().cover('done')
    prove(i < n, 'beyond the end is refused')
    prove(w.logged('detach') == [('detach', old.t)] and old.dir is None, 'the object which was there is detached, and only it')
    r = seqof(v.references)
    prove(r.length() == n, 'the number of members stays')
    j = fresh_int('j', 0)
    assume(j < n)
    distinct(ref, n, j, pos)
    o = v.objects.get(j, None)
    if j == pos:
        prove(o is x, 'the new object is there')
        t = r.at(j)
        prove(or_(t == ref(j), t >= nfk), 'under a key of its own')
    else:
        prove(r.at(j) == ref(j), 'the others stay')
        prove(o is None and w.attached or o is not None and val_eq(o.t, ref(j)), 'and their objects')
    prove(len(v.calls) >= 1, 'and is attached')
    marked(v, w)


class Drop(LoopSpec):
    name = 'dropped'
    fn = 'clear'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None
    def iteration(self, L, g): del self.h['w'].log[:]; self.at = L.idx

    def next(self, L, g, env):
        lg = [x for x in self.h['w'].log if x[0] == 'detach']
        prove(len(lg) == 1 and val_eq(lg[0][1], self.h['tok'](self.at)), 'every member is detached, once')
        ctx().cover('member')
        return g


def clearing(P):
    from pydv import loops
    v, w, n, nfk, ref, has = vector(P, pv_lazy=lambda s: lazily(s))
    loops.ACTIVE[:] = [[Drop(dict(w=w, tok=ref))]]
    ctx().cover('entry')
    v.clear()
    ctx().cover('done')
    prove(len(seqof(v.references)) == 0 if not isinstance(v.references, Seq) else v.references.length() == 0, 'no members')
    j = fresh_int('j')
    prove(v.objects.get(j, None) is None, 'nothing cached')
    marked(v, w)


def assigning(kind):
    def body(P):
        w = W(P, bool(ctx().choose(2)))
        got = []
        v = bare(P, kind, w, clear=lambda s: got.append('clear'), extend=lambda s, x: got.append(x))
        what = ctx().choose(2 if kind == 'StrongRefVectorProperty' else 3)
        w.owner.property_entries[v.pid] = v
        ctx().cover('entry')
        if what == 0:
            v.value = None
            prove(got == [] and len(w.owner.property_entries) == 0, 'None removes the property')
        elif what == 1:
            x = [1, 2]
            v.value = x
            prove(got[0] == 'clear' and len(got) == 2 and list(got[1]) == [1, 2], 'everything else replaces the members')
        else:
            v.value = {5: 1, 6: 2}
            prove(got[0] == 'clear' and len(got) == 2 and list(got[1]) == [1, 2], 'a dictionary gives its values')
        marked(v, w)
    return body


class Fix(LoopSpec):
    name = 'attached'
    fn = 'attach'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None

    def iteration(self, L, g):
        self.at = L.idx
        self.ok = True
        del self.h['w'].log[:]

    def next(self, L, g, env):
        h = self.h
        o, t = h['member'](self.at)
        if o is not None:
            prove(o.dir is not None and val_eq(o.dir.t, t), 'every member is attached to the folder of its key')
            for x in h['w'].log:
                prove(x[0] == 'attach' and val_eq(x[2], t) and x[1] is o.t, 'nothing else is attached')
            ctx().cover('member')
        return g


def attaching(P):
    """members of an owner which has just been attached, or which got new ones"""
    from pydv import loops
    w = W(P, True)
    n = fresh_int('n', 0, 1 << 31)
    ref = UF('ref', 1, 0)
    w.exists = lambda t: bool(ctx().choose(2))
    memo = []

    def member(k):
        for k0, o in memo:
            if k0 is k or ctx().implied(val_eq(k0, k)):
                return o
        o = Ob(w, 'm%d' % len(memo), Entry(ref(k)) if ctx().choose(2) else None, w.root)
        memo.append((k, o))
        return o
    v = bare(P, 'StrongRefVectorProperty', w, index_name='idx', index_ref_name=lambda s, i: ('ref', s.references[i]), get=lambda s, i, d=None: member(i),
             pv_lazy=lambda s: mk('list', n=n, f=member))
    v.references = mk('list', n=n, f=ref)
    loops.ACTIVE[:] = [[Fix(dict(w=w, member=lambda k: (member(k), ref(k))))]]
    ctx().cover('entry')
    v.attach()
    w2 = W(P, False)
    v.parent = w2.owner
    v.attach()
    prove(not w2.log, 'nothing is attached to a detached owner')


class Keep(LoopSpec):
    name = 'kept'
    fn = 'detach'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None and 'objects' in env

    def state(self, L, g):
        h = self.h
        want = h['prefix'](L)

        def same(cur):
            j = fresh_int('j')
            a, b = cur.get(j, None), want.get(j, None)
            if a is None or b is None:
                prove(a is None and b is None, 'the same are held')
                return True
            prove(val_eq(a.t, b.t), 'the members themselves')
            return True
        return {'objects': Val(want, same)}


def detaching(P):
    from pydv import loops
    v, w, n, nfk, ref, has = vector(P, True, pv_lazy=lambda s: lazily(s))
    h = dict(prefix=lambda L: LMap(lambda j: and_(0 <= j, j < L.idx), lambda j: w.ob(ref(j))))
    loops.ACTIVE[:] = [[Keep(h)]]
    ctx().cover('entry')
    v.detach()
    ctx().cover('done')
    j = fresh_int('j', 0)
    assume(j < n)
    o = v.objects.get(j, None)
    prove(o is not None and val_eq(o.t, ref(j)), 'every member is held')
    prove(isinstance(v.objects, (dict, LMap)), 'strongly')
    same_list(v, n, ref, 'afterwards')


# ---------------------------------------------------------------- index streams
def stub_index(P, v, name, c=None, total=None):
    """the index stream: read gives c, writes are logged"""
    h = dict(log=[], names=[])

    class S(object):
        def open(s, mode='r'):
            h['names'].append(mode)
            return Out(h['log']) if c is None else s

        def read(s, n=-1): return 'all'

    class D(object):
        def get(s, nm, default=None):
            prove(nm == name + ' index', 'the index of this collection')
            return S()

        def touch(s, nm):
            prove(nm == name + ' index', 'the index of this collection')
            return S()
    v.parent.dir = D()

    class R(Rd):
        def read(s, n=None):
            if n is None:
                n = total - s.pos
            return Rd.read(s, n)

    def buf(*a):
        if a:
            prove(a[0] == 'all', 'the whole stream')
            h['f'] = R(c)
        else:
            h['f'] = Buf()
        return h['f']
    return h, buf


def swap_io(P, buf, do):
    real = P.properties.BytesIO
    P.properties.BytesIO = buf
    try:
        do()
    finally:
        P.properties.BytesIO = real


def vreading(P):
    w = W(P, True)
    v = bare(P, 'StrongRefVectorProperty', w, index_name='idx')
    c = Content()
    h, buf = stub_index(P, v, 'idx', c)
    n = c.le(0, 4)
    ctx().cover('entry')
    swap_io(P, buf, v.read_index)
    r = seqof(v.references)
    prove(r.length() == n, 'as many keys as the index says')
    k = fresh_int('k', 0)
    assume(k < n)
    prove(r.at(k) == c.le(12 + 4 * k, 4), 'the keys in order')
    prove(and_(v.next_free_key == c.le(4, 4), v.last_free_key == c.le(8, 4)), 'the free keys')
    ctx().cover('done')


class VRec(LoopSpec):
    name = 'keys'
    fn = 'write_index'
    def __init__(self, h, head, size, rec): self.h, self.head, self.size, self.rec = h, head, size, rec
    def match(self, L, env): return L.lazy is not None
    def state(self, L, g): return {(self.h['f'], 'pos'): self.head + self.size * L.idx}
    def iteration(self, L, g): self.at, self.lg = L.idx, len(self.h['f'].log)

    def next(self, L, g, env):
        start, raw = flat(self.h['f'].log[self.lg:])
        prove(start == self.head + self.size * self.at, 'record: in its place')
        want = self.rec(self.at)
        prove(len(raw) == self.size, 'record: its size')
        prove(and_(*[val_eq(a, b) for a, b in zip(raw, want)]), 'record: its contents')
        ctx().cover('record')
        return g


def head_is(h, want):
    start, raw = flat([x for x in h['f'].log[:3 if len(want) == 12 else 5]])
    prove(start == 0 and len(raw) == len(want), 'head: its size')
    prove(and_(*[val_eq(a, b) for a, b in zip(raw, want)]), 'head: its contents')


def wrote(h, total):
    prove(val_eq(h['f'].pos, total), 'head and all records')
    prove(h['log'] and h['log'][0] == ('write', ('written', h['f'])), 'written at the start')
    prove(all(x == ('truncate', None) for x in h['log'][1:]), 'at most cut at its end')


def vwriting(P):
    from pydv import loops
    w = W(P, True)
    v = bare(P, 'StrongRefVectorProperty', w, index_name='idx')
    n, ref = fresh_int('n', 0, U32), UF('ref', 1, 0, U32)
    v.references = mk('list', n=n, f=ref)
    v.next_free_key, v.last_free_key = fresh_int('next', 0, U32), fresh_int('last', 0, U32)
    h, buf = stub_index(P, v, 'idx')
    ctx().cover('entry')
    loops.ACTIVE[:] = [[VRec(h, 12, 4, lambda k: le(ref(k), 4))]]
    swap_io(P, buf, v.write_index)
    ctx().cover('done')
    head_is(h, le(n, 4) + le(v.next_free_key, 4) + le(v.last_free_key, 4))
    wrote(h, 12 + 4 * n)


def digits(w):
    """any 32 bit number, written with its digits"""
    d = [fresh_int('%s%d' % (w, k), 0, 15) for k in range(8)]
    return sum([d[k] * (1 << 4 * k) for k in range(8)], 0)


def naming(cls):
    """different keys have different folders"""
    def body(P):
        w = W(P, True)
        v = bare(P, cls, w, **(dict(index_name='idx-1') if cls == 'StrongRefVectorProperty' else {}))
        a, b = digits('a'), digits('b')
        if cls != 'StrongRefVectorProperty':
            v.index_name = 'idx-1'
        v.references = mk('list', items=[a, b]) if cls == 'StrongRefVectorProperty' else {0: a, 1: b}
        assume(a != b)
        ctx().cover('entry')
        x, y = v.index_ref_name(0), v.index_ref_name(1)
        s, t = seqof(x), seqof(y)
        prove(or_(s.length() != t.length(), *[not_(val_eq(p, q)) for p, q in zip(s.items, t.items)]), 'different keys, different names')
        ctx().cover('different')
        z = seqof(v.index_ref_name(0))
        prove(len(z.items) == len(s.items) and and_(*[val_eq(p, q) for p, q in zip(s.items, z.items)]), 'one key, one name')
        prove(all(val_eq(p, ord(q)) for p, q in zip(s.items, 'idx-1{')), 'in the folder names of this collection')
    return body

# ---------------------------------------------------------------- sets
class S(object):
    """a set with any number of members: unique key -> local key, and the cached ones"""

    def __init__(self, P, attached=None, mode='rb+', **k):
        if attached is None:
            attached = bool(ctx().choose(2))
        self.w = w = W(P, attached, mode)
        self.nfk = nfk = fresh_int('next', 0, U32 - 1)
        self.fresh_maps()
        w.exists = lambda t: True
        d = dict(index_ref_name=lambda s, key: ('ref', s.references[key]), typedef=type('T', (), dict(ref_classdef=RefClass()))(),
                 __slots__=('w', 'N', 'calls'))
        d.update(k)
        for key in [x for x in d if d[x] is None]:
            del d[key]
        self.v = v = bare(P, 'StrongRefSetProperty', w, **d)
        v.index_name, v.key_pid, v.key_size, v.last_free_key = 'idx', 5, 16, U32
        v.references, v.objects, v.next_free_key = self.refs(), self.objs(), nfk

    def fresh_maps(self, nfk=None):
        nfk = self.nfk if nfk is None else nfk
        at = self.w.attached
        self.has = UF('member', 1, boolean=True)
        self.loc = UF('local', 1, 0, facts=lambda r, i: [r < nfk])
        has = self.has
        self.cac = UF('cached', 1, boolean=True, facts=lambda r, i: [implies(r, has(i)) if at else iff(r, has(i))])

    def refs(self): return LMap(self.has, self.loc)
    def objs(self):
        loc, w = self.loc, self.w
        return LMap(self.cac, lambda k: w.ob(loc(k), k))

    def same(self, has, loc, what, replaced=None):
        """the mapping, for an arbitrary key; cached objects are the members"""
        v, q = self.v, fresh_int('q')
        prove(iff(v.references.pv_contains(q), has(q)), what + ': the same keys')
        o = v.objects.get(q, None)
        if has(q):
            prove(val_eq(v.references[q], loc(q)), what + ': with their members')
            if o is None:
                prove(self.w.attached, what + ': a detached owner holds all its members')
            elif replaced is not None and q == replaced[0]:
                prove(o is replaced[1], what + ': the new object')
            else:
                prove(val_eq(o.t, loc(q)), what + ': the object cached there is the member')
        else:
            prove(o is None, what + ': nothing is cached for other keys')


def sgetting(P):
    s = S(P)
    v, q = s.v, fresh_int('key')
    how = ctx().choose(3)
    d = object()
    ctx().cover('entry')
    if how == 0:
        r = v.get(q, d)
        missing = r is d
    elif how == 1:
        try:
            r = v[q]
            missing = False
        except KeyError:
            missing = True
    else:
        prove(iff(v.__contains__(q), s.has(q)), 'in')
        return
    prove(iff(missing, not_(s.has(q))), 'missing exactly when it is no member')
    if not missing:
        ctx().cover('found')
        prove(isinstance(r, Ob) and val_eq(r.t, s.loc(q)), 'the member with that key')
    else:
        ctx().cover('missing')
    s.same(s.has, s.loc, 'afterwards')
    prove(not s.w.log, 'nothing is changed')


class SWalk(LoopSpec):
    name = 'members'
    fn = 'items'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None
    def iteration(self, L, g): self.h['at'], self.h['keys'] = L.idx, L.lazy
    def next(self, L, g, env):
        prove(len(self.h['got']) == 1, 'one object per key')
        return g


def swalking(P):
    from pydv import loops
    s = S(P)
    h = dict(got=[])
    loops.ACTIVE[:] = [[SWalk(h)]]
    ctx().cover('entry')
    how = ctx().choose(2)
    for x in (s.v.items() if how else s.v.__iter__()):
        k = h['keys'].at(h['at'])
        h['got'].append(x)
        o = x
        if how:
            prove(val_eq(x[0], k), 'the key')
            o = x[1]
        prove(val_eq(o.t, s.loc(k)), 'its member')
        ctx().cover('member')
    prove(not s.w.log, 'nothing is changed')


class SCheck(Check):
    pass


class SAdds(LoopSpec):
    """one step is one assignment of a dictionary"""
    name = 'added'
    fn = 'extend'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None

    def fresh(self, L):
        s = self.h['s']
        n = fresh_int('next', 0, U32 - 1)
        s.fresh_maps(n)
        return dict(n=n, r=s.refs(), o=s.objs())

    def ghost0(self, L, env):
        v = self.h['s'].v
        return dict(n=v.next_free_key, r=v.references, o=v.objects)

    def state(self, L, g):
        v = self.h['s'].v
        return {(v, 'next_free_key'): g['n'], (v, 'references'): Val(g['r'], lambda cur: True), (v, 'objects'): Val(g['o'], lambda cur: True)}

    def iteration(self, L, g):
        h = self.h
        h['stage'] = 2
        self.n = g['n']
        self.at = L.idx
        del h['s'].w.log[:]

    def next(self, L, g, env):
        h = self.h
        s = h['s']
        v, w, x = s.v, s.w, h['item'](self.at)
        key = x.unique_key
        had, cached = bool(s.has(key)), bool(s.cac(key))
        s.w.log, lg = [], s.w.log
        t = s.loc(key) if had else self.n
        prove(val_eq(v.next_free_key, self.n if had else self.n + 1), 'a new member uses up one key')
        old = w.ob(s.loc(key), key) if had else None
        if had and cached and old is not x and w.attached:
            prove(('detach', old.t) in [y for y in lg if y[0] == 'detach'] and old.dir is None, 'what was there is detached')
            ctx().cover('replaced')
        prove(all(y[0] != 'detach' or had and cached and old is not x and y[1] is old.t for y in lg), 'nothing else is detached')
        if w.attached:
            prove(x.dir is not None and val_eq(x.dir.t, t), 'it is attached to the folder of its key')
            ctx().cover('attached')
        else:
            prove(x.dir is None, 'it stays detached')
        prove(v.objects.get(key, None) is x, 'the new object is the member')
        hk, lc = s.has, s.loc
        s.same(lambda q: or_(q == key, hk(q)), lambda q: t if q == key else lc(q), 'after the step', (key, x))
        ctx().cover('step')
        return dict(n=v.next_free_key, r=v.references, o=v.objects)


def sextending(P):
    from pydv import loops
    why = ctx().choose(3)
    attached = bool(ctx().choose(2))
    s = S(P, attached)
    v, w = s.v, s.w
    m = fresh_int('m', 1, 1 << 20)
    good, key = UF('good', 1, boolean=True), UF('key of item', 1)
    J = fresh_int('J', 0)
    assume(J < m)
    memo = []
    h = dict(s=s, J=J, good=good, stage=1)

    def new(k):
        for k0, o in memo:
            if k0 is k or ctx().implied(val_eq(k0, k)):
                return o
        o = None
        if h['stage'] == 2:
            assume(good(k))
            if not attached and s.has(key(k)) and ctx().choose(2):
                o = w.ob(s.loc(key(k)), key(k))     # the member itself, added again
        if o is None:
            o = w.fresh(key=key(k))
        if h['stage'] == 1 and not good(k):
            if why == 0:
                o.root = object()
            elif why == 1:
                o.dir = Entry(fresh_int('elsewhere', 0))
            else:
                o.classdef = 'other'
        if h['stage'] == 2:
            memo.append((k, o))
        return o

    class Values(object):
        def pv_lazy(s_): return mk('list', n=m, f=new)
    h['item'] = new
    has0, loc0, n0 = s.has, s.loc, s.nfk
    if ctx().choose(2):
        v.index_name = v.key_pid = v.key_size = None
        d = dict(propertydef=type('D', (), dict(property_name='Things'))())
        v.__class__ = type('C2', (type(v),), dict(d, __slots__=()))
    loops.ACTIVE[:] = [[SCheck(h), SAdds(h)]]
    ctx().cover('entry')
    try:
        v.extend(Values())
    except (P.exceptions.AAFAttachError, TypeError) as e:
        ctx().cover('refused')
        prove(not w.log and len(w.owner.property_entries) == 0, 'nothing happened')
        prove(val_eq(v.next_free_key, n0), 'no key was used')
        s.same(has0, loc0, 'afterwards')
        return
    ctx().cover('done')
    prove(good(J), 'only acceptable objects are accepted')
    prove(v.pid in w.owner.property_entries and w.owner.property_entries[v.pid] is v, 'the property is part of the owner')
    prove(val_eq(v.key_pid, 5) and v.key_size == 16 and v.index_name is not None, 'its kind of key is known')
    marked(v, w)


def spopping(P):
    s = S(P)
    v, w, q = s.v, s.w, fresh_int('key')
    had = bool(s.has(q))
    x = w.ob(s.loc(q), q) if had else None
    ctx().cover('entry')
    try:
        r = v.pop(q)
    except KeyError:
        ctx().cover('refused')
        prove(not had and not w.log, 'only when it is no member')
        s.same(s.has, s.loc, 'afterwards')
        return
    ctx().cover('done')
    prove(had and r is x, 'the member with that key')
    prove(r.dir is None and w.logged('detach') == [('detach', r.t)], 'it is detached, and only it')
    s.same(lambda k: and_(k != q, s.has(k)), s.loc, 'after pop')
    prove(v.next_free_key >= s.nfk, 'its key is not used again')
    marked(v, w)


def sswap(P):
    s = S(P)
    v, w = s.v, s.w
    a, b = fresh_int('old key'), fresh_int('new key')
    assume(and_(not_(s.has(b)), a != b))
    had = bool(s.has(a))
    x = w.ob(s.loc(a), a) if had else None
    if had:
        x.unique_property = type('U', (), {})()
    nk = Key(b)
    ctx().cover('entry')
    try:
        v.swap_unique_key(a, nk)
    except ValueError:
        prove(not had, 'only when it is no member')
        s.same(s.has, s.loc, 'afterwards')
        ctx().cover('refused')
        return
    ctx().cover('done')
    prove(had, 'no such member')
    prove(x.unique_property.data is nk.bytes_le, 'its own key is changed')
    prove(not w.logged('detach') and not w.logged('attach'), 'it stays where it is')
    s.same(lambda q: or_(q == b, and_(q != a, s.has(q))), lambda q: s.loc(a) if q == b else s.loc(q), 'after the change')
    prove(v.objects.get(b, None) is x, 'and is found under the new key')
    marked(v, w)


def sclearing(P):
    from pydv import loops
    s = S(P)
    w = s.w
    h = dict(w=w)
    # contract of values(): every member, in some order
    z = {}

    def values(v):
        n, at, where = LMap(s.has, s.loc).listing()
        h['tok'] = lambda k: s.loc(at(k))
        return type('V', (), dict(pv_lazy=lambda x: mk('list', n=n, f=lambda k: w.ob(s.loc(at(k)), at(k)))))()
    s.v.__class__ = type('C2', (type(s.v),), dict(values=values, pv_lazy=lambda v: values(v).pv_lazy(), __slots__=()))
    loops.ACTIVE[:] = [[Drop(h)]]
    ctx().cover('entry')
    s.v.clear()
    ctx().cover('done')
    q = fresh_int('q')
    prove(not (q in s.v.references) and s.v.objects.get(q, None) is None, 'no members')
    marked(s.v, w)


def sdetaching(P):
    from pydv import loops
    s = S(P, True)
    w = s.w
    h = {}

    def items(v):
        n, at, where = LMap(s.has, s.loc).listing()
        h['where'] = where
        return type('V', (), dict(pv_lazy=lambda x: mk('list', n=n, f=lambda k: (at(k), w.ob(s.loc(at(k)), at(k))))))()
    h['prefix'] = lambda L: LMap(lambda j: and_(s.has(j), h['where'](j) < L.idx), lambda j: w.ob(s.loc(j), j))
    s.v.__class__ = type('C2', (type(s.v),), dict(items=items, __slots__=()))
    loops.ACTIVE[:] = [[Keep(h)]]
    ctx().cover('entry')
    s.v.detach()
    ctx().cover('done')
    q = fresh_int('q')
    if s.has(q):
        o = s.v.objects.get(q, None)
        prove(o is not None and val_eq(o.t, s.loc(q)), 'every member is held')
    prove(isinstance(s.v.objects, (dict, LMap)), 'strongly')
    s.same(s.has, s.loc, 'afterwards')


class SFix(LoopSpec):
    name = 'attached'
    fn = 'attach'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None

    def iteration(self, L, g):
        self.k = L.lazy.at(L.idx)
        del self.h['w'].log[:]

    def next(self, L, g, env):
        h, k = self.h, self.k
        if h['s'].cac(k):
            o, t = h['member'](k), h['s'].loc(k)
            prove(o.dir is not None and val_eq(o.dir.t, t), 'every member is attached to the folder of its key')
            for x in h['w'].log:
                prove(x[0] == 'attach' and val_eq(x[2], t), 'nothing else is attached')
            ctx().cover('member')
        return g


def sattaching(P):
    from pydv import loops
    s = S(P, True)
    w = s.w
    w.exists = lambda t: bool(ctx().choose(2))
    memo = []

    def member(k):
        for k0, o in memo:
            if k0 is k or ctx().implied(val_eq(k0, k)):
                return o
        o = Ob(w, 'm%d' % len(memo), Entry(s.loc(k)) if ctx().choose(2) else None, w.root)
        memo.append((k, o))
        return o
    s.v.objects = LMap(s.cac, member)
    loops.ACTIVE[:] = [[SFix(dict(w=w, s=s, member=member))]]
    ctx().cover('entry')
    s.v.attach()
    w2 = W(P, False)
    s.v.parent = w2.owner
    s.v.attach()
    prove(not w2.log, 'nothing is attached to a detached owner')


class SRead(LoopSpec):
    name = 'records'
    fn = 'read_index'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None or True
    def iteration(self, L, g): self.at = L.idx; del self.h['stored'][:]

    def next(self, L, g, env):
        h, k, c = self.h, self.at, self.h['c']
        size = h['size']
        prove(len(h['stored']) == 1, 'one member per record')
        key, local = h['stored'][0]
        base = 15 + k * (8 + size)
        prove(val_eq(local, c.le(base, 4)), 'its local key')
        d = seqof(key.raw)
        prove(d.length() == size, 'its key')
        prove(and_(*[val_eq(d.at(j), c.f(base + 8 + j)) for j in range(size)]), 'its own key')
        prove(key.kind == ('AUID' if size == 16 else 'MobID'), 'of that kind')
        ctx().cover('record')
        return g


def sreading(size):
    def body(P):
        from pydv import loops
        w = W(P, True)
        v = bare(P, 'StrongRefSetProperty', w)
        v.index_name = 'idx'
        c = Content()
        n = c.le(0, 4)
        assume(c.f(14) == size)
        total = 15 + n * (8 + size)
        h, buf = stub_index(P, v, 'idx', c, total)
        # reference counts are one
        one = UF('one', 1, facts=lambda r, k: [c.le(15 + k * (8 + size) + 4, 4) == 1])
        stored = []

        class Refs(object):
            def __setitem__(s, k, x): stored.append((k, x))
        v.references = Refs()

        def kind(nm):
            class K(object):
                def __init__(s, bytes_le=None): s.raw, s.kind = bytes_le, nm
            return K

        class RR(SRead):
            def iteration(s, L, g):
                SRead.iteration(s, L, g)
                one(L.idx)
        hh = dict(c=c, size=size, stored=stored)
        ra, rm = P.properties.AUID, P.properties.MobID
        P.properties.AUID, P.properties.MobID = kind('AUID'), kind('MobID')
        loops.ACTIVE[:] = [[RR(hh)]]
        ctx().cover('entry')
        try:
            swap_io(P, buf, v.read_index)
        finally:
            P.properties.AUID, P.properties.MobID = ra, rm
        ctx().cover('done')
        prove(and_(v.next_free_key == c.le(4, 4), v.last_free_key == c.le(8, 4), v.key_pid == c.le(12, 2), v.key_size == size), 'the free keys and the kind of key')
    return body


def swriting(size):
    def body(P):
        from pydv import loops
        w = W(P, True)
        v = bare(P, 'StrongRefSetProperty', w)
        v.index_name = 'idx'
        n, ref, key = fresh_int('n', 0, U32), UF('ref', 1, 0, U32), UF('keybyte', 2, 0, 255)
        v.key_pid, v.key_size = fresh_int('pid', 0, 0xFFFF), size
        v.next_free_key, v.last_free_key = fresh_int('next', 0, U32), fresh_int('last', 0, U32)
        cells = lambda k: [key(k, j) for j in range(size)]

        class Refs(object):
            def pv_len(s): return n

            def items(s):
                def rec(k):
                    o = type('K', (), {})()
                    o.bytes_le = mk('bytes', items=cells(k))
                    return (o, ref(k))
                return type('V', (), dict(pv_lazy=lambda x: mk('list', n=n, f=rec)))()
        v.references = Refs()
        h, buf = stub_index(P, v, 'idx')
        ctx().cover('entry')
        loops.ACTIVE[:] = [[VRec(h, 15, 8 + size, lambda k: le(ref(k), 4) + [1, 0, 0, 0] + cells(k))]]
        swap_io(P, buf, v.write_index)
        ctx().cover('done')
        head_is(h, le(n, 4) + le(v.next_free_key, 4) + le(v.last_free_key, 4) + le(v.key_pid, 2) + [size])
        wrote(h, 15 + (8 + size) * n)
    return body


# ---------------------------------------------------------------- single owned objects
def single(P):
    """assigning an owned object: the old one is detached, the new one attached to the folder of the property"""
    attached = bool(ctx().choose(2))
    mode = ('rb+', 'rb')[ctx().choose(2)]
    w = W(P, attached, mode)
    T = type('T', (), dict(ref_classdef=RefClass()))()

    class D(object):
        def __init__(s): s.there = bool(ctx().choose(2))
        def get(s, name, default=None):
            prove(name == 'thing-1234' or name == 'old', 'the folder of the property')
            return Entry(1) if s.there or s.made else None
        made = False
        def makedir(s, name): s.made = True; return Entry(1)
    if attached:
        w.owner.dir = D()
    v = bare(P, 'StrongRefProperty', w, typedef=T, propertydef=type('PD', (), dict(property_name='thing'))())
    v.ref = v.objectref = None
    old = None
    if ctx().choose(2):
        v.ref, v.data = 'old', b'old'
        w.owner.property_entries[v.pid] = v
        old = Ob(w, 'old', Entry(1) if attached else None, w.root)
        v.objectref = Weak.ref(old) if attached else old
        if attached:
            w.owner.dir.there = True
    had = old is not None
    what = ctx().choose(4)
    x = w.fresh()
    if what == 0:
        x = None
    elif what == 2:
        x.root = object()
    elif what == 3:
        x.classdef = 'other'
    ctx().cover('entry')
    try:
        v.value = x
    except (P.exceptions.AAFAttachError, TypeError, P.exceptions.AAFPropertyError):
        ctx().cover('refused')
        prove(mode == 'rb' or what in (2, 3), 'only what does not belong here')
        prove(not w.log, 'nothing happened')
        prove(v.object is old and (v.pid in w.owner.property_entries) == had, 'what was there stays')
        prove(x is None or x.dir is None, 'and it is not attached')
        return
    prove(mode != 'rb' and what in (0, 1), 'refused otherwise')
    marked(v, w)
    if what == 0:
        prove(v.pid not in w.owner.property_entries, 'the property is gone')
        ctx().cover('removed')
        return
    ctx().cover('set')
    prove(v.value is x and w.owner.property_entries[v.pid] is v, 'the new object is the value')
    prove(v.ref is not None and v.data is not None, 'its folder has a name')
    if had:
        prove(w.logged('detach') == [('detach', 'old')], 'the old object is detached')
    else:
        prove(not w.logged('detach'), 'nothing is detached')
    if attached:
        prove(x.dir == Entry(1), 'attached to the folder of the property')
    else:
        prove(x.dir is None, 'kept until its owner is attached')
        prove(not isinstance(v.objectref, Weak.ref), 'strongly')
    # detaching keeps the object, attaching puts it in its folder
    v.detach()
    prove(v.objectref is x, 'detach keeps it')


def single_read(P):
    w = W(P, True)
    there = bool(ctx().choose(2))

    class D(object):
        def get(s, name, default=None):
            prove(name == 'ref', 'its own folder')
            return Entry(3) if there else None
    w.owner.dir = D()
    v = bare(P, 'StrongRefProperty', w)
    v.ref, v.objectref = 'ref', None
    ctx().cover('entry')
    x = v.value
    if there:
        prove(isinstance(x, Ob) and val_eq(x.t, 3), 'the object of its folder')
        prove(v.value is x and v.object is x, 'the same object again')
    else:
        prove(x is None, 'no folder, no object')


# ---------------------------------------------------------------- objects
KINDS = (None, 'StrongRefProperty', 'StrongRefVectorProperty', 'StrongRefSetProperty', 'StreamProperty', 'WeakRefProperty', 'WeakRefVectorProperty')


def some_property(P, log):
    nm = KINDS[ctx().choose(len(KINDS))]
    base = getattr(P.properties, nm) if nm else P.properties.Property
    C = type('C', (base,), dict(attach=lambda s: log.append(('attach', s)), detach=lambda s: log.append(('detach', s)), __slots__=('needs',)))
    p = C.__new__(C)
    p.needs = nm in KINDS[1:5]
    return p


class Props(object):
    """the properties of an object: any number"""

    def __init__(self, P, log): self.P, self.log = P, log
    def items(self):
        n = fresh_int('properties', 0)
        return type('V', (), dict(pv_lazy=lambda s: mk('list', n=n, f=lambda k: (k, some_property(self.P, self.log)))))()

    def values(self):
        n = fresh_int('properties', 0)
        return type('V', (), dict(pv_lazy=lambda s: mk('list', n=n, f=lambda k: some_property(self.P, self.log))))()


class Each(LoopSpec):
    name = 'properties'
    once = False
    def __init__(self, fn, log): self.fn, self.log = fn, log
    def match(self, L, env): return L.lazy is not None
    def iteration(self, L, g): del self.log[:]

    def next(self, L, g, env):
        p = env['p']
        prove(self.log == ([(self.fn, p)] if p.needs else []), 'owning properties follow, once')
        ctx().cover('owning' if p.needs else 'plain')
        return g


def obj_attach(P):
    from pydv import loops
    log, mod = [], []

    class M(object):
        def add_modified(s, o): mod.append((o, o.dir))
    R = type('R', (), dict(manager=M()))
    C = type('C', (P.core.AAFObject,), dict(class_id='cid'))
    o = C.__new__(C)
    o.root = R()
    o.property_entries = Props(P, log)

    class E(object):
        class_id = None
        def path(s): return '/x'
    e, already = E(), bool(ctx().choose(2))
    if already:
        o.dir = other = E()
    loops.ACTIVE[:] = [[Each('attach', log)]]
    ctx().cover('entry')
    try:
        o.attach(e)
    except P.exceptions.AAFAttachError:
        prove(already and o.dir is other and not mod and e.class_id is None, 'an attached object is refused and stays')
        ctx().cover('refused')
        return
    prove(not already, 'an attached object is refused')
    prove(o.dir is e and e.class_id == 'cid', 'it is in that folder, which has its class')
    prove(mod == [(o, e)], 'and will be saved')
    ctx().cover('done')


class Items(LoopSpec):
    name = 'objects'
    fn = 'detach'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None

    def state(self, L, g):
        h = self.h
        return {(h['o'], 'dir'): Val(None if L.idx > h['n'] else h['own'], lambda cur: cur is (None if L.idx > h['n'] else h['own']))}

    def iteration(self, L, g): del self.h['popped'][:]

    def next(self, L, g, env):
        it = env['item']
        prove(it.dir is None, 'each object is detached')
        prove(it.was is None or self.h['popped'] == [it.was.p], 'and will not be saved')
        ctx().cover('object' if it is not self.h['o'] else 'itself')
        return g


def obj_detach(P):
    """walk_references() by contract: everything the object owns, then the object"""
    from pydv import loops
    popped, log = [], []

    class M(object):
        def pop(s, p, d=None): popped.append(p)
    root = type('R', (), dict(manager=M()))()

    class E(object):
        def __init__(s, p): s.p = p
        def path(s): return s.p
    n = fresh_int('objects below', 0)
    memo = []

    def below(k):
        if k == n:
            return o, []
        for k0, x in memo:
            if k0 is k or ctx().implied(val_eq(k0, k)):
                return x, []
        x = type('O', (), {})()
        x.dir = x.was = E(('below', len(popped))) if ctx().choose(2) else None
        x.property_entries = Props(P, log)
        memo.append((k, x))
        return x, []

    def walk(self, topdown=False):
        prove(topdown, 'members before their owner')
        return type('V', (), dict(pv_lazy=lambda s: mk('list', n=n + 1, f=below)))()
    C = type('C', (P.core.AAFObject,), dict(walk_references=walk))
    o = C.__new__(C)
    o.root = root
    o.dir = o.was = E('own')
    o.property_entries = Props(P, log)
    h = dict(popped=popped, o=o, own=o.dir, n=n)
    loops.ACTIVE[:] = [[Items(h), Each('detach', log)]]
    ctx().cover('entry')
    o.detach()
    prove(o.dir is None, 'it is detached')
    ctx().cover('done')


class Gather(LoopSpec):
    """what each property owns is appended"""
    name = 'properties'
    fn = 'walk_references'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None

    def fresh(self, L):
        f, s = UF('ref so far', 1), UF('stream so far', 1)
        return dict(n=fresh_int('refs', 0), f=f, m=fresh_int('streams', 0), s=s)

    def ghost0(self, L, env): return dict(n=0, f=lambda k: 0, m=0, s=lambda k: 0)

    def state(self, L, g):
        return {'refs': Val(mk('list', n=g['n'], f=g['f']), lambda cur: True), 'streams': Val(mk('list', n=g['m'], f=g['s']), lambda cur: True)}

    def iteration(self, L, g): self.g = g

    def next(self, L, g, env):
        h, p = self.h, env['p']
        r, st = seqof(env['refs']), seqof(env['streams'])
        k = fresh_int('k', 0)
        prove(r.length() == g['n'] + p.count, 'everything it owns')
        assume(k < r.length())
        prove(r.at(k) == ite(k < g['n'], g['f'](k), p.member(k - g['n'])), 'after what the others own')
        prove(st.length() == g['m'] + (1 if p.stream else 0), 'its stream')
        ctx().cover('%s %s' % (p.kind, 'empty' if p.kind == 'StrongRefProperty' and p.count == 0 else ''))
        return g


class Inner(LoopSpec):
    name = 'members'
    fn = 'walk_references'
    once = False
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None and 'p' in env and getattr(env['p'], 'many', False)

    def ghost0(self, L, env):
        r = seqof(env['refs'])
        self.r0 = (r.length(), r.snapshot() if hasattr(r, 'snapshot') else r)
        return {}

    def state(self, L, g):
        n, r = self.r0
        p = self.h['p'][0]
        return {'refs': mk('list', n=n + L.idx, f=lambda k: r.at(k) if k < n else p.member(k - n))}


def walking_refs(P):
    from pydv import loops
    h = dict(p=[])
    kinds = KINDS

    def some(k):
        nm = kinds[ctx().choose(len(kinds))]
        base = getattr(P.properties, nm) if nm else P.properties.Property
        C = type('C', (base,), dict(value=property(lambda s: s.v), __slots__=('v', 'count', 'member', 'stream', 'kind', 'many')))
        p = C.__new__(C)
        p.kind, p.stream, p.many, p.count = nm, nm == 'StreamProperty', False, 0
        p.member = member = UF('member', 1, 1)
        p.v = 7
        if nm == 'StrongRefProperty':
            p.count = ctx().choose(2)
            p.v = member(0) if p.count else None
        elif nm in ('StrongRefVectorProperty', 'StrongRefSetProperty'):
            p.many = True
            p.count = m = fresh_int('members', 0)
            p.v = mk('list', n=m, f=member)
        h['p'][:] = [p]
        return p
    n = fresh_int('properties', 0)
    C = type('C', (P.core.AAFObject,), dict(properties=lambda s: type('V', (), dict(pv_lazy=lambda x: mk('list', n=n, f=some)))()))
    o = C.__new__(C)
    td = bool(ctx().choose(2))
    loops.ACTIVE[:] = [[Gather(h), Inner(h)]]
    ctx().cover('entry')
    try:
        g = o.walk_references(topdown=td)
        first = next(g)
        prove(not td and first[0] is o, 'the object itself comes first unless asked otherwise')
        ctx().cover('first')
    except Unsupported:
        # the loop over what is owned: see the next unit
        ctx().cover('further')


class Sub(LoopSpec):
    name = 'below'
    fn = 'walk_references'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None


def walking_down(P):
    """what the members' walks give, in order, and the object itself first or last"""
    from pydv import loops
    m, td = fresh_int('members', 0), bool(ctx().choose(2))
    log = []
    C0 = type('Mem', (), dict())

    def mem(k):
        x = C0()
        x.k = k

        def walk(topdown=False):
            prove(bool(topdown) == td, 'in the same direction')
            c = fresh_int('below', 0)
            return type('V', (), dict(pv_lazy=lambda s: mk('list', n=c, f=lambda j: (('item', k, j), 'streams'))))()
        x.walk_references = walk
        return x
    V = type('Vec', (P.properties.StrongRefVectorProperty,), dict(value=property(lambda s: 0), __slots__=()))

    class Pr(object): pass
    C = type('C', (P.core.AAFObject,), dict(properties=lambda s: []))
    o = C.__new__(C)

    class Lz(list):
        pass
    real = P.core.AAFObject.properties
    got = []

    class First(LoopSpec):
        """after the properties: members are known"""
        name = 'properties'
        fn = 'walk_references'
        def match(self, L, env): return L.lazy is not None
        def state(self, L, g): return {'refs': Val(mk('list', n=m, f=mem), lambda cur: True), 'streams': Val(mk('list', n=0, f=lambda k: 0), lambda cur: True)}
        def iteration(self, L, g): assume(L.idx == zero)
    zero = fresh_int('zero', 0, 0)
    C.properties = lambda s: type('V', (), dict(pv_lazy=lambda x: mk('list', n=zero, f=lambda k: Pr())))()

    class Outer(Sub):
        name = 'members'
        def iteration(self, L, g): self.h['m'] = L.idx

    class Below(Sub):
        def iteration(self, L, g):
            self.h['j'] = L.idx
            del got[:]

        def next(self, L, g, env):
            prove(len(got) == 1, 'each of them, once')
            ctx().cover('below')
            return g
    h = {}
    loops.ACTIVE[:] = [[First(), Outer(h), Below(h)]]
    ctx().cover('entry')
    seen = []
    for it, st in o.walk_references(topdown=td):
        if it is o:
            seen.append('self')
            ctx().cover('self')
            if td:
                prove('done' not in seen, 'once')
            continue
        got.append(it)
        prove(it[0] == 'item' and val_eq(it[2], h['j']) and val_eq(it[1], h['m']), 'what the walk of the member gives')
        prove(st == 'streams', 'with its streams')
        prove(('self' in seen) != td, 'the object itself before or after')
    prove(seen == ['self'], 'and the object itself, once')
    ctx().cover('done')


# ---------------------------------------------------------------- concrete
MOBS = 5


def gen(rng, i):
    ops = []
    n = rng.choice([8, 25, 60])
    hot = rng.sample(range(MOBS), rng.choice([1, 2, 4]))
    for _ in range(n):
        m = rng.choice(hot)
        k = rng.random()
        x = rng.randrange(-6, 9)
        vec = rng.choice(['seq', 'seq', 'slots', 'params'])
        if k < .12:
            op = ['insert', m, vec, x]
        elif k < .24:
            op = ['extend', m, vec, rng.choice([0, 1, 1, 2, 5] * 6 + [80])]
        elif k < .36:
            op = ['pop', m, vec, x]
        elif k < .42:
            op = ['set', m, vec, x]
        elif k < .45:
            op = ['clear', m, vec]
        elif k < .50:
            op = ['assign', m, vec, rng.randrange(4)]
        elif k < .54:
            op = ['again', m, vec, x]
        elif k < .60:
            op = ['refuse', m, vec, rng.choice(['insert', 'append', 'set', 'extend', 'mobs']), rng.choice(['foreign', 'attached', 'class'])]
        elif k < .68:
            op = ['in', m, rng.choice(['append', 'extend', 'twin'])]
        elif k < .76:
            op = ['out', m]
        elif k < .78:
            op = ['segment', m, rng.randrange(3)]
        elif k < .82:
            op = ['rekey', m, rng.randrange(3)]
        elif k < .84:
            op = ['mobs', rng.randrange(4)]
        elif k < .91:
            op = ['forget']
        elif k < .96:
            op = ['save']
        else:
            op = ['reopen']
        ops.append(op)
    return dict(ops=ops, ss=rng.choice([512, 4096]))


FOREIGN = []


def foreign():
    import aaf2
    if not FOREIGN:
        f = aaf2.open()
        FOREIGN.append(f)
    return FOREIGN[0]


class Sess(object):
    def __init__(self, files, inp):
        self.files, self.inp, self.count, self.freed = files, inp, 0, []
        self.f = files.open('a.aaf', 'wb+', sector_size=inp['ss'])
        self.f.save()
        from aaf2.mobid import MobID
        self.ids = [MobID(int=500 + m) for m in range(MOBS)]
        self.mobs, self.model, self.inside = {}, {}, {}
        for m in range(MOBS):
            self.new(m)

    def new(self, m):
        f = self.f
        mob = f.create.CompositionMob()
        mob.mob_id = self.ids[m]
        slot = f.create.TimelineMobSlot(1, edit_rate=25)
        seq = f.create.Sequence(media_kind='picture')
        slot['Segment'].value = seq
        mob['Slots'].append(slot)
        og = self.group()
        s2 = f.create.TimelineMobSlot(2, edit_rate=25)
        s2['Segment'].value = og
        mob['Slots'].append(s2)
        self.mobs[m], self.model[m], self.inside[m] = mob, dict(seq=[], slots=[1, 2], params={}), False

    def group(self):
        f = self.f
        og = f.create.OperationGroup(self.opdef(), 10)
        return og

    def opdef(self):
        from aaf2.auid import AUID
        f = self.f
        a = AUID(int=77)
        if 'OperationDefinitions' in f.dictionary and a in f.dictionary['OperationDefinitions']:
            return f.dictionary['OperationDefinitions'][a]
        d = f.create.OperationDef(a, 'op')
        d.media_kind = 'picture'
        d['IsTimeWarp'].value = False
        d['NumberInputs'].value = 1
        d['OperationCategory'].value = 'OperationCategory_Effect'
        f.dictionary.register_def(d)
        return d

    def mob(self, m):
        """the mob, through the content of the file when it is part of it"""
        if self.inside[m]:
            return self.f.content['Mobs'][self.ids[m]]
        return self.mobs[m]

    def vec(self, m, which):
        mob = self.mob(m)
        if which == 'slots':
            return mob['Slots']
        slots = list(mob['Slots'])
        slot = [s for s in slots if s.slot_id == (1 if which == 'seq' else 2)]
        if not slot:
            return None
        seg = slot[0]['Segment'].value
        if which == 'seq':
            return seg['Components']
        return seg['Parameters']

    def make(self, which, f=None, key=None):
        """a new member and what identifies it"""
        f = f or self.f
        self.count += 1
        t = 100 + self.count
        if which == 'seq':
            return self.filler(f, t), t
        if which == 'slots':
            s = f.create.TimelineMobSlot(t, edit_rate=25)
            s['Segment'].value = self.filler(f, 1)
            return s, t
        from aaf2.auid import AUID
        k = AUID(int=key if key is not None else t)
        p = f.create.ConstantValue()
        p['Definition'].value = k
        v = p['Value']
        v.add_pid_entry()
        v.data = bytes([t % 256, t // 256])
        return p, (k, t)

    def filler(self, f, t): return f.create.Filler('picture', t)

    def tag(self, which, o):
        if which == 'seq':
            return o['Length'].value
        if which == 'slots':
            return o.slot_id
        d = o['Value'].data
        return (o['Definition'].value, d[0] + 256 * d[1])

    # -- comparison
    def check(self, what):
        got = sorted(str(k) for k in (m.mob_id for m in self.f.content['Mobs']))
        want = sorted(str(self.ids[m]) for m in self.inside if self.inside[m])
        if got != want:
            return '%s: the file has the mobs %s instead of %s' % (what, got, want)
        for m in self.mobs:
            r = self.check_mob(m, what)
            if r:
                return r
        for k in self.inside:
            if (self.ids[k] in self.f.content['Mobs']) != self.inside[k]:
                return '%s: mob %d is found by its id: %s' % (what, k, not self.inside[k])
            if self.f.content['Mobs'].get(self.ids[k], None) is None and self.inside[k]:
                return '%s: mob %d is not found by its id' % (what, k)
        return None

    def check_mob(self, m, what):
        mob = self.mob(m)
        if bool(mob.dir) != self.inside[m]:
            return '%s: mob %d is %sattached' % (what, m, '' if mob.dir else 'not ')
        for which in ('slots', 'seq', 'params'):
            v = self.vec(m, which)
            if v is None:
                continue
            want = self.model[m][which]
            w = 'mob %d %s: %s' % (m, what, which)
            items = list(v)
            if which == 'params':
                got = {self.tag(which, o)[0]: self.tag(which, o)[1] for o in items}
                if got != want or len(v) != len(want) or len(items) != len(want):
                    return '%s holds %s instead of %s' % (w, got, want)
                for k in want:
                    if k not in v or self.tag(which, v[k]) != (k, want[k]):
                        return '%s[%s] is wrong' % (w, k)
                from aaf2.auid import AUID
                if AUID(int=99999) in v or v.get(AUID(int=99999), 7) != 7:
                    return '%s has an item it does not have' % w
            else:
                got = [self.tag(which, o) for o in items]
                if got != want:
                    return '%s is %s instead of %s' % (w, got, want)
                if len(v) != len(want) or [self.tag(which, o) for o in v.value] != want:
                    return '%s: length or value' % w
                for i in range(-len(want), len(want)):
                    if self.tag(which, v[i]) != want[i] or v.get(i) is not v[i]:
                        return '%s[%d] is %s' % (w, i, self.tag(which, v[i]))
                for i in (len(want), len(want) + 3):
                    if v.get(i, 5) != 5:
                        return '%s[%d] exists' % (w, i)
            dirs = set()
            for o in items:
                if bool(o.dir) != self.inside[m]:
                    return '%s: a member is %sattached' % (w, '' if o.dir else 'not ')
                if o.dir:
                    if o.dir.path() in dirs:
                        return '%s: two members in one folder' % w
                    dirs.add(o.dir.path())
                    if self.f.manager.read_object(o.dir) is not o:
                        return '%s: the folder of a member belongs to another object' % w
        return None

    def reopen(self):
        import gc
        for m in list(self.mobs):
            # what is not part of the file is lost
            if not self.inside[m]:
                del self.mobs[m], self.model[m], self.inside[m]
        self.mobs = {m: None for m in self.mobs}
        self.f.close()
        self.f = self.files.open('a.aaf', 'rb+', sector_size=self.inp['ss'])
        for m in range(MOBS):
            if m not in self.mobs:
                self.new(m)


def refused(do, what):
    from aaf2.exceptions import AAFAttachError
    try:
        do()
    except (AAFAttachError, AssertionError, TypeError, ValueError):
        return None
    return what


def norm(i, n):
    return i + n if i < 0 else i


def check(inp):
    plain()
    from specs.common import AafFiles
    with AafFiles() as files:
        return run_case(files, inp)


def run_case(files, inp):
    S = Sess(files, inp)
    for num, op in enumerate(inp['ops'] + [['reopen']]):
        r = step(S, op)
        if not r:
            r = S.check('after %d %s' % (num, op))
        if r:
            return r
    return None


def step(S, op):
    k = op[0]
    if k in ('insert', 'extend', 'pop', 'set', 'clear', 'assign', 'again', 'refuse'):
        m, which = op[1], op[2]
        v = S.vec(m, which)
        if v is None:
            return None
        want = S.model[m][which]
        n = len(want)
        if which == 'params':
            return step_set(S, op, v, want, m)
        if which == 'slots' and k in ('clear', 'assign', 'pop', 'set'):
            for x in (1, 2):
                if k in ('clear', 'assign') or norm(op[3], n) < 0 or norm(op[3], n) >= n or want[norm(op[3], n)] == x:
                    return None
        if k == 'insert':
            o, t = S.make(which)
            v.insert(op[3], o)
            want.insert(op[3], t)
        elif k == 'extend':
            new = [S.make(which) for _ in range(op[3])]
            if op[3] == 1:
                v.append(new[0][0])
            else:
                v.extend(x[0] for x in new)
            want.extend(x[1] for x in new)
        elif k in ('pop', 'again'):
            i = op[3]
            if not -n <= i < n:
                if i >= n:
                    try:
                        v.pop(i)
                        return 'pop(%d) of %d members is accepted' % (i, n)
                    except IndexError:
                        pass
                return None
            if which == 'slots' and want[i] in (1, 2) and k == 'pop':
                return None
            o0 = v[i]
            o = v.pop(i)
            t = want.pop(i)
            if o is not o0 or S.tag(which, o) != t or o.dir is not None:
                return 'pop(%d) gives the wrong object or leaves it attached' % i
            if k == 'again':
                v.append(o)
                want.append(t)
        elif k == 'set':
            o, t = S.make(which)
            if -n <= op[3] < n:
                old = v[op[3]]
                v[op[3]] = o
                want[op[3]] = t
                if old.dir is not None:
                    return 'the replaced object stays attached'
            elif op[3] >= n:
                try:
                    v[op[3]] = o
                    return 'assignment beyond the end'
                except IndexError:
                    pass
        elif k == 'clear':
            old = list(v)
            v.clear()
            del want[:]
            if any(o.dir for o in old):
                return 'a cleared object stays attached'
        elif k == 'assign':
            new = [S.make(which) for _ in range(op[3])]
            v.value = [x[0] for x in new]
            want[:] = [x[1] for x in new]
        elif k == 'refuse':
            return refuse(S, op, v, which)
        return None
    m = op[1] if len(op) > 1 else None
    c = S.f.content['Mobs']
    if k == 'in':
        if not S.inside[m]:
            mob = S.mobs[m]
            if op[2] == 'append':
                c.append(mob)
            else:
                c.extend([mob])
            S.inside[m] = True
        elif op[2] == 'twin':
            # another mob with the same id takes its place
            old = S.mob(m)
            S.new(m)
            c.append(S.mobs[m])
            S.inside[m] = True
            if old.dir is not None:
                return 'the replaced mob stays attached'
    elif k == 'out':
        if S.inside[m]:
            mob = S.mob(m)
            if c.pop(S.ids[m]) is not mob or mob.dir is not None:
                return 'pop gives the wrong mob or leaves it attached'
            S.mobs[m], S.inside[m] = mob, False
        else:
            try:
                c.pop(S.ids[m])
                return 'pop of a mob which is not there'
            except KeyError:
                pass
    elif k == 'segment':
        slot = [x for x in S.mob(m)['Slots'] if x.slot_id == 1][0]
        old = slot['Segment'].value
        new = S.f.create.Sequence(media_kind='picture')
        fill = [S.make('seq') for _ in range(op[2])]
        new['Components'].extend(x[0] for x in fill)
        slot['Segment'].value = new
        S.model[m]['seq'] = [x[1] for x in fill]
        if old.dir is not None or slot['Segment'].value is not new:
            return 'the replaced segment stays attached'
        if bool(new.dir) != S.inside[m]:
            return 'the new segment is not attached'
    elif k == 'rekey':
        from aaf2.mobid import MobID
        S.count += 1
        new, old = MobID(int=10000 + S.count), S.ids[m]
        free = [i for i in S.freed if i not in S.ids]
        if op[2] == 1 and free:
            # an id another mob had before
            new = free[-1]
        mob = S.mob(m)
        mob.mob_id = new
        S.ids[m] = new
        S.freed.append(old)
        out = [x for x in S.mobs if not S.inside[x] and x != m]
        if op[2] == 2 and out:
            # a mob outside takes the id and comes in
            x = out[0]
            S.mobs[x].mob_id = old
            S.ids[x] = old
            c.append(S.mobs[x])
            S.inside[x] = True
        if mob.mob_id != new:
            return 'the id did not change'
    elif k == 'mobs':
        ms = [S.mob(x) for x in sorted(S.mobs)]
        for x in S.mobs:
            S.mobs[x] = S.mob(x)
        # clear detaches everything; assign what is chosen
        c.clear()
        if any(x.dir for x in ms):
            return 'a cleared mob stays attached'
        part = [x for n, x in enumerate(sorted(S.mobs)) if n <= op[1]]
        if op[1] == 3:
            c.value = {S.ids[x]: S.mobs[x] for x in part}
        else:
            c.value = [S.mobs[x] for x in part]
        for x in S.mobs:
            S.inside[x] = x in part
    elif k == 'forget':
        import gc
        for x in S.mobs:
            if S.inside[x]:
                S.mobs[x] = None
        S.f.save()
        S.f.manager.lru_cache.__init__()
        gc.collect()
    elif k == 'save':
        S.f.save()
    elif k == 'reopen':
        S.reopen()
    return None


def step_set(S, op, v, want, m):
    k = op[0]
    keys = sorted(want, key=str)
    if k in ('insert', 'set'):
        # by a key that may be there already
        i = op[3] % 4
        key = 40 + i
        o, (kk, t) = S.make('params', key=key)
        old = v.get(kk, None)
        v.append(o)
        want[kk] = t
        if old is not None and (old.dir is not None or old is v[kk]):
            return 'the replaced object stays attached'
    elif k == 'extend':
        new = [S.make('params') for _ in range(op[3])]
        v.extend(x[0] for x in new)
        want.update(x[1] for x in new)
    elif k in ('pop', 'again'):
        if keys:
            key = keys[op[3] % len(keys)]
            o0 = v[key]
            o = v.pop(key)
            t = want.pop(key)
            if o is not o0 or S.tag('params', o) != (key, t) or o.dir is not None:
                return 'pop gives the wrong object or leaves it attached'
            if k == 'again':
                v.append(o)
                want[key] = t
    elif k == 'clear':
        v.clear()
        want.clear()
    elif k == 'assign':
        new = [S.make('params') for _ in range(op[3])]
        v.value = {x[1][0]: x[0] for x in new} if op[3] % 2 else [x[0] for x in new]
        want.clear()
        want.update(x[1] for x in new)
    elif k == 'refuse':
        return refuse(S, op, v, 'params')
    return None


def refuse(S, op, v, which):
    how, why = op[3], op[4]
    if why == 'foreign':
        bad = S.make(which, foreign())[0]
    elif why == 'class':
        bad = S.f.create.DataDef()
        if which == 'params':
            return None
    else:
        where = [x for x in S.mobs if S.inside[x] and x != op[1] and S.model[x][which]]
        if not where:
            return None
        o = S.vec(where[0], which)
        if o is None:
            return None
        bad = list(o)[0]
    if how == 'insert' and which != 'params':
        do = lambda: v.insert(0, bad)
    elif how == 'set' and which != 'params' and len(v) and why != 'class':
        do = lambda: v.__setitem__(0, bad)
    elif how == 'extend':
        good = S.make(which)[0]
        do = lambda: v.extend([good, bad])
    elif how == 'mobs' and why != 'class':
        if why == 'foreign':
            bad = foreign().create.CompositionMob()
        else:
            return None
        do = lambda: S.f.content['Mobs'].append(bad)
    else:
        do = lambda: v.append(bad)
    d = bad.dir
    r = refused(do, 'an object which is %s is accepted by %s' % (why, how))
    if r:
        return r
    return None if bad.dir is d else 'a refused object is moved'


def shrink(inp):
    for o in drop_chunks(inp['ops']):
        yield dict(inp, ops=o)


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check, 60, 30000, tlimit=60, shrink=shrink)


def rep(m, name):
    rng = random.Random(13)
    for i in range(25):
        inp = gen(rng, i)
        r = guarded(check, inp, 60)
        if r:
            return '%s on %s' % (r, str(inp)[:600])
    return None


V = 'properties.StrongRefVectorProperty.'
def stream_moves(P):
    """detaching keeps the stream in a temporary folder, attaching brings it to the owner's; without an owner's folder nothing happens"""
    what, attached = ctx().choose(2), bool(ctx().choose(2))
    moves = []

    class St(object):
        def __init__(s, p): s.p = p
        def path(s): return s.p

    class Dir(object):
        def get(s, n, default=None):
            prove(n == 'stream', 'the stream of the property')
            return st if what == 0 else None
        def path(s): return '/owner'
    st = St('/owner/stream')

    class Cfb(object):
        def move(s, a, b):
            moves.append((a, b))
            return ('at', b)

    class Man(object):
        def create_temp_dir(s): return St('/tmp/9')

    class R(object):
        mode, cfb, manager = 'rb+', Cfb(), Man()

    class O(object): pass
    o = O()
    o.root, o.dir = R(), Dir() if attached else None
    C = type('C', (P.properties.StreamProperty,), dict(__slots__=()))
    p = C.__new__(C)
    p.parent, p.pid, p.format, p.version, p._propertydef, p.data, p.stream_name = o, 5, 0x42, 32, None, b'x', 'stream'
    kept = ('at', '/tmp/7/stream')
    tmp = St('/tmp/7/stream')
    if what == 0:
        p.dir = None if attached else tmp
        ctx().cover('entry')
        p.detach()
        if attached:
            ctx().cover('detached')
            prove(moves == [('/owner/stream', '/tmp/9/stream')] and p.dir == ('at', '/tmp/9/stream'), 'moved to a folder of its own and kept')
        else:
            prove(moves == [] and p.dir is tmp, 'already detached: nothing to do')
    else:
        has = bool(ctx().choose(2))
        p.dir = tmp if has else None
        ctx().cover('entry')
        try:
            p.attach()
        except P.exceptions.AAFAttachError:
            prove(has and not attached and moves == [] and p.dir is tmp, 'refused only without a place to go, nothing changes')
            return
        prove(attached or not has, 'a place to go')
        if has:
            ctx().cover('attached')
            prove(moves == [('/tmp/7/stream', '/owner/stream')] and p.dir is None, 'moved to the folder of the owner')
        else:
            prove(moves == [] and p.dir is None, 'nothing to move')
    prove(p.stream_name == 'stream' and p.data == b'x' and p.parent is o, 'the property is as it was')


UNITS = [Unit('vector get', getting, [V + 'get'], rep, covers=['entry', 'beyond', 'found']),
         Unit('vector item', item, [V + '__getitem__', V + 'get', V + '__len__'], rep, covers=['entry', 'refused', 'found']),
         Unit('vector iteration', walking, [V + '__iter__', V + 'get'], rep, covers=['entry', 'member']),
         Unit('vector value', valuing, [V + 'value'], rep, covers=['entry']),
         Unit('vector insert', inserting, [V + 'insert'], rep, covers=['entry', 'done']),
         Unit('vector extend', extending, [V + 'extend'], rep, covers=['entry', 'refused', 'done']),
         Unit('vector extend by nothing', extend_empty, [V + 'extend'], rep, covers=['entry']),
         Unit('vector append', appending, [V + 'append'], rep, covers=['entry']),
         Unit('vector pop', popping, [V + 'pop'], rep, covers=['entry', 'refused', 'done']),
         Unit('vector replace', replacing, [V + '__setitem__'], rep, covers=['entry', 'refused', 'done']),
         Unit('vector insert refused', refusable(None, lambda v, i, x: v.insert(i, x), 'insert'), [V + 'insert'], rep, covers=['entry', 'refused']),
         Unit('vector append refused', refusable(None, lambda v, i, x: v.append(x), 'append'), [V + 'append', V + 'extend'], rep, covers=['entry', 'refused']),
         Unit('vector replace refused', refusable(None, lambda v, i, x: v.__setitem__(i, x), '__setitem__'), [V + '__setitem__'], rep, covers=['entry', 'refused']),
         Unit('vector clear', clearing, [V + 'clear'], rep, covers=['entry', 'member', 'done']),
         Unit('vector assignment', assigning('StrongRefVectorProperty'), [V + 'value'], rep, covers=['entry']),
         Unit('vector attach', attaching, [V + 'attach'], rep, covers=['entry', 'member']),
         Unit('vector detach', detaching, [V + 'detach'], rep, covers=['entry', 'done']),
         Unit('vector read_index', vreading, [V + 'read_index'], rep, covers=['entry', 'done']),
         Unit('vector write_index', vwriting, [V + 'write_index'], rep, covers=['entry', 'record', 'done']),
         Unit('vector names', naming('StrongRefVectorProperty'), [V + 'index_ref_name'], rep, covers=['entry', 'different'])]
T = 'properties.StrongRefSetProperty.'
R = 'properties.StrongRefProperty.'
UNITS += [Unit('set get', sgetting, [T + 'get', T + '__getitem__', T + '__contains__', T + 'read_object'], rep, covers=['entry', 'found', 'missing']),
          Unit('set iteration', swalking, [T + 'items', T + 'values', T + '__iter__', T + 'read_object'], rep, covers=['entry', 'member']),
          Unit('set extend', sextending, [T + 'extend'], rep, covers=['entry', 'refused', 'done', 'step', 'replaced', 'attached']),
          Unit('set pop', spopping, [T + 'pop'], rep, covers=['entry', 'refused', 'done']),
          Unit('set change of key', sswap, [T + 'swap_unique_key'], rep, covers=['entry', 'refused', 'done']),
          Unit('set clear', sclearing, [T + 'clear'], rep, covers=['entry', 'member', 'done']),
          Unit('set assignment', assigning('StrongRefSetProperty'), [T + 'value'], rep, covers=['entry']),
          Unit('set attach', sattaching, [T + 'attach'], rep, covers=['entry', 'member']),
          Unit('set detach', sdetaching, [T + 'detach'], rep, covers=['entry', 'done']),
          Unit('set names', naming('StrongRefSetProperty'), [T + 'index_ref_name'], rep, covers=['entry', 'different']),
          Unit('single object', single, [R + 'value', R + 'object', R + 'attach', R + 'detach', R + 'encode', 'utils.mangle_name'], rep, covers=['entry', 'refused', 'removed', 'set']),
          Unit('single object read', single_read, [R + 'value', R + 'object'], rep, covers=['entry']),
          Unit('object attach', obj_attach, ['core.AAFObject.attach'], rep, covers=['entry', 'owning', 'plain', 'refused', 'done']),
          Unit('object detach', obj_detach, ['core.AAFObject.detach'], rep, covers=['entry', 'owning', 'plain', 'object', 'itself', 'done']),
          Unit('stream attach and detach', stream_moves, ['properties.StreamProperty.detach', 'properties.StreamProperty.attach'], rep, covers=['entry', 'attached', 'detached']),
          Unit('walk: what is owned', walking_refs, ['core.AAFObject.walk_references'], rep, covers=['entry', 'first', 'StrongRefProperty ', 'StrongRefProperty empty', 'StreamProperty ', 'None ']),
          Unit('walk: down', walking_down, ['core.AAFObject.walk_references'], rep, covers=['entry', 'below', 'self', 'done'])]
UNITS += [Unit('set read_index %d' % z, sreading(z), [T + 'read_index'], rep, covers=['entry', 'record', 'done']) for z in (16, 32)]
UNITS += [Unit('set write_index %d' % z, swriting(z), [T + 'write_index'], rep, covers=['entry', 'record', 'done']) for z in (16, 32)]
BOUNDED = [Bounded('sessions', run, 'files with 5 mobs, attached or not; component and slot vectors and parameter sets of them; 8 to 60 insertions, removals, replacements, '
                   'assignments, refused objects, mobs moved in and out of the file, changes of key, dropped caches, saves and reopens',
                   ['properties.StrongRefVectorProperty', 'properties.StrongRefSetProperty', 'properties.StrongRefProperty', 'core.AAFObject.attach', 'core.AAFObject.detach'],
                   check, shards=8, budget=14)]
ASSUMPTIONS = ['the stream layer and the folders behave as P01, P03 and P04 say; names of properties of one object differ (P15)',
               'the object manager gives the one object of a folder (P12)',
               'weak dictionaries behave as dictionaries whose entries may vanish only when nobody else holds the object',
               'fewer than 2^32 - 1 members were ever added; indices not below -len (those are taken as 0)',
               'objects of an attached owner are attached and those of a detached one are not (kept by attach and detach, proved one level at a time)',
               'changing a unique key to one that another member already has is not covered',
               'each object is compared by its local key; the object cached at a position is the one of that key (invariant, proved for every operation)']
LEVEL = 'proof'
