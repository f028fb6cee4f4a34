"""P14: references to shared objects resolve to exactly their target.

A reference is the path of its collection (a place in the table of the file) and the key of the target.
Contract of the table: a place never changes its path, and asking for a path gives a place holding it."""
import random
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec, Val
from pydv.seq import mk, seqof, val_eq, Seq
from pydv.libs import PvDict
from pydv.runner import Unit, Bounded, plain
from specs.aafsym import Rd, Content, Buf, le
from specs.common import drive, drop_chunks, AafFiles
from specs import P13, P16
from specs.P13 import W, bare, stub_index, swap_io, VRec, head_is, wrote

A = 'properties.WeakRefArrayProperty.'
R = 'properties.WeakRefProperty.'


class Root(object):
    """the file: what it is asked for"""

    def __init__(self):
        self.asked = []
        self.mode = 'rb+'

    def weakref_index(self, path):
        self.asked.append(path)
        return ('place of', path)


class Marks(object):
    def __init__(self, w): self.w = w


class Target(object):
    def __init__(self, root, key, classdef='good'): self.root, self.unique_key, self.classdef = root, key, classdef


def marked(w): return any(x == ('modified', w.owner) for x in w.log)


def weak(P, cls, mode='rb+', fresh=None, **k):
    """a property of an attached object; with its place or not yet"""
    w = W(P, True, mode)
    w.asked = []

    def index(path):
        w.asked.append(path)
        return 77
    w.root.weakref_index = index
    d = dict(ref_classdef=P13.RefClass(), pid_path='the path', propertydef=type('PD', (), dict(property_name='thing'))())
    d.update(k)
    v = bare(P, cls, w, **d)
    if fresh is None:
        fresh = bool(ctx().choose(2))
    v.weakref_index, v.key_pid, v.key_size = (None, None, None) if fresh else (fresh_int('place', 0, 0xFFFF), 5, 16)
    if cls == 'WeakRefProperty':
        v.ref = None if fresh else fresh_int('ref', 0)
    else:
        v.index_name = None if fresh else 'idx'
        v.references = []
    if not fresh:
        w.owner.property_entries[v.pid] = v
    return v, w, fresh


# ---------------------------------------------------------------- stored form
def kinds(P, cls=None):
    """keys with their bytes, in the place of AUID and MobID"""
    def kind(nm):
        class K(object):
            def __init__(s, bytes_le=None): s.bytes_le, s.kind = bytes_le, nm
        return K
    P.properties.AUID, P.properties.MobID = kind('AUID'), kind('MobID')


def one_stored(size):
    def body(P):
        w = W(P, True)
        kinds(P)
        v = bare(P, 'WeakRefProperty', w)
        v.weakref_index, v.key_pid = fresh_int('place', 0, 0xFFFF), fresh_int('pid', 0, 0xFFFF)
        key = [fresh_int('k%d' % i, 0, 255) for i in range(size)]
        v.ref = (P.properties.AUID if size == 16 else P.properties.MobID)(mk('bytes', items=key))
        ctx().cover('entry')
        class Flat(Buf):
            def getvalue(s): return mk('bytes', items=P13.flat(s.log)[1])
        got = []
        swap_io(P, Flat, lambda: got.append(v.encode()))
        d = seqof(got[0])
        want = le(v.weakref_index, 2) + le(v.key_pid, 2) + [size] + key
        prove(d.length() == len(want), 'size')
        prove(and_(*[val_eq(d.at(i), x) for i, x in enumerate(want)]), 'place, key property, key size and key')
        v2 = bare(P, 'WeakRefProperty', w)
        v2.data = 'stored'

        class Back(Rd):
            def __init__(s, x):
                prove(x == 'stored', 'its own data')
                s.c, s.pos = type('C', (), dict(f=staticmethod(d.at)))(), 0
        swap_io(P, Back, v2.decode)
        prove(and_(val_eq(v2.weakref_index, v.weakref_index), val_eq(v2.key_pid, v.key_pid), val_eq(v2.key_size, size)), 'read back')
        r = seqof(v2.ref.bytes_le)
        prove(v2.ref.kind == v.ref.kind and r.length() == size, 'a key of that kind')
        prove(and_(*[val_eq(r.at(i), x) for i, x in enumerate(key)]), 'the same key')
    return body


class RRead(LoopSpec):
    name = 'records'
    fn = 'read_index'
    def __init__(self, h): self.h = h
    def match(self, L, env): return True
    def iteration(self, L, g): self.at = L.idx; del self.h['stored'][:]

    def next(self, L, g, env):
        h, k, c, size = self.h, self.at, self.h['c'], self.h['size']
        prove(len(h['stored']) == 1, 'one key per record')
        key = h['stored'][0]
        d = seqof(key.bytes_le)
        prove(d.length() == size, 'its size')
        prove(and_(*[val_eq(d.at(j), c.f(9 + k * size + j)) for j in range(size)]), 'the key of that record')
        prove(key.kind == ('AUID' if size == 16 else 'MobID'), 'of that kind')
        ctx().cover('record')
        return g

    def state(self, L, g): return {(self.h['io']['f'], 'pos'): 9 + self.h['size'] * L.idx}


def reading(size):
    def body(P):
        from pydv import loops
        w = W(P, True)
        kinds(P)
        v = bare(P, 'WeakRefArrayProperty', w)
        v.index_name = 'idx'
        c = Content()
        n = c.le(0, 4)
        assume(c.f(8) == size)
        h, buf = stub_index(P, v, 'idx', c, 9 + n * size)
        stored = []
        v.references = type('Refs', (), dict(append=lambda s, x: stored.append(x)))()
        loops.ACTIVE[:] = [[RRead(dict(c=c, size=size, stored=stored, io=h))]]
        ctx().cover('entry')
        swap_io(P, buf, v.read_index)
        ctx().cover('done')
        prove(and_(val_eq(v.weakref_index, c.le(4, 2)), val_eq(v.key_pid, c.le(6, 2)), val_eq(v.key_size, size)), 'place and kind of key')
        prove(val_eq(h['f'].pos, 9 + n * size), 'every record')
    return body


def writing(size):
    def body(P):
        from pydv import loops
        w = W(P, True)
        v = bare(P, 'WeakRefArrayProperty', w)
        v.index_name = 'idx'
        n, key = fresh_int('n', 0, 0xFFFFFFFF), UF('keybyte', 2, 0, 255)
        v.weakref_index, v.key_pid, v.key_size = fresh_int('place', 0, 0xFFFF), fresh_int('pid', 0, 0xFFFF), size
        cells = lambda k: [key(k, j) for j in range(size)]

        def rec(k):
            o = type('K', (), {})()
            o.bytes_le = mk('bytes', items=cells(k))
            return o
        v.references = mk('list', n=n, f=rec)
        h, buf = stub_index(P, v, 'idx')
        ctx().cover('entry')
        loops.ACTIVE[:] = [[VRec(h, 9, size, cells)]]
        swap_io(P, buf, v.write_index)
        ctx().cover('done')
        head_is(h, le(n, 4) + le(v.weakref_index, 2) + le(v.key_pid, 2) + [size])
        wrote(h, 9 + size * n)
        prove(('truncate', None) in h['log'], 'an older, longer index is cut')
    return body


# ---------------------------------------------------------------- the table of collections
def placing(P):
    """weakref_index: for a table of any size"""
    F = P.file.AAFFile
    f = F.__new__(F)
    n, at = fresh_int('n', 0), UF('path', 1)
    J = fresh_int('J', 0)
    assume(J < n)
    f.weakref_table = mk('list', n=n, f=at)
    f.weakref_table.ghosts = (J,)
    p = fresh_int('p')
    ctx().cover('entry')
    r = f.weakref_index(p)
    t = seqof(f.weakref_table)
    m = t.length()
    prove(and_(0 <= r, r < m), 'a place in the table')
    prove(val_eq(t.at(r), p), 'which holds the path')
    prove(val_eq(t.at(J), at(J)), 'no place is changed')
    if m == n:
        ctx().cover('known')
    else:
        ctx().cover('new')
        prove(m == n + 1, 'one place at most')
        prove(at(J) != p, 'only for a path which has none')


class Node(object):
    def __init__(self, w, k): self.w, self.k = w, k

    @property
    def property_entries(self): return Entries(self)

    @property
    def classdef(self):
        node = self

        class C(object):
            def get_propertydef_from_pid(s, pid):
                prove(val_eq(pid, node.w['pid'](node.k)), 'the property of the path')
                return type('PD', (), dict(property_name=('name of', pid)))()
        return C()

    def __getitem__(self, name):
        prove(isinstance(name, tuple) and name[0] == 'name of' and val_eq(name[1], self.w['pid'](self.k)), 'by its name')
        self.w['made'] = True
        return Prop(self)


class Prop(object):
    def __init__(self, node): self.node = node

    @property
    def value(self):
        prove(self.node.k < self.node.w['m'] - 1, 'only on the way')
        return Node(self.node.w, self.node.k + 1)

    def __getitem__(self, ref): return ('member', self.node.k, ref)


class Entries(object):
    def __init__(self, node): self.node = node

    def __getitem__(self, pid):
        prove(val_eq(pid, self.node.w['pid'](self.node.k)), 'the property of the path')
        return Prop(self.node)

    def get(self, pid, d=None):
        p = self[pid]
        return p if self.node.w['there'] else d


class Way(LoopSpec):
    name = 'way'
    fn = 'weakref_prop'
    def __init__(self, w): self.w = w

    def state(self, L, g):
        k = L.idx
        return {'root': Val(Node(self.w, k), lambda cur: and_(isinstance(cur, Node), val_eq(cur.k, k)))}


def following(P):
    """weakref_prop and resovle_weakref: down a path of any length, from the root"""
    from pydv import loops
    F = P.file.AAFFile
    f = F.__new__(F)
    m, pid = fresh_int('m', 1), UF('pid', 1, 1, 0xFFFF)
    i = fresh_int('i', 0)
    w = dict(m=m, pid=pid, there=bool(ctx().choose(2)), made=False)
    f.root = Node(w, 0)

    class Table(object):
        def __getitem__(s, k):
            prove(val_eq(k, i), 'that place of the table')
            return mk('list', n=m, f=pid)
    f.weakref_table = Table()
    loops.ACTIVE[:] = [[Way(w)]]
    ref = fresh_int('ref')
    ctx().cover('entry')
    if ctx().choose(2):
        r = f.resovle_weakref(i, 5, ref)
        ctx().cover('resolved')
        prove(r[0] == 'member' and val_eq(r[1], m - 1) and val_eq(r[2], ref), 'the member of that collection with that key')
        return
    o, p = f.weakref_prop(i)
    ctx().cover('property')
    prove(isinstance(o, Node) and val_eq(o.k, m - 1), 'the object which holds the collection')
    prove(isinstance(p, Prop) and val_eq(p.node.k, m - 1), 'the collection')
    prove(w['made'] == (not w['there']), 'made only when it is missing')


class Paths(object):
    """a table of any number of paths of any length"""

    def __init__(self):
        self.n = fresh_int('paths', 0, 0xFFFF)
        self.T = UF('pid', 2, 1, 0xFFFF)
        n = self.n
        self.len = UF('len', 1, 0, 0xFFFF)
        self.raw = UF('off', 1, 0)
        assume(self.raw(0) == 0)

    def off(self, a):
        """how many numbers stand before path a, terminators included (sums of non-negative lengths)"""
        n, ln, raw = self.n, self.len, self.raw
        r = raw(a)
        assume(implies(and_(0 <= a, a < n), and_(raw(a + 1) == r + ln(a) + 1, r + ln(a) + 1 <= raw(n))))
        assume(implies(a == 0, r == 0))
        return r

    def row(self, a): return mk('list', n=self.len(a), f=lambda j: self.T(a, j))


class Parse(LoopSpec):
    name = 'numbers'
    fn = 'read_reference_properties'
    def __init__(self, h): self.h = h

    def ghost0(self, L, env): return dict(a=0, b=0)
    def fresh(self, L): return dict(a=fresh_int('a', 0), b=fresh_int('b', 0))

    def constraint(self, L, g):
        p, a, b = self.h['p'], g['a'], g['b']
        return [L.idx == p.off(a) + b, a <= p.n, 0 <= b, implies(a < p.n, b <= p.len(a)), implies(a == p.n, b == 0)]

    def state(self, L, g):
        p, a, b = self.h['p'], g['a'], g['b']

        def same(cur):
            t = seqof(cur)
            if not prove(val_eq(t.length(), a), 'paths so far'):
                return False
            k = fresh_int('k', 0)
            if k < a:
                same_row(p, t.at(k), k)
            return True
        return {(self.h['f'], 'weakref_table'): Val(mk('list', n=a, f=p.row), same),
                'path': mk('list', n=b, f=lambda j: p.T(a, j)),
                (self.h['io'], 'pos'): 7 + 2 * L.idx}

    def iteration(self, L, g):
        p, a, b = self.h['p'], g['a'], g['b']
        assume(implies(L.idx < self.h['count'], self.h['c'].le(7 + 2 * L.idx, 2) == ite(b < p.len(a), p.T(a, b), 0)))

    def next(self, L, g, env):
        p, a, b = self.h['p'], g['a'], g['b']
        if b < p.len(a):
            ctx().cover('inside')
            return dict(a=a, b=b + 1)
        ctx().cover('ended')
        return dict(a=a + 1, b=0)


def same_row(p, row, k):
    s = seqof(row)
    prove(val_eq(s.length(), p.len(k)), 'length of every path')
    j = fresh_int('j', 0)
    prove(implies(j < p.len(k), val_eq(s.at(j), p.T(k, j))), 'numbers of every path')


def table_read(P):
    from pydv import loops
    F = P.file.AAFFile
    f = F.__new__(F)
    p, c = Paths(), Content()
    assume(c.f(0) == 0x4c)
    n, count = c.le(1, 2), c.le(3, 4)
    assume(and_(n == p.n, count == p.off(p.n)))
    io = Rd(c)

    class S(object):
        def read(s): return 'all'
    f.cfb = type('C', (), dict(open=lambda s, path, mode='r': prove(path == '/referenced properties', 'its stream') and S()))()
    real = P.file.io

    class IO(object):
        @staticmethod
        def BytesIO(x): prove(x == 'all', 'all of it'); return io
    P.file.io = IO
    loops.ACTIVE[:] = [[Parse(dict(p=p, f=f, io=io, c=c, count=count))]]
    ctx().cover('entry')
    try:
        f.read_reference_properties()
    finally:
        P.file.io = real
    t = seqof(f.weakref_table)
    prove(val_eq(t.length(), p.n), 'as many paths as stored')
    k = fresh_int('k', 0)
    assume(k < p.n)
    same_row(p, t.at(k), k)
    ctx().cover('done')


class Count(LoopSpec):
    name = 'count'
    fn = 'write_reference_properties'
    def __init__(self, h): self.h = h
    def match(self, L, env): return 'pid_count' in env
    def state(self, L, g): return {'pid_count': self.h['p'].off(L.idx)}


class Outer(LoopSpec):
    name = 'paths'
    fn = 'write_reference_properties'
    def __init__(self, h): self.h = h
    def state(self, L, g): return {(self.h['out'], 'pos'): 7 + 2 * self.h['p'].off(L.idx)}
    def iteration(self, L, g): self.h['at'], self.h['log'] = L.idx, len(self.h['out'].log)

    def next(self, L, g, env):
        h, p, at = self.h, self.h['p'], self.h['at']
        lg = h['out'].log[h['log']:]
        prove(len(lg) == 1, 'one more number after the path')
        prove(val_eq(lg[0][0], 7 + 2 * (p.off(at) + p.len(at))), 'at its end')
        prove(len(lg[0][1]) == 2 and and_(*[val_eq(x, 0) for x in lg[0][1]]), 'which is zero')
        ctx().cover('path')
        return g


class InPath(LoopSpec):
    name = 'numbers'
    fn = 'write_reference_properties'
    def __init__(self, h): self.h = h
    def state(self, L, g): return {(self.h['out'], 'pos'): 7 + 2 * (self.h['p'].off(self.h['at']) + L.idx)}
    def iteration(self, L, g): self.at, self.lg = L.idx, len(self.h['out'].log)

    def next(self, L, g, env):
        h, p = self.h, self.h['p']
        lg = h['out'].log[self.lg:]
        prove(len(lg) == 1, 'one number each')
        prove(val_eq(lg[0][0], 7 + 2 * (p.off(h['at']) + self.at)), 'in its place')
        prove(len(lg[0][1]) == 2 and and_(*[val_eq(x, y) for x, y in zip(lg[0][1], le(p.T(h['at'], self.at), 2))]), 'its value')
        ctx().cover('number')
        return g


def table_written(P):
    from pydv import loops
    F = P.file.AAFFile
    f = F.__new__(F)
    p, out, opened = Paths(), Buf(), []
    assume(p.off(p.n) < 1 << 32)
    f.weakref_table = mk('list', n=p.n, f=p.row)
    f.cfb = type('C', (), dict(open=lambda s, path, mode='r': opened.append((path, mode)) or out))()
    h = dict(p=p, out=out)
    loops.ACTIVE[:] = [[Count(h), Outer(h), InPath(h)]]
    ctx().cover('entry')
    f.write_reference_properties()
    ctx().cover('done')
    prove(opened == [('/referenced properties', 'w')], 'the stream is written anew')
    head = [x for q, d in out.log[:3] for x in d]
    prove(len(head) == 7, 'head: size')
    prove(and_(*[val_eq(a, b) for a, b in zip(head, [0x4c] + le(p.n, 2) + le(p.off(p.n), 4))]), 'head: byte order and counts')
    prove(val_eq(out.pos, 7 + 2 * p.off(p.n)), 'all paths')


# ---------------------------------------------------------------- path of a kind of reference
class Find(LoopSpec):
    """the properties of one class: none of those before matches"""
    name = 'properties'
    fn = 'propertydef_path'
    def __init__(self, h): self.h = h

    def constraint(self, L, g):
        h = self.h
        return [implies(h['has'](h['k']), L.idx <= h['which'](h['k']))]

    def state(self, L, g): return {'found': False, 'classdef': Val(Cls(self.h, self.h['k']), lambda cur: and_(isinstance(cur, Cls), val_eq(cur.k, self.h['k']))),
                                   'path': Val(L.env0['path'], lambda cur: cur is L.env0['path'] and val_eq(seqof(cur).length(), self.h['k']))}


class Steps(LoopSpec):
    name = 'steps'
    fn = 'propertydef_path'
    def __init__(self, h): self.h = h

    def state(self, L, g):
        h, k = self.h, L.idx

        def same(cur):
            s = seqof(cur)
            if not prove(val_eq(s.length(), k), 'one step each'):
                return False
            j = fresh_int('j', 0)
            if j < k:
                step_is(h, s.at(j), j)
            return True
        return {'classdef': Val(Cls(h, k), lambda cur: and_(isinstance(cur, Cls), val_eq(cur.k, k))),
                'path': Val(mk('list', n=k, f=lambda j: (Cls(h, j), Pd(h, j, h['which'](j)))), same)}

    def iteration(self, L, g):
        self.h['k'] = L.idx
        ctx().cover('step')


def step_is(h, x, j):
    prove(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], Cls) and isinstance(x[1], Pd), 'a class and a property')
    prove(and_(val_eq(x[0].k, j), val_eq(x[1].k, j), val_eq(x[1].j, h['which'](j))), 'the class reached and its property with that id')


class Cls(object):
    def __init__(self, h, k): self.h, self.k = h, k

    @property
    def propertydefs(self):
        h, k = self.h, self.k
        return mk('list', n=h['count'](k), f=lambda j: Pd(h, k, j))

    def all_propertydefs(self): return self.propertydefs


class Pd(object):
    def __init__(self, h, k, j):
        self.h, self.k, self.j = h, k, j
        self.auid = h['auid'](k, j)
        self.pid = h['pids'](k, j)
        # ids of properties are distinct
        assume(implies(h['has'](k), (self.auid == h['want'](k)) == (j == h['which'](k))))
        assume(implies(not_(h['has'](k)), self.auid != h['want'](k)))

    @property
    def typedef(self):
        h, k = self.h, self.k
        prove(val_eq(self.j, h['which'](k)), 'only the property of the path is followed')
        return type('T', (), dict(ref_classdef=Cls(h, k + 1)))()


def pathing(P):
    from pydv import loops
    n = fresh_int('n', 0)
    h = dict(count=UF('count', 1, 0), auid=UF('auid', 2), pids=UF('pids', 2, 1, 0xFFFF), want=UF('want', 1), has=UF('has', 1, boolean=True))
    has, count = h['has'], h['count']
    h['which'] = UF('which', 1, 0, facts=lambda r, k: [implies(has(k), r < count(k))])
    C = type('C', (P.types.TypeDefWeakRef,), dict(target_set_path=mk('list', n=n, f=h['want'])))
    t = object.__new__(C)

    class Meta(object):
        def lookup_classdef(s, nm):
            prove(nm == 'Root', 'from the root of the file')
            return Cls(h, 0)
    t.root = type('R', (), dict(metadict=Meta()))()
    # the inner loop is entered once for each step
    loops.ACTIVE[:] = [[Steps(h), Find(h)]]
    J = fresh_int('J', 0)
    assume(J < n)
    ctx().cover('entry')
    try:
        r = t.propertydef_path
    except P.exceptions.AAFPropertyError:
        ctx().cover('refused')
        prove(not_(has(h['k'])), 'only a path which leads nowhere is refused')
        return
    ctx().cover('done')
    s = seqof(r)
    prove(val_eq(s.length(), n), 'one step for each id')
    step_is(h, s.at(J), J)


# ---------------------------------------------------------------- values
def resolving(P):
    kind = ctx().choose(3)
    p = type('Pr', (), {})()
    ref = fresh_int('ref')
    auid = [P.properties.CLASSDEF_AUID, P.properties.TYPEDEF_AUID, P.auid.AUID(int=0x1234)][kind]
    p.ref_classdef = type('C', (), dict(auid=auid))()
    p.weakref_index, p.key_pid = fresh_int('place', 0), fresh_int('pid', 0)
    p.parent = type('O', (), {})()

    class M(object):
        def lookup_classdef(s, r): return ('class', r)
        def lookup_typedef(s, r): return ('type', r)

    class F(object):
        metadict = M()
        def resovle_weakref(s, i, pid, r):
            prove(val_eq(i, p.weakref_index), 'in its collection')
            return ('member', r)
    p.parent.root = F()
    ctx().cover('entry')
    r = P.properties.resolve_weakref(p, ref)
    prove(r[0] == ('class', 'type', 'member')[kind] and val_eq(r[1], ref), 'what has that key')


def one_value(P):
    """assignment of a single reference"""
    mode = ('rb+', 'rb')[ctx().choose(2)]
    v, w, fresh = weak(P, 'WeakRefProperty', mode, encode=lambda s: ('encoded', s.weakref_index, s.key_pid, s.key_size, s.ref))
    old = (v.weakref_index, v.key_pid, v.key_size, v.ref, v.data)
    what = ctx().choose(4)
    key = fresh_int('key', 0)
    x = Target(w.root, key)
    if what == 0:
        x = None
    elif what == 2:
        x.root = object()
    elif what == 3:
        x.classdef = 'other'
    ctx().cover('entry')
    try:
        v.value = x
    except (P.exceptions.AAFAttachError, P.exceptions.AAFPropertyError, AssertionError, TypeError):
        ctx().cover('refused')
        prove(mode == 'rb' or what in (2, 3), 'only what does not belong here')
        prove((v.weakref_index, v.key_pid, v.key_size) == old[:3] and v.ref is old[3] and v.data is old[4], 'what was there stays')
        prove((v.pid in w.owner.property_entries) == (not fresh), 'and the property')
        return
    prove(mode != 'rb' and what in (0, 1), 'refused otherwise')
    prove(marked(w), 'the change will be saved')
    if what == 0:
        ctx().cover('removed')
        prove(v.pid not in w.owner.property_entries, 'the property is gone')
        return
    ctx().cover('set')
    prove(val_eq(v.ref, key), 'the key of the object')
    if fresh:
        prove(v.weakref_index == 77 and w.asked == ['the path'], 'in the place of its kind of reference')
        prove(v.key_pid == 5 and v.key_size == 16, 'and its kind of key')
    else:
        prove(val_eq(v.weakref_index, old[0]) and (v.key_pid, v.key_size) == old[1:3], 'the place stays')
    prove(isinstance(v.data, tuple) and v.data[1] is v.weakref_index and v.data[2] == 5 and v.data[3] == 16 and val_eq(v.data[4], key), 'and this is what is stored')
    prove(v.pid in w.owner.property_entries and w.owner.property_entries[v.pid] is v, 'the property is there')


def one_read(P):
    v, w, fresh = weak(P, 'WeakRefProperty', fresh=False)
    P.properties.resolve_weakref = lambda p, r: (p is v, r)
    ctx().cover('entry')
    r = v.value
    prove(r[0] and val_eq(r[1], v.ref), 'what the key resolves to')


def array(P, fresh=None, mode='rb+', **k):
    v, w, fresh = weak(P, 'WeakRefArrayProperty', mode, fresh, **k)
    if fresh:
        n, ref = 0, None
    else:
        n, ref = fresh_int('n', 0), UF('ref', 1, 0)
        v.references = mk('list', n=n, f=ref)
    return v, w, fresh, n, ref


def same_refs(v, n, f, what):
    s = seqof(v.references)
    prove(val_eq(s.length(), n), what + ': how many')
    j = fresh_int('j', 0)
    if j < n:
        prove(val_eq(s.at(j), f(j)), what + ': every key in its place')


class Check(LoopSpec):
    """no value so far is wrong"""
    name = 'checked'
    fn = 'extend'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None
    def constraint(self, L, g): return [implies(self.h['J'] < L.idx, self.h['good'](self.h['J']))]


class Adds(LoopSpec):
    name = 'added'
    fn = 'extend'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None

    def state(self, L, g):
        h = self.h
        n, ref, key = h['n'], h['ref'], h['key']
        return {(h['v'], 'references'): mk('list', n=n + L.idx, f=lambda j: h['want'](j))}


def extending(P):
    from pydv import loops
    v, w, fresh, n, ref = array(P)
    m = fresh_int('m', 0)
    good, key = UF('good', 1, boolean=True), UF('key', 1, 0)
    J = fresh_int('J', 0)
    assume(J < m)
    kind = ctx().choose(2)

    def new(k):
        x = Target(w.root, key(k))
        if not good(k):
            if kind:
                x.root = object()
            else:
                x.classdef = 'other'
        return x
    want = (lambda j: key(j)) if fresh else (lambda j: ref(j) if j < n else key(j - n))
    h = dict(v=v, n=n, ref=ref, J=J, good=good, key=key, want=want)
    old = (v.weakref_index, v.key_pid, v.key_size, v.index_name)
    names = []
    P.properties.mangle_name = lambda nm, pid, size: names.append((nm, pid, size)) or 'mangled'
    loops.ACTIVE[:] = [[Check(h), Adds(h)]]

    class Values(object):
        def pv_lazy(s): return mk('list', n=m, f=new)
    ctx().cover('entry')
    try:
        v.extend(Values())
    except (P.exceptions.AAFAttachError, TypeError):
        ctx().cover('refused')
        prove((v.weakref_index, v.key_pid, v.key_size, v.index_name) == old, 'nothing happened')
        prove((v.pid in w.owner.property_entries) == (not fresh), 'the property neither')
        same_refs(v, n, ref, 'afterwards')
        return
    ctx().cover('done')
    prove(good(J), 'only acceptable objects are accepted')
    placed(v, w, fresh, old, names)
    same_refs(v, n + m, want, 'after extend')


def placed(v, w, fresh, old, names=None):
    if fresh:
        prove(v.weakref_index == 77 and w.asked == ['the path'], 'in the place of its kind of reference')
        prove(v.key_pid == 5 and v.key_size == 16, 'and its kind of key')
        prove(v.index_name == 'mangled' and names[0][:2] == ('thing', v.pid), 'its index has a name')
        prove(seqof(v.data).length() > 0, 'which is stored')
    else:
        prove(val_eq(v.weakref_index, old[0]) and (v.key_pid, v.key_size, v.index_name) == old[1:], 'the place stays')
    prove(w.owner.property_entries[v.pid] is v, 'the property is there')
    prove(marked(w), 'the change will be saved')


def extend_none(P):
    from pydv import loops
    v, w, fresh, n, ref = array(P)
    old = (v.weakref_index, v.key_pid, v.key_size, v.index_name)
    names = []
    P.properties.mangle_name = lambda nm, pid, size: names.append((nm, pid, size)) or 'mangled'
    ctx().cover('entry')
    v.extend([])
    placed(v, w, fresh, old, names)
    same_refs(v, n, ref, 'after extend by nothing')


def changing(P):
    got = []
    v, w, fresh, n, ref = array(P, extend=lambda s, x: got.append(x))
    x, y = object(), object()
    how = ctx().choose(4)
    ctx().cover('entry')
    if how == 0:
        v.append(x)
        prove(len(got) == 1 and list(got[0]) == [x], 'append adds the one object')
        same_refs(v, n, ref, 'before')
    elif how == 1:
        v.clear()
        prove(len(seqof(v.references)) == 0 if isinstance(v.references, Seq) else v.references == [], 'clear removes all')
        prove(marked(w), 'and the change will be saved')
    elif how == 2:
        v.value = None
        prove(v.pid not in w.owner.property_entries and marked(w), 'None removes the property')
    else:
        v.value = z = [x, y]
        prove(len(got) == 1 and got[0] is z and seqof(v.references).length() == 0, 'the new values replace the old')
        prove(marked(w), 'and the change will be saved')


class Walk(LoopSpec):
    name = 'members'
    fn = None
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None
    def iteration(self, L, g): self.h['at'] = L.idx

    def next(self, L, g, env):
        prove(len(self.h['got']) == 1, 'one object per key')
        return g


def walking(P):
    from pydv import loops
    v, w, fresh, n, ref = array(P, False)
    P.properties.resolve_weakref = lambda p, r: ('target', p is v, r)
    h = dict(got=[])
    loops.ACTIVE[:] = [[Walk(h)]]
    how = ctx().choose(2)
    ctx().cover('entry')
    for o in (v.items() if how else v.__iter__()):
        ctx().cover('member')
        h['got'].append(o)
        if how:
            prove(val_eq(o[0], ref(h['at'])), 'the keys in order')
            o = o[1]
        prove(o[0] == 'target' and o[1] and val_eq(o[2], ref(h['at'])), 'and what they refer to')
    same_refs(v, n, ref, 'afterwards')


def valuing(P):
    v, w, fresh, n, ref = array(P, False, pv_lazy=lambda s: mk('list', n=seqof(s.references).length(), f=lambda k: ('target', ref(k))))
    ctx().cover('entry')
    r = v.value
    s = seqof(r)
    prove(s is not None and val_eq(s.length(), n), 'as many as keys')
    prove(val_eq(v.__len__(), n), 'the length')
    k = fresh_int('k', 0)
    assume(k < n)
    prove(s.at(k)[0] == 'target' and val_eq(s.at(k)[1], ref(k)), 'in order')


def keyed(P):
    v, w, fresh, n, ref = array(P, False)
    P.properties.resolve_weakref = lambda p, r: ('target', p is v, r)
    J = fresh_int('J', 0)
    assume(J < n)
    v.references.ghosts = (J,)
    key = fresh_int('key', 0)
    d = object()
    how = ctx().choose(2)
    ctx().cover('entry')
    try:
        r = v.get(key, d) if how else v[key]
    except KeyError:
        prove(how == 0, 'get does not refuse')
        r = d
    if r is d:
        ctx().cover('missing')
        prove(ref(J) != key, 'only for a key which is not there')
    else:
        ctx().cover('found')
        prove(r[0] == 'target' and r[1] and val_eq(r[2], key), 'what has that key')
    same_refs(v, n, ref, 'afterwards')


# ---------------------------------------------------------------- built in references
def built_in(P):
    """references of the definitions themselves"""
    pr = P.properties
    o = type('O', (), {})()
    o.property_entries = PvDict()
    asked = []

    class Rt(object):
        def weakref_index(s, path):
            asked.append(path)
            return 9
    o.root = Rt()
    how = ctx().choose(3)
    raw = [fresh_int('k%d' % i, 0, 255) for i in range(16)]
    key = P.auid.AUID(bytes_le=mk('bytes', items=raw))
    ctx().cover('entry')
    if how < 2:

        class Flat(Buf):
            def getvalue(s): return mk('bytes', items=P13.flat(s.log)[1])
        got = []
        swap_io(P, Flat, lambda: got.append((pr.add_classdef_weakref_property, pr.add_typedef_weakref_property)[how](o, 0x77, key)))
        p = got[0]
        prove(asked == [[1, 3 + how]], 'the collection of the definitions')
        prove(p.ref == key and p.key_pid == 5 and p.weakref_index == 9, 'the key')
        q, kb = seqof(p.data), seqof(key.bytes_le)
        want = [9, 0, 5, 0, 16] + [kb.at(i) for i in range(16)]
        prove(q.length() == 21 and and_(*[val_eq(q.at(i), x) for i, x in enumerate(want)]), 'and what is stored')
    else:
        ks = [P.auid.AUID(int=i + 1) for i in range(4)]
        p = pr.add_typedef_weakref_vector_property(o, 0x77, 'MemberTypes', ks)
        prove(asked == [[1, 4]] and p.weakref_index == 9 and p.key_pid == 5 and p.key_size == 16, 'the collection of the types')
        prove(list(p.references) == ks, 'the keys in order')
    prove(o.property_entries[0x77] is p, 'the property is there')


def rep(m, name):
    return None


# ---------------------------------------------------------------- bounded: graphs of references
KIND = ('data', 'operation', 'mob', 'class', 'type', 'own', 'stored', 'everywhere')
FORMS = ('one', 'vector', 'set')


def uid(n):
    from aaf2.auid import AUID
    return AUID(int=(0x5EED << 96) + n)


def key_of(kind, n):
    from aaf2.mobid import MobID
    from aaf2.auid import AUID
    k = KIND.index(kind)
    if kind == 'mob':
        b = bytearray(bytes(MobID(int=0x060A2B340101010501010D0013000000).bytes_le))
        b[16:] = bytes(uid(90000 + n).bytes_le)
        return MobID(bytes_le=bytes(b))
    return uid(100000 * (k + 1) + n)


class Graph(object):
    """one file and what must be found in it"""

    def __init__(self, f, order=0):
        self.f, self.order = f, order
        self.targets = dict((k, {}) for k in KIND)     # key -> name
        self.waiting = []
        self.holders, self.order_of, self.loose = {}, [], []
        self.want = {}                                  # holder -> property -> key(s)
        self.register(f)

    def register(self, f):
        md = f.metadict
        P = lambda c, n: [p.auid for p in md.lookup_classdef(c).propertydefs if p.property_name == n][0]
        head, dic, cont = P('Root', 'Header'), P('Header', 'Dictionary'), P('Header', 'Content')
        md.register_classdef('OwnDef', uid(1), 'DefinitionObject', True)
        md.register_typedef_model({'strongrefs': {'OwnRef': (str(uid(2)), str(uid(1)))}})
        md.register_typedef_model({'sets': {'OwnSet': (str(uid(3)), str(uid(2)))}})
        for c, n, a in (('Dictionary', 'Owns', 4), ('ContentStorage', 'Owns', 5), ('InterchangeObject', 'Owns', 6)):
            md.lookup_classdef(c).register_propertydef('%s of %s' % (n, c), uid(a), None, uid(3), True)
        path = dict(data=[head, dic, P('Dictionary', 'DataDefinitions')], operation=[head, dic, P('Dictionary', 'OperationDefinitions')],
                    mob=[head, cont, P('ContentStorage', 'Mobs')], own=[head, dic, uid(4)], stored=[head, cont, uid(5)], everywhere=[head, cont, uid(6)])
        path['class'] = [P('Root', 'MetaDictionary'), P('MetaDictionary', 'ClassDefinitions')]
        path['type'] = [P('Root', 'MetaDictionary'), P('MetaDictionary', 'TypeDefinitions')]
        cls = dict(data='DataDefinition', operation='OperationDefinition', mob='Mob', own='OwnDef', stored='OwnDef', everywhere='OwnDef', type='TypeDefinition')
        cls['class'] = 'ClassDefinition'
        self.path = path
        h = md.register_classdef('Holder', uid(7), 'InterchangeObject', True)
        ks = list(KIND)
        random.Random(self.order).shuffle(ks)
        for k in ks:
            i = KIND.index(k)
            md.register_typedef_model({'weakrefs': {'Weak ' + k: (str(uid(20 + i)), str(md.lookup_classdef(cls[k]).auid), [str(x) for x in path[k]])}})
            md.register_typedef_model({'var_arrays': {'Weak vector ' + k: (str(uid(40 + i)), str(uid(20 + i)))}})
            md.register_typedef_model({'sets': {'Weak set ' + k: (str(uid(60 + i)), str(uid(20 + i)))}})
            for j, fm in enumerate(FORMS):
                h.register_propertydef('%s %s' % (k, fm), uid(200 + 10 * i + j), None, uid(20 * (j + 1) + i), True)
        md.register_typedef_model({'strongrefs': {'HolderRef': (str(uid(8)), str(uid(7)))}})
        md.register_typedef_model({'var_arrays': {'Holders': (str(uid(9)), str(uid(8)))}})
        md.lookup_classdef('ContentStorage').register_propertydef('Holders', uid(10), None, uid(9), True)

    def collection(self, k):
        f = self.f
        return {'data': lambda: f.dictionary['DataDefinitions'], 'operation': lambda: f.dictionary['OperationDefinitions'], 'mob': lambda: f.content['Mobs'],
                'class': lambda: f.metadict['ClassDefinitions'], 'type': lambda: f.metadict['TypeDefinitions'], 'own': lambda: f.dictionary['Owns of Dictionary'],
                'stored': lambda: f.content['Owns of ContentStorage'], 'everywhere': lambda: f.content['Owns of InterchangeObject']}[k]()

    def make(self, k, n):
        f, key, name = self.f, key_of(k, n), '%s %d' % (k, n)
        if k == 'data':
            return f.create.DataDef(key, name, 'd')
        if k == 'operation':
            o = f.create.OperationDef(key, name)
            o.media_kind = 'picture'
            o['IsTimeWarp'].value, o['NumberInputs'].value, o['OperationCategory'].value = False, 1, 'OperationCategory_Effect'
            return o
        if k == 'mob':
            m = f.create.MasterMob(name)
            m.mob_id = key
            return m
        if k == 'class':
            return f.metadict.register_classdef(name, key, 'InterchangeObject', True)
        if k == 'type':
            f.metadict.register_typedef_model({'ints': {name: (str(key), 4, True)}})
            return f.metadict.lookup_typedef(key)
        f.metadict.lookup_classdef('OwnDef')
        o = f.create.OwnDef()
        o['Identification'].value, o['Name'].value = key, name
        return o

    def name(self, o):
        n = type(o).__name__
        return o.class_name if n == 'ClassDef' else o.type_name if n.startswith('TypeDef') else o['Name'].value

    def new(self, k, n, later):
        key = key_of(k, n)
        if key in self.targets[k]:
            return
        o = self.make(k, n)
        self.targets[k][key] = '%s %d' % (k, n)
        if k in ('class', 'type'):
            return
        self.waiting.append((k, key, o))
        if not later:
            self.settle()

    def settle(self):
        for k, key, o in self.waiting:
            self.collection(k).append(o)
        self.waiting = []

    def target(self, k, key):
        for a, b, o in self.waiting:
            if a == k and b == key:
                return o
        return self.collection(k)[key]

    def holder(self, h, later):
        if h in self.holders:
            return
        self.holders[h] = o = self.f.create.Holder()
        self.want[h] = {}
        self.loose = getattr(self, 'loose', [])
        self.loose.append(o)
        if not later:
            self.attach()

    def attach(self):
        for o in getattr(self, 'loose', []):
            self.f.content['Holders'].append(o)
        self.loose = []

    def pick(self, k, ns):
        """keys of existing targets, different ones"""
        have = sorted(self.targets[k], key=str)
        r = []
        for n in ns:
            if have and have[n % len(have)] not in r:
                r.append(have[n % len(have)])
        return r

    def step(self, op):
        kind = op[0]
        if kind == 'target':
            return self.new(*op[1:])
        if kind == 'holder':
            return self.holder(*op[1:])
        if kind == 'attach':
            self.attach()
            return self.settle()
        if kind == 'drop':
            return self.drop(*op[1:])
        if kind == 'copy':
            return self.copy(*op[1:])
        if kind == 'replace':
            # the object that holds the definitions is another one from now on
            if not self.waiting:
                self.f.header['Dictionary'].value = self.f.dictionary.copy()
            return
        if op[1] not in self.holders:
            return
        h, o, k, form = op[1], self.holders[op[1]], op[2], op[3]
        pn = '%s %s' % (k, form)
        w = self.want[h]
        keys = self.pick(k, op[4])
        if kind == 'none':
            o[pn].value = None
            w.pop(pn, None)
            return
        if form == 'one':
            if keys:
                o[pn].value = self.target(k, keys[0])
                w[pn] = keys[0]
            return
        p = o[pn]
        if form == 'vector' and op[4][:1] == [0]:
            keys = keys + keys[:1]
        if kind == 'assign':
            p.value = [self.target(k, x) for x in keys]
            w[pn] = keys
        elif kind == 'clear':
            if pn in w:
                p.clear()
                w[pn] = []
        else:
            have = w.get(pn, [])
            if form == 'set':
                keys = [x for x in keys if x not in have]
            if kind == 'append':
                for x in keys:
                    p.append(self.target(k, x))
                if not keys:
                    return
            else:
                p.extend(self.target(k, x) for x in keys)
            w[pn] = have + keys

    def drop(self, k, n):
        if k in ('class', 'type', 'mob'):
            return
        key = key_of(k, n)
        if key not in self.targets[k] or self.waiting:
            return
        for w in self.want.values():
            for pn, v in w.items():
                if pn.split()[0] == k and (v == key or isinstance(v, list) and key in v):
                    return
        self.collection(k).pop(key)
        del self.targets[k][key]

    def copy(self, h, h2):
        if h not in self.holders or h2 in self.holders or self.waiting:
            return
        self.holders[h2] = o = self.holders[h].copy()
        self.want[h2] = dict((a, list(b) if isinstance(b, list) else b) for a, b in self.want[h].items())
        self.f.content['Holders'].append(o)

    # ---- what must hold
    def check(self):
        from aaf2.auid import AUID
        for h, w in self.want.items():
            o = self.holders[h]
            for k in KIND:
                for fm in FORMS:
                    pn = '%s %s' % (k, fm)
                    p = o.get(pn, None)
                    if pn not in w:
                        if p is not None and pn in [q.name for q in o.properties()]:
                            return '%s: %s should not be there' % (h, pn)
                        continue
                    if p is None:
                        return '%s: %s is missing' % (h, pn)
                    r = self.compare(k, p, w[pn])
                    if r:
                        return '%s: %s %s' % (h, pn, r)

    def is_target(self, k, key, x):
        c = self.collection(k)
        if x is not c[key]:
            return 'of %s gives %r and not the member with that key' % (key, x)
        if x.unique_key != key or self.name(x) != self.targets[k][key] or x.root is not self.f:
            return 'of %s gives %r' % (key, x)

    def compare(self, k, p, w):
        if not isinstance(w, list):
            return self.is_target(k, w, p.value)
        v = p.value
        if len(v) != len(w) or len(p) != len(w):
            return 'has %d members, not %d' % (len(v), len(w))
        for key, x in zip(w, v):
            r = self.is_target(k, key, x)
            if r:
                return 'in order: ' + r
        if [a for a, b in p.items()] != w or any(self.is_target(k, a, b) for a, b in p.items()):
            return 'items() differ'
        for key in w:
            if key not in p or p.get(key) is not self.collection(k)[key] or p[key] is not self.collection(k)[key]:
                return 'by key %s differs' % key
        other = key_of(k, 99999)
        d = object()
        if other in p or p.get(other, d) is not d:
            return 'has a key that was never added'
        try:
            p[other]
            return 'gives something for a key that was never added'
        except KeyError:
            pass

    def stored(self):
        """the bytes of the saved file say the same"""
        import struct
        f = self.f
        raw = bytes(bytearray(f.cfb.open('/referenced properties').read()))
        n, count = struct.unpack('<HI', raw[1:7])
        words = struct.unpack('<%dH' % count, raw[7:7 + 2 * count])
        table, cur = [], []
        for x in words:
            if x:
                cur.append(x)
            else:
                table.append(cur)
                cur = []
        if len(table) != n or cur or len(raw) != 7 + 2 * count or bytearray(raw)[0] != 0x4c:
            return 'table of collections is malformed'
        if len(set(map(tuple, table))) != n:
            return 'table of collections holds a path twice'
        pids = {}
        for c in f.metadict.classdefs_by_auid.values():
            for p in c.propertydefs:
                pids[p.auid] = p.pid
        for h, w in self.want.items():
            o = self.holders[h]
            raw = bytes(bytearray(o.dir.get('properties').open().read()))
            cnt = struct.unpack('<H', raw[2:4])[0]
            got, at = {}, 4 + 6 * cnt
            for i in range(cnt):
                pid, fmt, size = struct.unpack('<HHH', raw[4 + 6 * i:10 + 6 * i])
                got[pid] = (fmt, raw[at:at + size])
                at += size
            for pn, v in w.items():
                pd = [p for p in f.metadict.lookup_classdef('Holder').propertydefs if p.property_name == pn][0]
                if pd.pid not in got:
                    return '%s: %s is not stored' % (h, pn)
                fmt, data = got[pd.pid]
                form = FORMS.index(pn.split()[1])
                if fmt != (0x02, 0x12, 0x1a)[form]:
                    return '%s: stored form of %s is %x' % (h, pn, fmt)
                if form:
                    d = bytes(bytearray(o.dir.get(data.decode('utf-16-le').rstrip(chr(0)) + ' index').open().read()))
                    cnt2, place, kp, ks = struct.unpack('<IHHB', d[:9])
                    keys = [d[9 + ks * i:9 + ks * (i + 1)] for i in range(cnt2)]
                    if len(d) != 9 + ks * cnt2:
                        return '%s: index of %s has %d bytes' % (h, pn, len(d))
                else:
                    place, kp, ks = struct.unpack('<HHB', data[:5])
                    keys, v = [data[5:]], [v]
                k = pn.split()[0]
                if keys != [bytes(bytearray(x.bytes_le)) for x in v]:
                    return '%s: keys of %s in the file differ' % (h, pn)
                if table[place] != [pids[a] for a in self.path[k]]:
                    return '%s: %s is stored with the path %r' % (h, pn, table[place])
                if ks != (32 if k == 'mob' else 16):
                    return '%s: %s is stored with key size %d' % (h, pn, ks)
                if kp != f.metadict.lookup_classdef({'mob': 'Mob', 'class': 'ClassDefinition', 'type': 'TypeDefinition'}.get(k, 'DefinitionObject')).unique_key_pid and k in ('mob', 'class', 'type'):
                    return '%s: %s is stored with key property %x' % (h, pn, kp)


def gen_graph(rng, i):
    n = rng.choice([6, 12, 25, 40])
    ops = [['target', k, x, False] for k in KIND for x in range(rng.choice([0, 1, 3, 9]))]
    rng.shuffle(ops)
    ops.append(['holder', 0, rng.random() < .3])
    for _ in range(n):
        r = rng.random()
        ks = [rng.randrange(12) for _ in range(rng.choice([0, 1, 1, 2, 5]))]
        if r < .1:
            ops.append(['target', rng.choice(KIND), rng.randrange(9, 30), rng.random() < .5])
        elif r < .2:
            ops.append(['holder', rng.randrange(4), rng.random() < .3])
        elif r < .25:
            ops.append(['drop', rng.choice(KIND), rng.randrange(12)])
        elif r < .3:
            ops.append(['reopen'])
        elif r < .34:
            ops.append(['save'])
        elif r < .39:
            ops.append(['copy', rng.randrange(4), rng.randrange(4, 8)])
        elif r < .44:
            ops.append(['other', rng.randrange(4)])
        elif r < .47:
            ops.append(['attach'])
        elif r < .49:
            ops.append(['replace'])
        else:
            ops.append([rng.choice(['assign', 'assign', 'append', 'extend', 'clear', 'none'] if rng.random() < .6 else ['assign', 'extend']), rng.randrange(4),
                        rng.choice(KIND), rng.choice(FORMS), ks])
    return dict(order=rng.randrange(5), ops=ops)


def check_graph(inp):
    with AafFiles() as files:
        g = Graph(files.open('a.aaf', 'w'), inp['order'])
        other = None
        for i, op in enumerate(list(inp['ops']) + [['reopen']]):
            where = 'step %d %r: ' % (i, op)
            if op[0] in ('reopen', 'save', 'other'):
                g.attach()
                g.settle()
                track(g)
            if op[0] == 'save':
                g.f.save()
            elif op[0] == 'reopen':
                g.f.close()
                f = files.open('a.aaf', 'r+')
                g.f = f
                names = [h for h in g.holders]
                hs = list(f.content['Holders'].value) if names else []
                if len(hs) != len(names):
                    return where + 'holders lost'
                # in the order of attachment
                g.holders = dict(zip(g.order_of, hs))
                r = g.stored()
                if r:
                    return where + r
            elif op[0] == 'other':
                if op[1] in g.holders:
                    if other is None:
                        other = Graph(files.open('b.aaf', 'w'), inp['order'] + 1)
                    r = carried(g, other, op[1], i)
                    if r:
                        return where + r
            else:
                g.step(op)
            track(g)
            if g.waiting:
                continue
            r = g.check()
            if r:
                return where + r
        if other is not None:
            r = other.check()
            if r:
                return 'other file: ' + r
            other.f.close()
            other.f = files.open('b.aaf', 'r')
            hs = list(other.f.content['Holders'].value)
            other.holders = dict(zip(other.order_of, hs))
            r = other.stored() or other.check()
            if r:
                return 'other file, reopened: ' + r


def track(g):
    """names of the holders in the order of their vector"""
    loose = getattr(g, 'loose', [])
    done = getattr(g, 'order_of', [])
    attached = [x for x in g.holders if not any(g.holders[x] is o for o in loose)]
    g.order_of = [x for x in done if x in attached]
    new = [x for x in attached if x not in g.order_of]
    if new:
        objs = list(g.f.content['Holders'].value)[len(g.order_of):]
        for o in objs:
            g.order_of += [x for x in new if g.holders[x] is o]


def carried(g, other, h, i):
    """a copy in another file refers to what has the same key there"""
    o = g.holders[h].copy(root=other.f)
    name = 'copy %d' % i
    for pn, v in g.want[h].items():
        k = pn.split()[0]
        for key in v if isinstance(v, list) else [v]:
            other.targets[k].setdefault(key, g.targets[k][key])
    other.want[name] = dict((a, list(b) if isinstance(b, list) else b) for a, b in g.want[h].items())
    other.holders[name] = o
    other.f.content['Holders'].append(o)
    track(other)
    return other.check()


def shrink_graph(inp):
    for ops in drop_chunks(inp['ops']):
        yield dict(inp, ops=ops)


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_graph, check_graph, shrink=shrink_graph)


# ---------------------------------------------------------------- bounded: table and index streams
def gen_table(rng, i):
    pids = [rng.choice([1, 2, 0x101, 0x1901, 0x4402, 0xffff, rng.randrange(1, 0x10000)]) for _ in range(rng.choice([1, 2, 3, 6]))]
    paths = []
    for _ in range(rng.choice([1, 3, 8, 30, 300])):
        if paths and rng.random() < .3:
            paths.append(list(rng.choice(paths)))
        else:
            paths.append([rng.choice(pids) for _ in range(rng.choice([1, 2, 3, 3, 5]))])
    return dict(paths=paths, count=rng.choice([0, 1, 2, 17, 255, 256, 257, 1000, rng.randrange(70000) if rng.random() < .1 else 3]), key=rng.choice([16, 32]),
                name=rng.randrange(1000), seed=rng.randrange(10 ** 9))


class Shared(object):
    f = None

    def get(self):
        import aaf2
        if self.f is None:
            self.f = aaf2.open()
            self.f.save()
        return self.f


SHARED = Shared()


def check_table(inp):
    from aaf2 import properties
    from aaf2.auid import AUID
    from aaf2.mobid import MobID
    from specs.common import Mem
    f = SHARED.get()
    keep = f.weakref_table
    try:
        f.weakref_table = []
        seen = []
        for p in inp['paths']:
            i = f.weakref_index(list(p))
            if p not in seen:
                seen.append(p)
            if not isinstance(i, int) or not 0 <= i < len(f.weakref_table):
                return 'index %r for %r' % (i, p)
            if f.weakref_table[i] != p:
                return 'index %d is given for the path %r but stands for %r' % (i, p, f.weakref_table[i])
        for p in inp['paths']:
            if f.weakref_table[f.weakref_index(list(p))] != p:
                return 'the path %r has lost its index' % p
        before = [list(p) for p in f.weakref_table]
        f.write_reference_properties()
        f.weakref_table = None
        f.read_reference_properties()
        if [list(p) for p in f.weakref_table] != before:
            return 'table read %r, written %r' % (f.weakref_table[:8], before[:8])
    finally:
        f.weakref_table = keep
    rng = random.Random(inp['seed'])
    kind = AUID if inp['key'] == 16 else MobID
    keys = [kind(bytes_le=bytes(bytearray(rng.randrange(256) for _ in range(inp['key'])))) for _ in range(inp['count'])]
    def prop():
        p = properties.WeakRefSetProperty(f.content, 0x4411, properties.SF_WEAK_OBJECT_REFERENCE_SET)
        p.index_name = 'refs %d' % (inp['name'] % 7)
        return p
    p = prop()
    p.weakref_index, p.key_pid, p.key_size = inp['name'], 0x4000 + inp['name'], inp['key']
    p.references = list(keys)
    p.write_index()
    q = prop()
    q.read_index()
    if (q.weakref_index, q.key_pid, q.key_size) != (p.weakref_index, p.key_pid, p.key_size):
        return 'index stream: %r' % ((q.weakref_index, q.key_pid, q.key_size),)
    if q.references != keys:
        return '%d references read, %d written%s' % (len(q.references), len(keys), '' if len(q.references) != len(keys) else ', others')


def shrink_table(inp):
    for ps in drop_chunks(inp['paths']):
        yield dict(inp, paths=ps)


def run_table(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_table, check_table, nq=300, shrink=shrink_table)


UNITS = [Unit('stored reference, %d' % z, one_stored(z), [R + 'encode', R + 'decode'], rep, covers=['entry']) for z in (16, 32)]
UNITS += [Unit('index read, %d' % z, reading(z), [A + 'read_index'], rep, covers=['entry', 'record', 'done']) for z in (16, 32)]
UNITS += [Unit('index written, %d' % z, writing(z), [A + 'write_index'], rep, covers=['entry', 'record', 'done']) for z in (16, 32)]
UNITS += [Unit('place of a path', placing, ['file.AAFFile.weakref_index'], rep, covers=['entry', 'known', 'new']),
          Unit('down a path', following, ['file.AAFFile.weakref_prop', 'file.AAFFile.resovle_weakref'], rep, covers=['entry', 'resolved', 'property']),
          Unit('table read', table_read, ['file.AAFFile.read_reference_properties'], rep, covers=['entry', 'inside', 'ended', 'done']),
          Unit('table written', table_written, ['file.AAFFile.write_reference_properties'], rep, covers=['entry', 'number', 'path', 'done']),
          Unit('path of a type', pathing, ['types.TypeDefWeakRef.propertydef_path'], rep, covers=['entry', 'step', 'refused', 'done']),
          Unit('resolve', resolving, ['properties.resolve_weakref'], rep, covers=['entry']),
          Unit('assign one', one_value, [R + 'value'], rep, covers=['entry', 'refused', 'removed', 'set']),
          Unit('read one', one_read, [R + 'value'], rep, covers=['entry']),
          Unit('extend', extending, [A + 'extend'], rep, covers=['entry', 'refused', 'done']),
          Unit('extend by nothing', extend_none, [A + 'extend'], rep, covers=['entry']),
          Unit('append, clear and assign', changing, [A + 'append', A + 'clear', A + 'value'], rep, covers=['entry']),
          Unit('iteration', walking, [A + '__iter__', A + 'items'], rep, covers=['entry', 'member']),
          Unit('value', valuing, [A + 'value', A + '__len__'], rep, covers=['entry']),
          Unit('by key', keyed, [A + 'get', A + '__getitem__', A + '__contains__'], rep, covers=['entry', 'missing', 'found']),
          Unit('references of definitions', built_in, ['properties.add_weakref_property', 'properties.add_typedef_weakref_vector_property'], rep, covers=['entry'])]
BOUNDED = [Bounded('graphs of references', run, 'random histories of up to about 90 steps on one or two files: references in all forms (single, vector, set) from up to 8 objects to 8 kinds of targets '
                   '(data and operation definitions, mobs with 32 byte keys, classes, types, definitions of an own class in the dictionary, in the content and in a property of the base class), '
                   'targets and holders attached before or after the reference is made, copies, saves and reopening; after every step all references are followed, after reopening the stored bytes are decoded independently',
                   [R + 'value', A + 'extend', A + 'read_index', A + 'write_index', 'file.AAFFile.weakref_index', 'file.AAFFile.weakref_prop', 'file.AAFFile.read_reference_properties'], check_graph, budget=12),
           Bounded('table and index streams', run_table, 'random tables of up to 300 target paths (shared ends, repeated paths) and index streams of up to 70000 references of 16 or 32 byte keys, written and read back',
                   ['file.AAFFile.weakref_index', 'file.AAFFile.read_reference_properties', 'file.AAFFile.write_reference_properties', A + 'read_index', A + 'write_index'], check_table, budget=4)]
