"""P04: the storage tree is a namespace and its siblings are a search tree.

Deductive part:
  insert    (specs/rbtree.py) for trees of any size
  order     the comparison operators are one strict total order by (length, upper case name)
  rotations in-order sequence and search property kept, for arbitrary subtrees
  listing   listdir_dict visits every entry of the sibling tree once (trees of any size)
  find      follows exactly the names of the path, for paths of any depth
  forbidden create/remove/move/open/makedir refuse, before anything changes, what the
            namespace model forbids; otherwise they detach/attach exactly that entry
  walk      the sequence of folders, each once, by induction over the depth (both directions)
  rmtree    every entry below the target loses its record and its sectors, once
Bounded: pop() and everything together (histories)."""
import random
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec, Val, At
from pydv.seq import mk
from pydv.libs import PvDict
from pydv.runner import Unit, Bounded, plain
from specs import rbtree
from specs.rbtree import World, N, inorder, links
from specs.common import drive, drop_chunks, guarded
from specs.P02 import container

BIG = 1 << 24


# ---------------------------------------------------------------- order
class Upper(object):
    """an upper cased name: only its place in the order matters"""

    def __init__(self, k): self.k = k
    def __lt__(self, o): return self.k < o.k
    def __gt__(self, o): return o.k < self.k
    def __le__(self, o): return self.k <= o.k
    def __ge__(self, o): return o.k <= self.k
    def __eq__(self, o): return self.k == o.k
    def __ne__(self, o): return self.k != o.k
    __hash__ = None


class Name(object):
    def __init__(self, w):
        self.n, self.u = fresh_int(w + ' len', 1, 31), fresh_int(w + ' upper')

    def pv_len(self): return self.n
    def upper(self): return Upper(self.u)
    def key(self): return self.n, self.u


def lt(a, b): return or_(a.n < b.n, and_(a.n == b.n, a.u < b.u))
def eq(a, b): return and_(a.n == b.n, a.u == b.u)


def order(P):
    names = [Name(x) for x in 'abc']
    E = type('E', (P.cfb.DirEntry,), dict(name=property(lambda s: s.nm), __slots__=('nm',)))

    def mkentry(nm):
        e = E.__new__(E)
        e.nm = nm
        return e
    a, b, c = [mkentry(x) for x in names]
    A, B, C = names
    ctx().cover('entry')
    b_ = lambda x: x if isinstance(x, SBool) else bool(x)
    prove(iff(b_(a < b), lt(A, B)), 'less: shorter first, then the upper case names')
    prove(iff(b_(a > b), lt(B, A)), 'greater')
    prove(iff(b_(a == b), eq(A, B)), 'equal: the same name when case is ignored')
    prove(iff(b_(a <= b), or_(lt(A, B), eq(A, B))), 'less or equal')
    prove(iff(b_(a >= b), or_(lt(B, A), eq(A, B))), 'greater or equal')
    prove(not_(b_(a < a)), 'irreflexive')
    prove(not_(and_(b_(a < b), b_(b < a))), 'asymmetric')
    prove(or_(b_(a < b), b_(b < a), b_(a == b)), 'total')
    prove(implies(and_(b_(a < b), b_(b < c)), b_(a < c)), 'transitive')
    prove(a.__eq__(None) is False, 'no entry equals nothing')


# ---------------------------------------------------------------- rotations
def rotation(double):
    def body(P):
        for d in (0, 1):
            w = World()
            root = w.new().here()
            root.make()
            top = root.kids0[1 - d].here()
            top.make()
            inner = None
            if double:
                inner = top.kids0[d].here()
                inner.make()
            ctx().cover('entry')
            r = (P.cfb.jsw_double if double else P.cfb.jsw_single)(root, d)
            before = inorder(root, True)
            prove(r is (inner if double else top), 'the new root')
            after = inorder(r, False)
            prove(len(after) == len(before) and all(p is q for p, q in zip(before, after)), 'the order of the entries is unchanged')
            prove(and_(root.color_, not_(r.color_)), 'the new root is black, the old one red')
            prove(r[d] is root, 'the old root is below')
    return body


# ---------------------------------------------------------------- the records of one tree level
class ListStack(object):
    """the stack of subtrees still to visit: all that matters is how many entries they hold"""

    def __init__(self, first):
        self.total = first[0].size if first else 0
        self.popped = None

    def pop(self):
        e = N(World()).here()
        assume(e.size <= self.total)
        self.total = self.total - e.size
        self.popped = e
        return e

    def append(self, e):
        prove(e is not None, 'only entries are visited')
        e.pushed = getattr(e, 'pushed', 0) + 1
        self.total = self.total + e.size

    extend = None

    def __bool__(self): return bool(self.total > 0)
    def pv_len(self): return self.total


class LEntry(N):
    pass


class Visit(LoopSpec):
    """entries visited + entries below the stack = entries of the folder"""
    name = 'visit'
    fn = 'listdir_dict'

    def __init__(self, h): self.h, self.at = h, None
    def match(self, L, env): return L.lazy is None and isinstance(env.get('stack'), ListStack)
    def fresh(self, L): return dict(c=fresh_int('count', 0), t=fresh_int('left', 0))
    def ghost0(self, L, env): return dict(c=env['count'], t=env['stack'].total)

    def constraint(self, L, g):
        return [g['c'] + g['t'] == self.h['size'], g['t'] >= 0, g['c'] >= 0]

    def state(self, L, g):
        # what was listed before stays listed
        d = PvDict()
        d['earlier'] = self
        return {'count': g['c'], (self.h['stack'][0], 'total'): g['t'], 'result': Val(d, lambda cur: L.cut is None or cur.get('earlier') is self)}
    def measure(self, L, g): return g['t']
    def iteration(self, L, g): self.h['stack'][0].popped, self.at = None, True

    def next(self, L, g, env):
        st = self.h['stack'][0]
        e = st.popped
        prove(e is not None and env['result'].get(e) is e, 'the entry is listed under its name')
        for side in (0, 1):
            k = e.kids_[side]
            prove(k is not None and k.known is not None, 'both sides are looked at')
            prove(getattr(k, 'pushed', 0) == (0 if k.known else 1), 'what is below is visited, once')
        ctx().cover('visited')
        return dict(c=env['count'], t=st.total)


def listing(ss):
    def body(P):
        from pydv import loops
        h = dict(stack=[])
        w = World()
        first = w.new()
        h['size'] = first.size
        sectors = fresh_int('directory sectors', 1, 1 << 20)
        # every entry has a record
        assume(first.size <= sectors * (ss // 128))

        class Dir(object):
            dir_id = 7
            def isdir(self): return True
            def child(self): return first.resolve()

        class Cache(object):
            def __init__(self): self.d = {}
            def get(self, k, default=None): return self.d.get(k, default)
            def __setitem__(self, k, v): self.d[k] = v
        c = container(P, ss, find=lambda self, p: p)
        c.dir_sector_count, c.children_cache, c.root = sectors, Cache(), Dir()
        N.name = property(lambda s: s)
        N.left, N.right = (lambda s: s[0]), (lambda s: s[1])

        def mkstack(items):
            s = ListStack(items)
            h['stack'].append(s)
            return s
        real = P.cfb.deque
        P.cfb.deque = mkstack
        loops.ACTIVE[:] = [[Visit(h)]]
        ctx().cover('entry')
        try:
            r = c.listdir_dict(c.root)
        finally:
            P.cfb.deque = real
        prove(c.children_cache.d.get(7) is r, 'the listing is remembered')
        if h['stack']:
            ctx().cover('done')
            prove(h['stack'][0].total == 0, 'nothing is left')
        else:
            ctx().cover('empty')
            prove(first.size == 0 and len(r) == 0, 'an empty folder')
        r2 = c.listdir_dict(c.root)
        prove(r2 is r, 'and used again')
    return body


# ---------------------------------------------------------------- find
class Paths(object):
    """a path of n names below the root, none of them known"""

    def __init__(self): self.n = fresh_int('names', 1, BIG)
    def lstrip(self, x): prove(x == '/', 'the leading slash'); return self
    def strip(self, x): prove(x == '/', 'the slashes'); return self
    def split(self, x): prove(x == '/', 'names are separated by slashes'); return mk('list', n=self.n, f=lambda k: k)
    def __eq__(self, o): return False
    __hash__ = None


class Node(object):
    """the storage or stream the model reaches by the first k names"""

    def __init__(self, h, k): self.h, self.k = h, k
    def pv_same(self, o, nm):
        prove(isinstance(o, Node), nm)
        prove(o.k == self.k, nm)


class Walk(LoopSpec):
    name = 'names'
    fn = '.find'

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is None and 'split_path' in env
    def fresh(self, L): return dict(i=fresh_int('i', 0))
    def ghost0(self, L, env): return dict(i=0)

    def constraint(self, L, g):
        q = self.h['Q']
        return [g['i'] < self.h['n'], implies(q < g['i'], self.h['has'](q))]

    def state(self, L, g): return {'i': g['i'], 'root': Node(self.h, g['i'])}
    def next(self, L, g, env): return dict(i=env['i'])
    def measure(self, L, g): return self.h['n'] - g['i']


def finding(P):
    from pydv import loops
    h = dict(has=UF('exists', 1, boolean=True), Q=fresh_int('Q', 0))
    p = Paths()
    h['n'] = p.n

    class Kids(object):
        def __init__(self, k): self.k = k

        def get(self, name, default=None):
            prove(name == self.k, 'the next name is looked up')
            if bool(h['has'](self.k)):
                return Node(h, self.k + 1)
            h['miss'] = self.k
            return default
    c = container(P, 4096, listdir_dict=lambda self, n: Kids(n.k))
    c.root = Node(h, 0)
    loops.ACTIVE[:] = [[Walk(h)]]
    ctx().cover('entry')
    r = P.cfb.CompoundFileBinary.find(c, p)
    if r is None:
        ctx().cover('missing')
        prove('miss' in h, 'a name of the path does not exist')
        prove(and_(h['miss'] < p.n, not_(h['has'](h['miss']))), 'a name of the path does not exist')
    else:
        ctx().cover('found')
        prove(r.k == p.n, 'the entry of the whole path')
        prove(implies(h['Q'] < p.n, h['has'](h['Q'])), 'every name exists')
    e = P.cfb.DirEntry.__new__(P.cfb.DirEntry)
    prove(P.cfb.CompoundFileBinary.find(c, e) is e, 'an entry is itself')
    prove(P.cfb.CompoundFileBinary.find(c, '/') is c.root, 'the root')


# ---------------------------------------------------------------- what is forbidden
class Ent(object):
    """an entry as create/remove/move/open use it"""

    def __init__(self, log, what, type_=None, **k):
        self.log, self.what, self.type = log, what, type_
        self.parent, self.sector_id, self.child_id, self.dir_id = None, None, None, 5
        self.byte_size, self.name, self.class_id = 0, what, None
        self.__dict__.update(k)

    def isdir(self): return self.type in ('storage', 'root storage')
    def isfile(self): return self.type == 'stream'
    def isroot(self): return self.type == 'root storage'

    def pop(self):
        self.log.append(('pop', self))

    def add_child(self, e):
        self.log.append(('add', self, e, e.name))


TYPES = ('stream', 'storage', 'root storage')


def creating(P):
    log = []
    exists, parent = bool(fresh_bool('exists')), ctx().choose(4)
    par = Ent(log, 'parent', TYPES[parent]) if parent < 3 else None
    seen, made = [], []

    class New(object):
        def __init__(self, storage, i): self.storage, self.dir_id = storage, i
    fid = fresh_int('free id', 0)

    def free(self):
        log.append('id')
        return fid
    found = Ent(log, 'there', TYPES[ctx().choose(3)]) if exists else None

    def find(self, p):
        seen.append(p)
        return par if p == '/a/b' else found
    c = container(P, 4096, find=find, exists=lambda self, p: find(self, p) is not None, next_free_dir_id=free)
    c.dir_cache = PvDict()
    real = P.cfb.DirEntry
    P.cfb.DirEntry = New
    ctx().cover('entry')
    cls = object()
    r = err = None
    try:
        r = c.create_dir_entry('/a/b/name', 'stream', cls)
    except ValueError as e:
        err = e
    finally:
        P.cfb.DirEntry = real
    ok = not exists and par is not None and par.type != 'stream'
    prove((err is None) == ok, 'refused exactly when it exists, or its parent is missing or a stream')
    if err is not None:
        ctx().cover('refused')
        prove(log == [] and len(c.dir_cache) == 0, 'and nothing changed')
        return
    ctx().cover('created')
    prove(isinstance(r, New) and r.dir_id is fid and r.name == 'name' and r.type == 'stream' and r.class_id is cls, 'the new entry')
    adds = [x for x in log if x[0] == 'add']
    prove(len(adds) == 1 and adds[0][1] is par and adds[0][2] is r, 'added to the folder the path names')
    prove(adds[0][3] == 'name', 'named before it is put in order')
    prove(log.count('id') == 1, 'one record is taken')


def removing(P):
    log = []
    t = ctx().choose(4)
    e = None
    if t < 3:
        kid = fresh_int('child', 0) if ctx().choose(2) and TYPES[t] != 'stream' else None
        e = Ent(log, 'e', TYPES[t], child_id=kid, byte_size=fresh_int('size', 0), sector_id=fresh_int('first', 0))
    c = container(P, 4096, find=lambda self, p: e, free_fat_chain=lambda self, s, m=False: log.append(('free', s, m)),
                  free_dir_entry=lambda self, x: log.append(('free entry', x)))
    ctx().cover('entry')
    err = None
    try:
        c.remove('/x')
    except ValueError as x:
        err = x
    ok = e is not None and e.type != 'root storage' and not (e.type == 'storage' and e.child_id is not None)
    prove((err is None) == ok, 'refused exactly for a missing path, the root and a storage with children')
    if err is not None:
        ctx().cover('refused')
        prove(log == [], 'and nothing changed')
        return
    ctx().cover('removed')
    kinds = [x[0] for x in log]
    prove(kinds.count('pop') == 1 and kinds.count('free entry') == 1, 'the entry leaves the tree and its record is free')
    prove(all(x[1] is e for x in log if x[0] != 'free'), 'that entry')
    prove(kinds.index('pop') < kinds.index('free entry'), 'first it leaves the tree')
    fr = [x for x in log if x[0] == 'free']
    if e.type == 'stream':
        ctx().cover('stream')
        prove(len(fr) == 1 and fr[0][1] is e.sector_id, 'the sectors of the stream are free')
        prove(iff(bool(fr[0][2]), e.byte_size < 4096), 'in the table they belong to')
    else:
        prove(fr == [], 'a storage has no sectors')


class Above(LoopSpec):
    """none of the folders up to here is the moved entry"""
    name = 'ancestors'
    fn = '.move'

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is None
    def fresh(self, L): return dict(k=fresh_int('k', 0))
    def ghost0(self, L, env): return dict(k=0)

    def constraint(self, L, g):
        # A: the level at which the moved entry lies above the target (-1: not above it)
        return [g['k'] <= self.h['depth'], implies(self.h['A'] >= 0, g['k'] <= self.h['A'])]

    def state(self, L, g):
        # the walk upwards: the entry `k` levels above the target, None above the root
        return {'parent': Val(up(self.h, g['k']), lambda cur: level(self.h, cur) == g['k'])}

    def next(self, L, g, env): return dict(k=level(self.h, env['parent']))
    def measure(self, L, g): return self.h['depth'] - g['k']


def level(h, e):
    if e is None:
        return h['depth']
    if e is h['src']:
        return h['A']
    if e is h['dst']:
        return 0
    return e.lev


class Up(object):
    def __init__(self, h, k): self.h, self.lev = h, k

    @property
    def parent(self): return up(self.h, self.lev + 1)


def up(h, k):
    if isinstance(k, int) and k == 0:
        return h['dst']
    if bool(k >= h['depth']):
        return None
    if bool(and_(h['A'] >= 0, k == h['A'])):
        return h['src']
    if bool(k == 0):
        return h['dst']
    return Up(h, k)


def moving(P):
    from pydv import loops
    log = []
    h = dict(depth=fresh_int('depth', 1, BIG), A=fresh_int('level of the moved entry', -1, BIG))
    slash = ctx().choose(2)
    t = ctx().choose(3)              # source: missing, stream, storage
    d = ctx().choose(4)              # the folder of the target: stream, storage, root, missing
    src = Ent(log, 'old', 'stream' if t == 1 else 'storage') if t else None
    dst = Ent(log, 'target', TYPES[d]) if d < 3 else None
    same = t == 2 and d == 1 and ctx().choose(2) == 1
    if same:
        dst = src
    assume(h['A'] < h['depth'])
    if same:
        assume(h['A'] == 0)
    else:
        assume(h['A'] != 0)
    if t != 2:
        assume(h['A'] == -1)          # only a storage can be above
    if d == 2:
        assume(h['depth'] == 1)
    h['src'], h['dst'] = src if src is not None else object(), dst
    exists = bool(fresh_bool('target exists'))
    if dst is not None and not same:
        dst.__class__ = type('D', (Ent,), {'parent': property(lambda s: up(h, 1), lambda s, v: None)})
    new = 'old' if slash else ('new', 'Old', 'old', 'o')[ctx().choose(4)]
    want = '/p/q/' + new

    def find(self, p):
        if p == '/src/old':
            return src
        if p == want:
            return there
        if p.rstrip('/') == '/p/q':
            return dst
        prove(False, 'only the source, the target and its folder are looked up')
    there = Ent(log, 'there', 'stream') if exists else None
    c = container(P, 4096, find=find, exists=lambda self, p: find(self, p) is not None)
    cc = {}
    c.children_cache = type('CC', (), {'__getitem__': lambda s, k: cc.setdefault(k, {})})()
    loops.ACTIVE[:] = [[Above(h)]]
    ctx().cover('entry')
    err = r = None
    if src is not None and t == 2 and not same:
        src.parent = None
    try:
        r = c.move('/src/old', '/p/q/' if slash else want)
    except ValueError as x:
        err = x
    bad = src is None or exists or dst is None or dst.type == 'stream'
    if bad:
        ctx().cover('forbidden')
        prove(err is not None, 'refused: no source, existing target, no folder')
    else:
        prove(iff(err is not None, h['A'] >= 0), 'refused exactly when the target lies inside the moved entry')
    if err is not None:
        ctx().cover('refused')
        prove(log == [] and (src is None or src.name == 'old'), 'and nothing changed')
        return
    ctx().cover('moved')
    prove([x[0] for x in log] == ['pop', 'add'], 'it leaves its place and enters the new one')
    prove(log[0][1] is src and log[1][1] is dst and log[1][2] is src, 'that entry, that folder')
    prove(log[1][3] == new and src.name == log[1][3], 'renamed before it is put in order')
    prove(r is src, 'the result is the entry')


def opening(P):
    log = []
    t = ctx().choose(4)
    mode = ('r', 'w', 'rw')[ctx().choose(3)]
    e = Ent(log, 'e', TYPES[t], sector_id=fresh_int('first', 0), byte_size=fresh_int('size', 0), class_id='cls') if t < 3 else None
    new = Ent(log, 'new', 'stream')
    first, size = (e.sector_id, e.byte_size) if e is not None else (None, None)

    def create(self, p, dir_type='storage', class_id=None):
        log.append(('create', p, dir_type))
        return new
    c = container(P, 4096, find=lambda self, p: e, create_dir_entry=create, exists=lambda self, p: e is not None,
                  free_fat_chain=lambda self, s, m=False: log.append(('free', s, m)))
    real = P.cfb.Stream
    got = []

    class S(object):
        def __init__(self, storage, entry, mode='r'): got.append((storage, entry, mode))
    P.cfb.Stream = S
    ctx().cover('entry')
    err = r = None
    try:
        r = c.open('/x', mode)
    except ValueError as x:
        err = x
    finally:
        P.cfb.Stream = real
    prove((err is not None) == ((e is None and mode == 'r') or (e is not None and e.type != 'stream')),
          'refused exactly for a missing stream opened for reading and for what is not a stream')
    if err is not None:
        ctx().cover('refused')
        prove(log == [] and got == [], 'and nothing changed')
        return
    ctx().cover('opened')
    prove(isinstance(r, S) and len(got) == 1 and got[0][0] is c and got[0][2] == mode, 'a stream object')
    prove(got[0][1] is (new if e is None else e), 'of the entry')
    if e is None:
        prove(log == [('create', '/x', 'stream')], 'a missing stream is created')
    elif mode == 'w':
        prove(len(log) == 1 and log[0][0] == 'free' and log[0][1] is first, 'overwriting frees the old sectors')
        prove(iff(bool(log[0][2]), size < 4096), 'in the table they belong to')
        prove(e.sector_id is None and e.byte_size == 0, 'and starts empty')
    else:
        prove(log == [] and e.sector_id is first and e.byte_size is size, 'opening changes nothing')


def freeing(P):
    """free_dir_entry: the record is free once, no cache holds the entry"""
    c = container(P, 4096)
    caches = {}
    inside = [ctx().choose(2) for _ in range(3)]
    i = fresh_int('id', 1, BIG)

    class D(object):
        def __init__(self, has): self.has, self.dels = has, []
        def pv_contains(self, k): return self.has and bool(k == i)
        def __delitem__(self, k):
            prove(k == i and bool(self.has), 'only the entry leaves the caches')
            self.has = 0
    c.dir_cache, c.children_cache, c.modified = [D(x) for x in inside]
    c.dir_freelist = []
    e = Ent([], 'e', 'stream')
    e.dir_id = i
    ctx().cover('entry')
    c.free_dir_entry(e)
    prove(len(c.dir_freelist) == 1 and c.dir_freelist[0] is i, 'its record is free, once')
    prove(e.dir_id is None, 'the entry has no record')
    prove(not c.dir_cache.has and not c.children_cache.has and not c.modified.has, 'no cache holds it')


def adding(P):
    log = []
    empty, cached = ctx().choose(2), ctx().choose(2)

    class Box(P.cfb.DirEntry):
        __slots__ = ('ch', 'kid', 'did')
        dir_id = property(lambda s: 3, lambda s, v: None)
        child_id = property(lambda s: s.kid, lambda s, v: log.append(('child', v)))
        name = 'folder'

        def child(self): return self.ch
        def insert(self, e): log.append(('insert', e, e.parent))
    b = Box.__new__(Box)
    b.kid = b.ch = None if empty else object()
    kids = {}

    class St(object): pass
    b.storage = St()
    b.storage.dir_cache = {}
    b.storage.children_cache = {3: kids} if cached else {}

    class New(object):
        parent, dir_id, name, color = None, 9, 'name', None
    e = New()
    ctx().cover('entry')
    b.add_child(e)
    prove(e.parent is b, 'it knows its folder')
    if empty:
        prove(log == [('child', 9)], 'the only entry of the folder')
        prove(e.color == 'black', 'the root of a tree is black')
    else:
        prove(len(log) == 1 and log[0][:2] == ('insert', e), 'inserted into the tree of the folder')
        prove(b.storage.dir_cache.get(9) is e, 'reading its record gives this entry')
    prove(kids == ({'name': e} if cached else {}), 'a remembered listing holds it')


# ---------------------------------------------------------------- concrete
# ---------------------------------------------------------------- walk, rmtree
class Item(object):
    """entry number k of a folder: a storage or a stream"""

    def __init__(self, h, k): self.h, self.k, self.dir_id = h, k, fresh_int('id', 1)

    @property
    def child_id(self):
        if not hasattr(self, 'kid'):
            self.kid = fresh_int('child', 1) if ctx().choose(2) else None
        return self.kid
    def isdir(self): return self.h['dir'](self.k)
    def isfile(self): return not_(self.h['dir'](self.k))
    def isroot(self): return False

    @property
    def type(self): return 'storage' if bool(self.isdir()) else 'stream'


class Coll(object):
    """the storages (or the streams) among the first `upto` entries of the folder, in the order of the listing"""

    def __init__(self, h, what, upto): self.h, self.what, self.upto, self.added = h, what, upto, []
    def append(self, x): self.added.append(x)
    def pv_len(self): return self.len_()

    def len_(self):
        if not hasattr(self, 'size'):
            self.size = fresh_int(self.what, 0, BIG)
        return self.size
    def __bool__(self): return bool(self.len_() > 0)

    def pv_lazy(self):
        # once more entries cannot be added its members are symbolic entries of that kind
        h, n = self.h, self.len_()

        def at(k):
            j = fresh_int('member', 0)
            assume(and_(j < h['n'], h['dir'](j) if self.what == 'storages' else not_(h['dir'](j))))
            return Item(h, j)
        return mk('list', n=n, f=at)


class Partition(LoopSpec):
    """one pass over the listing splits it into storages and streams"""
    name = 'listing'
    fn = ''
    only_for = True

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None and getattr(L.src, 'what', '') == 'listing'

    def state(self, L, g):
        h = self.h
        d = {}
        for nm, what in (('storage_items', 'storages'), ('stream_items', 'streams')):
            if L.cut is None:
                new = h[what] = Coll(h, what, L.idx)
                d[nm] = Val(new, lambda c, new=new: c is new or len(c) == 0)
            else:
                d[nm] = Val(None, lambda c, what=what: c is h[what] and self.one(L, c, what))
        return d

    def one(self, L, c, what):
        it = L.item
        mine = iff(it.isdir(), what == 'storages')
        return iff(mine, len(c.added) == 1) if not c.added else and_(mine, len(c.added) == 1 and c.added[0] is it)

    def next(self, L, g, env):
        ys = self.h['out']
        if bool(L.item.isdir()) and self.h['bottom']:
            prove(self.h['inner'] == [L.item], 'what is in a storage comes before it, once')
        else:
            prove(self.h['inner'] == [], 'only storages are entered')
        prove(ys == [], 'the folder itself comes after what is in it' if self.h['bottom'] else 'the folder comes before what is in it')
        ctx().cover('entries')
        return g

    def iteration(self, L, g): self.h['out'], self.h['inner'] = [], []


class Deeper(LoopSpec):
    """what the walk of a storage yields is yielded, each once and in that order"""
    name = 'deeper'
    fn = ''
    once = False
    only_for = True

    def __init__(self, h): self.h = h

    def match(self, L, env):
        h = self.h
        if getattr(L.src, 'what', '') == 'sub':
            it = L.src.item
        else:
            fr = getattr(L.src, 'gi_frame', None)
            # the recursive call: not run, its result is what the contract says
            it = fr.f_locals.get('root') if fr is not None and fr.f_lasti <= 4 else None
            if not isinstance(it, Item):
                return False
            L.src.close()
            L.lazy = Sub(h, it).pv_lazy()
        prove(it.isdir(), 'only storages are entered')
        h['inner'].append(it)
        self.item = it
        return True

    def iteration(self, L, g): self.h['out'] = []

    def next(self, L, g, env):
        ys = self.h['out']
        t = L.item
        prove(len(ys) == 1, 'one result per result')
        prove(all(a is b for a, b in zip(ys[0], t)) and len(ys[0]) == 3, 'the same folder, storages and streams')
        ctx().cover('deeper')
        return g

    def state(self, L, g):
        if L.cut is None:
            prove(len(self.h['out']) == self.h.get('mark', 0), 'nothing else comes before what is in the storages')
        return {}


class Sub(object):
    what = 'sub'

    def __init__(self, h, item): self.h, self.item = h, item
    def pv_lazy(self): return mk('list', n=self.h['subn'](self.item.k), f=lambda j: (object(), object(), object()))


class Members(LoopSpec):
    """top down: the storages of the folder are entered one by one"""
    name = 'storages'
    fn = '.walk'
    only_for = True

    def __init__(self, h): self.h = h
    def match(self, L, env): return isinstance(L.src, Coll)
    def iteration(self, L, g): self.h['inner'], self.h['mark'] = [], len(self.h['out'])

    def next(self, L, g, env):
        prove(self.h['out'] == [], 'nothing else comes after what is in it')
        prove(self.h['inner'] == [L.item], 'each storage is entered once')
        return g


class OneOf(LoopSpec):
    """each loop has the invariant of what it runs over"""
    name = 'walk'
    fn = None
    once = False
    only_for = True

    def __init__(self, *specs): self.specs = specs

    def match(self, L, env):
        for s in self.specs:
            if s.match(L, env):
                L.d = s
                return True
        return False
    def state(self, L, g): return L.d.state(L, g)
    def next(self, L, g, env): return L.d.next(L, g, env)
    def iteration(self, L, g): return L.d.iteration(L, g)


def walking(bottom):
    def body(P):
        from pydv import loops
        h = dict(dir=UF('is storage', 1, boolean=True), subn=UF('below', 1, 0, BIG), n=fresh_int('entries', 0, BIG), bottom=bottom, out=[], inner=[])
        class Listing(object):
            what = 'listing'
            def pv_lazy(self): return mk('list', n=h['n'], f=lambda k: Item(h, k))

        class Root(object):
            dir_id = 0
            def __init__(self): self.child_id = fresh_int('child', 1) if ctx().choose(2) else None
            def isdir(self): return True
        root = Root()
        asked = []

        def listdir(self, p=None):
            prove(p is root, 'the folder is listed')
            asked.append(p)
            return Listing()
        c = container(P, 4096, find=lambda self, p: p, listdir=listdir, walk=lambda self, p=None, topdown=True: (prove(topdown, 'in the same order'), Sub(h, p))[1])
        c.root = root
        loops.ACTIVE[:] = [[OneOf(Partition(h), Members(h), Deeper(h))]]
        ctx().cover('entry')
        arg = root if ctx().choose(2) else None
        for t in P.cfb.CompoundFileBinary.walk(c, arg, topdown=not bottom):
            h['out'].append(t)
        ctx().cover('end')
        if root.child_id is None:
            ctx().cover('empty')
            prove(h['out'] == [] and asked == [], 'an empty folder yields nothing')
            return
        ys = h['out']
        prove(len(ys) == 1 and len(asked) == 1, 'the folder itself comes once')
        prove(ys[0][0] is root, 'with its own entry')
        prove(ys[0][1] is h['storages'] and ys[0][2] is h['streams'], 'its storages and its streams')
        for w in ('storages', 'streams'):
            prove(h[w].upto == h['n'], 'all of them')
    return body



class Files(object):
    """the storages or the streams of one visited folder, any number of them"""

    def __init__(self, what): self.what, self.n, self.ran = what, fresh_int(what, 0, BIG), 0
    def pv_len(self): return self.n
    def __bool__(self): return bool(self.n > 0)

    def pv_lazy(self):
        t = 'storage' if self.what == 'storages' else 'stream'

        def at(k):
            e = Ent(None, (self.what, k), t, byte_size=fresh_int('size', 0), sector_id=fresh_int('first', 0), dir_id=fresh_int('id', 1))
            e.first, e.size = e.sector_id, e.byte_size
            return e
        return mk('list', n=self.n, f=at)


class Each(LoopSpec):
    """every member loses its record, and a stream its sectors, once"""

    def __init__(self, h): self.h = h
    def match(self, L, env): return isinstance(L.src, Files)

    def iteration(self, L, g):
        L.src.ran += 1
        del self.h['log'][:]

    def state(self, L, g):
        if L.cut is None:
            prove(self.h['log'] == [], 'nothing else changes')
        return {}

    def next(self, L, g, env):
        log, e = self.h['log'], L.item
        recs = [x for x in log if x[0] == 'entry']
        secs = [x for x in log if x[0] == 'free']
        prove(len(recs) == 1 and recs[0][1] is e, 'the record is free, once')
        prove(len(log) == len(recs) + len(secs), 'and nothing else')
        if L.src.what == 'storages':
            prove(secs == [], 'a storage has no sectors')
            ctx().cover('storages')
        else:
            ctx().cover('streams')
            prove(len(secs) == 1 and secs[0][1] is e.first, 'the sectors of the stream are free, once')
            prove(iff(bool(secs[0][2]), e.size < 4096), 'in the table they belong to')
        return g


class Folders(LoopSpec):
    """every folder is emptied; the target is the last of them"""

    def __init__(self, h): self.h = h
    def match(self, L, env): return isinstance(L.src, Visits)
    def iteration(self, L, g): del self.h['log'][:]

    def state(self, L, g):
        h = self.h
        done = L.idx == h['n']
        t = h['target']
        if L.cut is None:
            v = None if bool(done) else t.child_id
            return {(t, 'child_id'): Val(v, lambda cur: implies(done, cur is None))}
        return {(t, 'child_id'): Val(None, lambda cur: implies(done, cur is None))}

    def next(self, L, g, env):
        r, ds, fs = L.item
        prove(r.child_id is None, 'the folder has no entries left')
        prove(ds.ran == 1 and fs.ran == 1, 'its storages and its streams were freed, each once')
        prove(self.h['log'] == [], 'nothing else changes')
        ctx().cover('folder')
        return g


class Visits(object):
    """contract of walk(topdown=False): the folders below the target, then the target"""

    def __init__(self, h): self.h = h

    def pv_lazy(self):
        h = self.h

        def at(k):
            r = h['target'] if bool(k == h['n'] - 1) else Ent(None, ('folder', k), 'storage', child_id=fresh_int('child', 1))
            return (r, Files('storages'), Files('streams'))
        return mk('list', n=h['n'], f=at)


def rmtreeing(P):
    from pydv import loops
    log = []
    h = dict(log=log, n=fresh_int('folders', 0, BIG))
    has = ctx().choose(2)
    t = h['target'] = Ent(log, 'target', 'storage', child_id=fresh_int('child', 1) if has else None)
    # an empty folder is not visited, any other is visited last
    assume(h['n'] >= 1 if has else h['n'] == 0)
    path, asked, gone = '/x', [], []

    def walk(self, p=None, topdown=True):
        prove((p is path or p is t) and topdown is False, 'bottom up from the target')
        asked.append(p)
        return Visits(h)

    def remove(self, p):
        prove((p is path or p is t) and t.child_id is None, 'the target has no entries left when it is removed')
        gone.append(p)

    def free(self, x):
        x.dir_id = None
        log.append(('entry', x))
    c = container(P, 4096, find=lambda self, p: t, walk=walk, remove=remove,
                  free_fat_chain=lambda self, s, m=False: log.append(('free', s, m)), free_dir_entry=free)
    loops.ACTIVE[:] = [[OneOf(Folders(h), Each(h))]]
    ctx().cover('entry')
    c.rmtree(path)
    ctx().cover('removed')
    prove(len(gone) == 1, 'the target is removed')
    prove(log == [], 'and nothing else')
    prove(len(asked) == 1 or not has, 'everything below it was visited')


def gen(rng, i):
    from specs import cfbhist as H
    ss = rng.choice([512, 4096])
    n = rng.choice([3, 6, 10, 25])
    nm = H.names(rng, n)
    dirs = ['']
    ops = []
    for k in range(rng.choice([0, 1, 2, 4])):
        d = rng.choice(dirs) + '/' + rng.choice(nm)
        if d not in dirs:
            dirs.append(d)
            ops.append(['makedir', d])
    deep = dirs[-1] + '/' + '/'.join(rng.choice(nm) for _ in range(3))
    ops.append(['makedirs', deep]) if rng.random() < .4 else None

    def p(): return rng.choice(dirs) + '/' + rng.choice(nm)
    weights = rng.choice([(5, 1), (3, 3), (2, 3)])
    for k in range(rng.choice([10, 30, 60, 120])):
        x = rng.random()
        if x < .1 * weights[0]:
            ops.append(rng.choice([['touch', p()], ['touch', p()], ['write', p(), rng.choice([0, 10, 100, 5000]), rng.randrange(1 << 20)], ['makedir', p()]]))
        elif x < .1 * weights[0] + .08 * weights[1]:
            ops.append(['remove', p()])
        elif x < .84 and x > .83:
            ops.append(['case', p(), rng.choice(dirs)])
        elif x < .85:
            a = p()
            ops.append(['move', a, rng.choice([p(), rng.choice(dirs) + '/' + rng.choice(nm), a + '/' + rng.choice(nm)])] if rng.random() < .8 else ['move', a, rng.choice(dirs) or '/', True])
        elif x < .88:
            ops.append(['rmtree', p()])
        elif x < .9:
            ops.append(['makedirs', p() + '/' + rng.choice(nm)])
        elif x < .92:
            ops.append(['open', p(), rng.choice(['r', 'w', 'rw'])])
        elif x < .93:
            ops.append(['remove', '/'])
        elif x < .97:
            ops.append(['evict'])
        else:
            ops.append(['reopen'])
    return dict(ss=ss, ops=ops)


def gen_tree(rng, i):
    """one folder with many entries"""
    from specs import cfbhist as H
    n = rng.choice([8, 15, 30, 60, 120])
    nm = ['/' + x for x in H.names(rng, n)]
    how = rng.choice(['random', 'up', 'down', 'zigzag'])
    if how != 'random':
        nm.sort(key=lambda s: (len(s), s.upper()))
        if how == 'down':
            nm.reverse()
        elif how == 'zigzag':
            nm = [nm[k // 2] if k % 2 == 0 else nm[-1 - k // 2] for k in range(n)]
    ops, have = [], []
    for x in nm:
        ops.append(['touch', x])
        have.append(x)
        while have and rng.random() < .3:
            ops.append(['remove', have.pop(rng.randrange(len(have)))])
        if rng.random() < .03:
            ops.append(['reopen'])
        if rng.random() < .03:
            ops.append(['evict'])
    rng.shuffle(have)
    for x in have:
        ops.append(['remove', x])
    return dict(ss=rng.choice([512, 4096]), ops=ops, light=True)


def shrink(inp):
    for o in drop_chunks(inp['ops']):
        yield dict(inp, ops=o)


def check(inp):
    plain()
    from specs import cfbhist as H
    box = H.Box(inp['ss'])
    light = inp.get('light')
    k = [0]

    def each(b, op):
        k[0] += 1
        if light and k[0] % 8 and op[0] not in ('reopen', 'evict'):
            if op[0] in ('touch', 'remove'):
                b.check_order()
            return
        b.check_names()
        b.check_order()
    try:
        H.run_ops(box, inp['ops'], each)
        H.run_ops(box, [['reopen']], each)
        box.check_streams()
    except H.Wrong as e:
        return str(e)
    return None


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check, 400, 30000, tlimit=60, shrink=shrink)


def run_tree(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_tree, check, 400, 30000, tlimit=60, shrink=shrink)


# exhaustive: every insertion order of n names, then every single removal
class FakeStore(object):
    """the part of the container that DirEntry.insert and pop use"""
    sector_size, dir_sector_count, mode = 4096, 100, 'wb+'

    def __init__(self, cfb):
        self.d, self.modified, self.children_cache, self.dir_cache = {}, {}, {}, {}
        self.cfb = cfb

    def read_dir_entry(self, i, parent=None):
        if i is None:
            return None
        e = self.d[i]
        if e.parent is None and parent is not None:
            e.parent = parent
        return e

    def write_modified_dir_entries(self): self.modified.clear()

    def new(self, name):
        e = self.cfb.DirEntry(self, len(self.d) + 1)
        e.name, e.type = name, 'stream'
        self.d[e.dir_id] = e
        return e


def tree_of(cfb, perm):
    st = FakeStore(cfb)
    root = cfb.DirEntry(st, 0)
    root.name, root.type = 'Root Entry', 'root storage'
    st.d[0] = root
    for x in perm:
        root.add_child(st.new(x))
    return st, root


def tree_bad(root, want):
    """None, or what is wrong with the sibling tree"""
    out, seen = [], set()

    def visit(e, up):
        if e is None:
            return
        if id(e) in seen:
            raise ValueError('entry %r twice' % e.name)
        seen.add(id(e))
        visit(e.left(), e)
        out.append(e.name)
        visit(e.right(), e)
    try:
        visit(root.child(), None)
    except ValueError as e:
        return str(e)
    w = sorted(want, key=lambda s: (len(s), s.upper()))
    if out != w:
        return 'in order the siblings are %s instead of %s' % (out, w)
    return colors_bad(root.child())


def colors_bad(top):
    """None, or why the tree is no red-black tree"""
    def black(e):
        if e is None:
            return 0
        l, r = e.left(), e.right()
        for c in (l, r):
            if c is not None and e.color == 'red' and c.color == 'red':
                raise ValueError('%r is red below the red entry %r' % (c.name, e.name))
        a, b = black(l), black(r)
        if a != b:
            raise ValueError('there are %d black entries on the left of %r and %d on the right' % (a, e.name, b))
        return a + (e.color == 'black')
    try:
        if top is not None and top.color != 'black':
            raise ValueError('%r, the first of its siblings, is red' % top.name)
        black(top)
    except ValueError as e:
        return str(e)
    return None


def run_perms(rng, budget, tier, shard):
    import itertools
    import time
    plain()
    from aaf2 import cfb
    end = time.time() + budget
    n = 8 if tier == 'quick' else 9
    names = ['c', 'E', 'aa', 'Bb', 'dd', 'CCC', 'abcd', 'ABCDE', 'zz'][:n]
    evals, viols, k = 0, [], 0
    for perm in itertools.permutations(names):
        k += 1
        if k % 8 != shard % 8:
            continue
        if time.time() > end:
            break
        inp = dict(perm=list(perm))
        # insertion order is covered in full, the removed entry rotates
        inp['out'] = [perm[(k // 8) % n], perm[(k // 8 + 3) % n], perm[(k // 8 + 5) % n]]
        r = guarded(check_perm, inp)
        evals += 1
        if r:
            viols.append(dict(what=r, input=inp))
            break
    return dict(evaluations=evals, distinct=evals, samples=[str(names)], violations=viols)


def check_perm(inp):
    plain()
    from aaf2 import cfb
    st, root = tree_of(cfb, inp['perm'])
    left = list(inp['perm'])
    bad = tree_bad(root, left)
    for x in inp.get('out', []):
        if bad:
            return bad + ' after %s' % inp
        e = [y for y in st.d.values() if y.name == x][0]
        e.pop()
        left.remove(x)
        bad = tree_bad(root, left)
    return bad + ' after %s' % inp if bad else None


def run_pops(rng, budget, tier, shard):
    """random larger trees, removals until empty, on entries in memory"""
    def g(rng, i):
        n = rng.choice([5, 10, 20, 40])
        perm = ['%s' % chr(97 + k % 26) * (1 + k // 26) for k in range(n)]
        rng.shuffle(perm)
        out = list(perm)
        rng.shuffle(out)
        return dict(perm=perm, out=out)
    return drive(rng, budget, tier, g, check_perm, 100000, 10000000, tlimit=30)


def rep(m, name):
    import itertools
    for perm in itertools.permutations(['c', 'E', 'aa', 'Bb', 'dd', 'CCC'], 6):
        inp = dict(perm=list(perm))
        r = guarded(check_perm, inp)
        if r:
            return r
    rng = random.Random(4)
    for i in range(300):
        n = rng.choice([10, 20, 40])
        perm = ['%s' % chr(97 + k % 26) * (1 + k // 26) for k in range(n)]
        rng.shuffle(perm)
        inp = dict(perm=perm, out=rng.sample(perm, n))
        r = guarded(check_perm, inp)
        if r:
            return r
    for i in range(60):
        inp = gen(rng, i)
        r = guarded(check, inp, 30)
        if r:
            return '%s on %s' % (r, str(inp)[:600])
    return None


F = 'cfb.CompoundFileBinary.'
UNITS = [Unit('insert, phase ' + x, rbtree.insert(x), ['cfb.DirEntry.insert', 'cfb.jsw_single', 'cfb.jsw_double', 'cfb.is_red', 'cfb.is_parent_of'], rep,
              covers=['entry', 'phase ' + x] + (['inserted'] if x[0] == 'N' else []) + (['after a double rotation'] if x == 'N2' else []))
         for x in rbtree.PHASES if x != 'N3']
UNITS += [Unit('insert, phase N3 %d' % k, rbtree.insert('N3', k), ['cfb.DirEntry.insert'], rep,
               covers=['entry', 'phase N3', 'inserted'] + (['after a double rotation'] if k in (1, 2) else [])) for k in range(4)]
UNITS += [Unit('order of entries', order, ['cfb.DirEntry.__lt__', 'cfb.DirEntry.__gt__', 'cfb.DirEntry.__le__', 'cfb.DirEntry.__ge__', 'cfb.DirEntry.__eq__'], rep, covers=['entry']),
          Unit('single rotation', rotation(False), ['cfb.jsw_single'], rep, covers=['entry']),
          Unit('double rotation', rotation(True), ['cfb.jsw_double', 'cfb.jsw_single'], rep, covers=['entry']),
          Unit('listdir_dict 512', listing(512), [F + 'listdir_dict'], rep, covers=['entry', 'visited', 'done', 'empty']),
          Unit('listdir_dict 4096', listing(4096), [F + 'listdir_dict'], rep, covers=['entry', 'visited', 'done', 'empty']),
          Unit('find', finding, [F + 'find'], rep, covers=['entry', 'found', 'missing']),
          Unit('create_dir_entry', creating, [F + 'create_dir_entry'], rep, covers=['entry', 'refused', 'created']),
          Unit('remove', removing, [F + 'remove'], rep, covers=['entry', 'refused', 'removed', 'stream']),
          Unit('move', moving, [F + 'move'], rep, covers=['entry', 'refused', 'moved', 'forbidden']),
          Unit('open', opening, [F + 'open'], rep, covers=['entry', 'refused', 'opened']),
          Unit('free_dir_entry', freeing, [F + 'free_dir_entry'], rep, covers=['entry']),
          Unit('walk bottom up', walking(True), [F + 'walk'], rep, covers=['entry', 'empty', 'entries', 'deeper', 'end']),
          Unit('walk top down', walking(False), [F + 'walk'], rep, covers=['entry', 'empty', 'entries', 'deeper', 'end']),
          Unit('rmtree', rmtreeing, [F + 'rmtree'], rep, covers=['entry', 'folder', 'streams', 'storages', 'removed']),
          Unit('add_child', adding, ['cfb.DirEntry.add_child'], rep, covers=['entry'])]
BOUNDED = [Bounded('histories', run, 'up to 130 namespace operations (create, remove, move, rename, recursive removal, legal and forbidden) over up to 25 names and 5 storages, '
                   'entries cached, evicted or reopened; names, types, listing, walking and order after every one', ['cfb.CompoundFileBinary', 'cfb.DirEntry'], check, shards=3, budget=14),
           Bounded('large folders', run_tree, 'up to 120 siblings inserted in random, rising, falling or zigzag order with removals between and after', ['cfb.DirEntry.insert', 'cfb.DirEntry.pop'],
                   check, shards=1, budget=14),
           Bounded('insertion orders', run_perms, 'all 40320 insertion orders of 8 names (thorough: 9 names), 3 removals each', ['cfb.DirEntry.insert', 'cfb.DirEntry.pop'], check_perm, shards=8, budget=14),
           Bounded('removals', run_pops, 'random trees of 5 to 40 entries emptied in random order', ['cfb.DirEntry.pop'], check_perm, shards=2, budget=10)]
ASSUMPTIONS = ['Python orders strings totally (upper case names are modelled by their place in that order)',
               'the sibling trees given to insert are the red-black trees this library builds (no red entry below a red one, black root); foreign colorings are only exercised bounded',
               'every entry has a directory record: entries of a folder + 2 <= records of the directory sectors (P06)',
               'reading a record gives the one cached entry object of that id (dir_cache)',
               'DirEntry.pop, rmtree, walk and touch: bounded only']
LEVEL = 'proof'
