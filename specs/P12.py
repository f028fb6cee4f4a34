"""P12: object properties persist exactly across save and reopen.

Deductive part (any number of properties, any values):
  write_properties  the 'properties' stream is  4c ver n | n x (pid format size) | values in order,
                    then the stream is cut and every index is written
  read_properties   reads exactly that layout: one property per record, with the class of its format and its own bytes
  Property.value    set stores the encoding under its own id and marks the object modified; None removes; get decodes
  object access     get/[]/del/in/keys find the property with that name and no other
  manager           every modified object is written, once, and found again by its path
Bounded: sessions over real files against a model."""
import random
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec, Val, At
from pydv.seq import mk, seqof, val_eq
from pydv.libs import PvDict
from pydv.runner import Unit, Bounded, Lemma, plain
from specs.aafsym import Blob, Buf, Content, Rd, Out, flat, le
from specs.common import drive, drop_chunks, guarded

U16 = 0xFFFF


# ---------------------------------------------------------------- write_properties
class Entries(object):
    """the properties of an object: any number, in order"""

    def __init__(self, P, kinds=False):
        self.n = fresh_int('properties', 0, U16)
        self.pid, self.fmt = UF('pid', 1, 0, U16), UF('format', 1, 0, U16)
        self.size = UF('size', 1, 0, U16)
        # prefix sums of the sizes
        self.sum = UF('sum', 1, 0)
        assume(self.sum(0) == 0)
        self.P, self.kinds, self.indexed = P, kinds, []

    def pv_len(self): return self.n

    def item(self, k):
        E = self

        class Prop(object):
            def write_index(self): E.indexed.append(k)
        o = Prop()
        if self.kinds:
            p = self.P.properties
            names = (None, 'StrongRefSetProperty', 'StrongRefVectorProperty', 'WeakRefVectorProperty', 'WeakRefSetProperty', 'WeakRefProperty',
                     'StrongRefProperty', 'StreamProperty')
            nm = names[ctx().choose(len(names))]
            base = getattr(p, nm) if nm else p.Property
            C = type('C', (base,), dict(pid=0, format=0, data=0, write_index=Prop.write_index))
            o = C.__new__(C)
            o.needs = nm in ('StrongRefSetProperty', 'StrongRefVectorProperty', 'WeakRefVectorProperty', 'WeakRefSetProperty')
            return o
        o.pid, o.format, o.data = self.pid(k), self.fmt(k), Blob(k, self.size(k))
        return o

    def values(self): return Lazy(self)


class Lazy(object):
    def __init__(self, E): self.E = E
    def pv_lazy(self): return mk('list', n=self.E.n, f=lambda k: self.E.item(k))


class WHead(LoopSpec):
    name = 'records'
    fn = 'write_properties'

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None and 'f' in env and isinstance(env['f'], Buf)
    def state(self, L, g): return {(self.h['f'], 'pos'): 4 + 6 * L.idx}
    def iteration(self, L, g): self.at, self.lg = L.idx, len(self.h['f'].log)

    def next(self, L, g, env):
        E, k = self.h['E'], self.at
        start, raw = flat(self.h['f'].log[self.lg:])
        prove(start == 4 + 6 * k, 'record: in its place')
        want = le(E.pid(k), 2) + le(E.fmt(k), 2) + le(E.size(k), 2)
        prove(len(raw) == 6, 'record: six bytes')
        prove(and_(*[val_eq(a, b) for a, b in zip(raw, want)]), 'record: id, format, size')
        ctx().cover('record')
        return g


class WData(WHead):
    name = 'values'

    def state(self, L, g): return {(self.h['f'], 'pos'): 4 + 6 * self.h['E'].n + self.h['E'].sum(L.idx)}

    def next(self, L, g, env):
        E, k = self.h['E'], self.at
        log = self.h['f'].log[self.lg:]
        prove(len(log) == 1 and isinstance(log[0][1], Blob), 'value: one write')
        prove(log[0][1].tag == k, 'value: of that property')
        assume(E.sum(k + 1) == E.sum(k) + E.size(k))
        ctx().cover('value')
        return g


class WIndex(LoopSpec):
    name = 'indexes'
    fn = 'write_properties'

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None

    def iteration(self, L, g):
        E = self.h['E']
        E.kinds, self.at = True, L.idx
        del E.indexed[:]
        self.kinds_before = len(ctx().cons) if hasattr(ctx(), 'cons') else 0

    def next(self, L, g, env):
        E = self.h['E']
        p = env['p']
        prove(len(E.indexed) == (1 if p.needs else 0), 'collections write their index, nothing else does')
        ctx().cover('index' if p.needs else 'no index')
        return g


def writing(P):
    from pydv import loops
    h = dict(E=Entries(P), log=[])

    def mkbuf():
        h['f'] = Buf()
        return h['f']

    class D(object):
        def touch(self, name):
            prove(name == 'properties', 'the stream of the properties')
            return self

        def open(self, mode='r'):
            prove(mode in ('rw', 'w'), 'opened for writing')
            h['log'].append('open')
            return Out(h['log'])
    checked = []
    C = type('C', (P.core.AAFObject,), dict(validate=lambda self: checked.append(len(h['log']))))
    o = C.__new__(C)
    o.dir, o.property_entries = D(), h['E']
    real = P.core.BytesIO
    P.core.BytesIO = mkbuf
    loops.ACTIVE[:] = [[WHead(h), WData(h), WIndex(h)]]
    ctx().cover('entry')
    try:
        o.write_properties()
    finally:
        P.core.BytesIO = real
    ctx().cover('done')
    prove(checked == [0], 'validated before anything is written')
    start, raw = flat(h['f'].log[:3])
    n = h['E'].n
    prove(start == 0 and len(raw) == 4, 'four bytes of head')
    prove(and_(*[val_eq(a, b) for a, b in zip(raw, [0x4c, 0x20] + le(n, 2))]), 'byte order mark, version, count')
    prove(h['f'].pos == 4 + 6 * n + h['E'].sum(n), 'head, records and all values')
    # (cutting the stream behind it is not needed: what follows the last value is never read)
    prove([x if isinstance(x, str) else x[0] for x in h['log']][:2] == ['open', 'write'], 'written at the start')
    prove(h['log'][1][1] == ('written', h['f']), 'all of it')
    prove(all(x[0] == 'truncate' and x[1] is None for x in h['log'][2:]), 'at most cut at its end')


# ---------------------------------------------------------------- read_properties
class RRec(LoopSpec):
    name = 'records'
    fn = 'read_properties'

    def __init__(self, h): self.h = h
    def match(self, L, env): return 'props' in env and L.lazy is not None

    def state(self, L, g):
        return {(self.h['f'], 'pos'): 4 + 6 * self.h['n'] + self.h['sum'](L.idx)}

    def iteration(self, L, g): self.at, self.made = L.idx, len(self.h['made'])

    def next(self, L, g, env):
        h, k = self.h, self.at
        new = h['made'][self.made:]
        c = h['c']
        prove(len(new) == 1, 'one property per record')
        fmt, par, pid, f2, ver, p = new[0]
        prove(and_(pid == c.le(4 + 6 * k, 2), fmt == c.le(6 + 6 * k, 2), f2 == c.le(6 + 6 * k, 2)), 'its id and format')
        prove(par is h['o'] and ver == c.f(1), 'its owner and version')
        prove(h['stored'][-1][0] == pid and h['stored'][-1][1] is p, 'found under its id')
        d = seqof(p.data)
        size = c.le(8 + 6 * k, 2)
        prove(d.length() == size, 'its size')
        j = fresh_int('j', 0)
        assume(j < size)
        prove(d.at(j) == c.f(4 + 6 * h['n'] + h['sum'](k) + j), 'its own bytes')
        assume(h['sum'](k + 1) == h['sum'](k) + size)
        ctx().cover('record')
        return g


class RDec(LoopSpec):
    name = 'decode'
    fn = 'read_properties'

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None
    def iteration(self, L, g): del self.h['calls'][:]

    def next(self, L, g, env):
        p = env['p']
        prove(self.h['calls'] == (['decode', 'index'] if p.needs else ['decode']), 'decoded once, collections read their index after that')
        ctx().cover('index' if p.needs else 'no index')
        return g


def reading(P):
    from pydv import loops
    h = dict(c=Content(), sum=UF('sum', 1, 0), made=[], stored=[], calls=[])
    c = h['c']
    assume(h['sum'](0) == 0)
    h['n'] = c.le(2, 2)

    def mkbuf(d):
        prove(d == 'all', 'the whole stream')
        h['f'] = Rd(c)
        return h['f']

    class S(object):
        def open(self, mode='r'): return self
        def read(self, n=-1): return 'all'

    class D(object):
        def get(self, name, default=None):
            prove(name == 'properties', 'the stream of the properties')
            return S()

    class Formats(object):
        def __getitem__(self, fmt):
            def make(parent, pid, f2, ver):
                class O(object): pass
                o = O()
                h['made'].append((fmt, parent, pid, f2, ver, o))
                return o
            return make
    names = (None, 'StrongRefSetProperty', 'StrongRefVectorProperty', 'WeakRefVectorProperty', 'WeakRefSetProperty', 'WeakRefProperty', 'StrongRefProperty', 'StreamProperty')

    def some():
        nm = names[ctx().choose(len(names))]
        base = getattr(P.properties, nm) if nm else P.properties.Property
        C = type('C', (base,), dict(decode=lambda self: h['calls'].append('decode'), read_index=lambda self: h['calls'].append('index')))
        p = C.__new__(C)
        p.needs = nm in names[1:5]
        return p

    class Store(object):
        def __setitem__(self, k, v): h['stored'].append((k, v))
        def values(self):
            m = fresh_int('stored', 0)
            return type('V', (), dict(pv_lazy=lambda s: mk('list', n=m, f=lambda k: some())))()
    o = P.core.AAFObject.__new__(P.core.AAFObject)
    h['o'] = o
    o.dir, o.property_entries = D(), Store()
    real, rf = P.core.BytesIO, P.core.property_formats
    P.core.BytesIO, P.core.property_formats = mkbuf, Formats()
    loops.ACTIVE[:] = [[RRec(h), RDec(h)]]
    ctx().cover('entry')
    try:
        try:
            o.read_properties()
        except NotImplementedError:
            prove(c.f(0) != 0x4c, 'only big endian streams are refused')
            ctx().cover('refused')
            return
    finally:
        P.core.BytesIO, P.core.property_formats = real, rf
    ctx().cover('done')
    prove(c.f(0) == 0x4c, 'byte order')

    class No(object):
        def get(self, name, default=None): return default
    o2 = P.core.AAFObject.__new__(P.core.AAFObject)
    o2.dir = No()
    o2.read_properties()
    prove(len(o2.property_entries) == 0, 'no stream, no properties')


# ---------------------------------------------------------------- Property.value
class Owner(object):
    def __init__(self, P, attached, mode):
        self.log = []
        own = self

        class M(object):
            def add_modified(self, o): own.log.append(o)

        class R(object):
            manager = M()
        self.root = R()
        self.root.mode = mode
        self.dir = object() if attached else None
        self.property_entries = PvDict()


class TD(object):
    def encode(self, v): return ('encoded', v)
    def decode(self, d): return ('decoded', d)


def setting(P):
    attached, mode = bool(ctx().choose(2)), ('wb+', 'rb+', 'rb')[ctx().choose(3)]
    own = Owner(P, attached, mode)
    C = type('C', (P.properties.Property,), dict(typedef=TD(), unique=False, __slots__=()))
    pid, other = fresh_int('pid', 0, U16), fresh_int('other', 0, U16)
    assume(pid != other)
    p = C(own, pid, 0x82)
    q = object()
    own.property_entries[other] = q
    present, before = ctx().choose(3), ctx().choose(3)
    v = object() if ctx().choose(2) else None
    # the property may hold something from earlier, also when it is not (or no longer) part of the object
    p.data = old = 'old' if before == 1 else ('encoded', v) if before == 2 else 'old' if present == 1 else None
    if present == 1:
        own.property_entries[pid] = p
    elif present == 2:
        # another Property of the same id was given its value after p was obtained
        twin = C(own, pid, 0x82)
        twin.data = 'twin'
        own.property_entries[pid] = twin
    present = bool(present)
    ctx().cover('entry')
    err = False
    try:
        p.value = v
    except P.exceptions.AAFPropertyError:
        err = True
    prove(err == (mode == 'rb'), 'refused exactly when the file is read only')
    prove(own.property_entries[other] is q, 'other properties stay')
    if err:
        ctx().cover('refused')
        prove(own.log == [] and p.data == old and (pid in own.property_entries) == present, 'and nothing changed')
        return
    prove(own.log == ([own] if attached else []), 'an attached object is marked as modified')
    if v is None:
        ctx().cover('removed')
        prove(not (pid in own.property_entries) and len(own.property_entries) == 1, 'the property is gone')
    else:
        ctx().cover('set')
        prove(own.property_entries[pid] is p and len(own.property_entries) == 2, 'stored under its own id')
        prove(p.data == ('encoded', v), 'the encoding of the value')
        prove(p.value == ('decoded', ('encoded', v)), 'reading decodes it')


# ---------------------------------------------------------------- object access
class Named(object):
    """properties of an object by position; their names are tokens"""

    def __init__(self):
        self.n, self.name, self.pid = fresh_int('n', 0, U16), UF('name', 1, 0), UF('pid', 1, 0, U16)
        self.deleted = []

    def item(self, k):
        class Pr(object): pass
        o = Pr()
        o.name, o.k, o.pid = self.name(k), k, self.pid(k)
        return o

    def items(self):
        return type('V', (), dict(pv_lazy=lambda s: mk('list', n=self.n, f=lambda k: (self.pid(k), self.item(k)))))()

    def __delitem__(self, pid): self.deleted.append(pid)


class Scan(LoopSpec):
    """none so far has the name"""
    name = 'scan'
    fn = 'properties'

    def __init__(self, E, key, J): self.E, self.key, self.J = E, key, J
    def match(self, L, env): return L.lazy is not None
    def constraint(self, L, g): return [implies(self.J < L.idx, self.E.name(self.J) != self.key)]


class DefScan(LoopSpec):
    name = 'definitions'
    fn = '.get'

    def __init__(self, h, key, J): self.h, self.key, self.J = h, key, J
    def match(self, L, env): return L.lazy is not None and 'classdef' in env
    def constraint(self, L, g): return [implies(self.J < L.idx, self.h['dn'](self.J) != self.key)]


def access(how):
    def body(P):
        from pydv import loops
        E = Named()
        key = fresh_int('key', 0)
        J, K = fresh_int('J', 0), fresh_int('K', 0)
        log = []
        h = dict(dn=UF('def name', 1, 0), dp=UF('def pid', 1, 0, U16), df=UF('store format', 1, 0, U16), m=fresh_int('definitions', 0, U16))
        OP = P.core.OPERATIONGROUP_PARAMETERS_AUID
        special = bool(ctx().choose(2))

        class PD(object):
            def __init__(self, k):
                self.property_name, self.pid, self.store_format, self.k = h['dn'](k), h['dp'](k), h['df'](k), k
                self.auid = OP if special else P.auid.AUID(int=1)

        class CD(object):
            def all_propertydefs(self):
                return type('V', (), dict(pv_lazy=lambda s: mk('list', n=h['m'], f=lambda k: PD(k))))()

        class M(object):
            def add_modified(self, o): log.append(o)

        class R(object):
            manager = M()

        class Formats(object):
            def __getitem__(self, fmt):
                return lambda parent, pid, f2: ('new', fmt, parent, pid, f2)
        C = type('C', (P.core.AAFObject,), dict(classdef=CD()))
        o = C.__new__(C)
        o.root, o.dir, o.property_entries = R(), (object() if ctx().choose(2) else None), E
        rf = P.core.property_formats
        P.core.property_formats = Formats()
        loops.ACTIVE[:] = [[Scan(E, key, J), DefScan(h, key, K)]]
        ctx().cover('entry')
        r = miss = None
        try:
            if how == 'get':
                r = o[key] if ctx().choose(2) else o.get(key, None)
            elif how == 'only':
                r = o.get(key, None, allkeys=False)
            elif how == 'in':
                r = key in o if False else o.__contains__(key)
            elif how == 'del':
                del o[key]
        except KeyError:
            miss = True
        finally:
            P.core.property_formats = rf
        if how in ('in', 'del'):
            if how == 'in' and not r or miss:
                ctx().cover('missing')
                prove(implies(J < E.n, E.name(J) != key), 'missing only when no property has the name')
                prove(E.deleted == [] and log == [], 'nothing changed')
            elif how == 'in':
                ctx().cover('found')
                prove(True, 'present')
            else:
                ctx().cover('found')
                prove(len(E.deleted) == 1, 'one property is deleted')
                prove(log == ([o] if o.dir else []), 'an attached object is marked as modified')
            return
        if r is None:
            ctx().cover('missing')
            prove(implies(J < E.n, E.name(J) != key), 'missing only when no property has the name')
            if how == 'get':
                prove(implies(K < h['m'], h['dn'](K) != key), 'and none is defined by that name')
        elif isinstance(r, tuple):
            ctx().cover('new')
            prove(how == 'get', 'new properties only on demand')
            prove(implies(J < E.n, E.name(J) != key), 'new only when no property has the name')
            w = fresh_int('w', 0)
            prove(r[2] is o, 'a property of this object')
            fmt = r[1]
            prove(val_eq(fmt, r[4]), 'with the class of its format')
            if special:
                prove(fmt == P.properties.SF_STRONG_OBJECT_REFERENCE_SET, 'the parameters of an operation are a set')
        else:
            ctx().cover('found')
            prove(r.name == key, 'a property of that name')
    return body


def deleting(P):
    """del removes the id of the property found"""
    log = []
    pid, other = fresh_int('pid', 0, U16), fresh_int('other', 0, U16)
    assume(pid != other)

    class Pr(object): pass
    a, b = Pr(), Pr()
    a.pid, b.pid = pid, other
    C = type('C', (P.core.AAFObject,), dict(get=lambda self, key, default=None, allkeys=True: a))

    class M(object):
        def add_modified(self, o): log.append(o)

    class R(object):
        manager = M()
    o = C.__new__(C)
    o.root, o.dir = R(), (object() if ctx().choose(2) else None)
    o.property_entries = PvDict()
    o.property_entries[pid] = a
    o.property_entries[other] = b
    ctx().cover('entry')
    del o['name']
    prove(len(o.property_entries) == 1 and o.property_entries[other] is b, 'exactly that property is gone')
    prove(log == ([o] if o.dir else []), 'an attached object is marked as modified')


# ---------------------------------------------------------------- manager
class WObj(LoopSpec):
    name = 'objects'
    fn = 'write_objects'

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None and 'obj' not in L.env0

    def state(self, L, g):
        # every path written so far is remembered
        return {'written': Val(mk('list', n=L.idx, f=lambda k: k), lambda cur: self.same(L, cur))}

    def same(self, L, cur):
        c = seqof(cur)
        J = self.h['J']
        n = len(cur) if isinstance(cur, list) else c.length()
        ok = n == L.idx
        if isinstance(cur, list):
            return and_(ok, *[x == k for k, x in enumerate(cur)])
        return and_(ok, implies(and_(J >= 0, J < L.idx), val_eq(c.at(J), J)))

    def iteration(self, L, g):
        self.at = L.idx
        del self.h['calls'][:]

    def next(self, L, g, env):
        prove(len(self.h['calls']) == 1 and self.h['calls'][0] == self.at, 'that object is written, once')
        ctx().cover('written')
        return g


class WPop(LoopSpec):
    name = 'forget'
    fn = 'write_objects'

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None

    def iteration(self, L, g):
        self.at = L.idx
        del self.h['popped'][:]

    def next(self, L, g, env):
        prove(len(self.h['popped']) == 1 and self.h['popped'][0] == self.at, 'a written object is not modified any more')
        ctx().cover('forgotten')
        return g


def saving(P):
    from pydv import loops
    h = dict(calls=[], popped=[], J=fresh_int('J', 0))
    n = fresh_int('modified', 0)

    class Ob(object):
        def __init__(self, k): self.k = k
        def write_properties(self, validate=True): h['calls'].append(self.k)

    class Mod(object):
        def items(self): return type('V', (), dict(pv_lazy=lambda s: mk('list', n=n, f=lambda k: (k, Ob(k)))))()
        def pop(self, k, d=None): h['popped'].append(k)
    m = P.file.AAFObjectManager.__new__(P.file.AAFObjectManager)
    m.modified = Mod()
    loops.ACTIVE[:] = [[WObj(h), WPop(h)]]
    ctx().cover('entry')
    m.write_objects()
    ctx().cover('done')
    prove(True, 'done')


def managing(P):
    """add_modified, pop, read_object keep one object per path"""
    p1, p2 = fresh_int('path', 0), fresh_int('path', 0)
    assume(p1 != p2)
    made = []

    class E(P.cfb.DirEntry):
        __slots__ = ('p', 'cid')
        class_id = property(lambda s: s.cid)
        def path(self): return self.p

    def entry(p):
        e = E.__new__(E)
        e.p, e.cid = p, object()
        return e

    class Root(object):
        mode = 'rb+'

        class metadict(object):
            @staticmethod
            def lookup_class(cid): return K if ctx().choose(2) else P.core.AAFObject

    class K(P.core.AAFObject):
        def __init__(self): prove(False, 'objects read from a file are not initialised')
        def read_properties(self): made.append((self, self.dir))
    real = P.core.AAFObject.read_properties
    m = P.file.AAFObjectManager.__new__(P.file.AAFObjectManager)
    m.root, m.path_cache, m.lru_cache, m.modified = Root(), PvDict(), PvDict(), PvDict()
    e1, e2 = entry(p1), entry(p2)

    class Ob(object): pass
    a = Ob()
    a.dir = e1
    ctx().cover('entry')
    m.add_modified(a)
    prove(m.modified[p1] is a and m.path_cache[p1] is a and m.lru_cache[p1] is a and len(m.modified) == 1, 'held by its path until it is saved')
    prove(m.read_object(e1) is a, 'reading that path gives the same object')
    P.core.AAFObject.read_properties = lambda self: made.append((self, self.dir))
    try:
        b = m.read_object(e2)
    finally:
        P.core.AAFObject.read_properties = real
    prove(len(made) == 1 and made[0][0] is b and made[0][1] is e2, 'another path is read from its own folder')
    prove(b.dir is e2 and b.root is m.root, 'it knows where it is')
    prove(type(b) is K or b.class_id is e2.cid, 'an object of an unknown class keeps its class id')
    prove(m.read_object(e2) is b and m.path_cache[p2] is b and len(m.modified) == 1, 'and is found again, unmodified')
    r = m.pop(p1, None)
    prove(r is a and not (p1 in m.modified) and not (p1 in m.path_cache) and not (p1 in m.lru_cache), 'forgotten everywhere')
    prove(m.path_cache[p2] is b, 'others stay')
    m.root.mode = 'rb'
    bad = False
    try:
        m.add_modified(a)
    except ValueError:
        bad = True
    prove(bad and len(m.modified) == 0, 'nothing is modified in a read only file')


class KeyList(LoopSpec):
    """the names so far, in order"""
    name = 'names'
    fn = 'keys'

    def __init__(self, name): self.of = name
    def match(self, L, env): return L.lazy is not None and 'keys' in env
    def state(self, L, g): return {'keys': mk('list', n=L.idx, f=self.of)}


def naming(P):
    """keys and allkeys: one name per property, in order; getvalue by the contracts of those and of get"""
    from pydv import loops
    E = Named()
    dn, m = UF('def name', 1, 0), fresh_int('definitions', 0, U16)
    known = bool(ctx().choose(2))

    class PD(object):
        def __init__(self, k): self.property_name = dn(k)

    class CD(object):
        def all_propertydefs(self):
            return type('V', (), dict(pv_lazy=lambda s: mk('list', n=m, f=PD)))()
    C = type('C', (P.core.AAFObject,), dict(classdef=CD() if known else None))
    o = C.__new__(C)
    o.property_entries = E
    ctx().cover('entry')
    loops.ACTIVE[:] = [[KeyList(E.name)]]
    ks = o.keys()
    J = fresh_int('J', 0)
    s = seqof(ks)
    ctx().cover('keys')
    prove(s.length() == E.n, 'one name per property')
    prove(implies(J < E.n, s.at(J) == E.name(J)), 'that of the property')
    loops.ACTIVE[:] = [[KeyList(dn)]]
    al = o.allkeys()
    ctx().cover('allkeys')
    if not known:
        prove(len(al) == 0, 'nothing is known of an unknown class')
    else:
        s = seqof(al)
        prove(s.length() == m, 'one name per definition')
        prove(implies(J < m, s.at(J) == dn(J)), 'that of the definition')


def valued(P):
    has, defined = bool(ctx().choose(2)), bool(ctx().choose(2))
    key, default = 'key', object()
    # None and empty values are values
    value = [None, 0, 'v', False, []][ctx().choose(5)]

    class Pr(object):
        name = key
        def __init__(self, v): self.v, self.read = v, 0

        @property
        def value(self):
            self.read += 1
            return self.v
    prop = Pr(value)

    class C(P.core.AAFObject):
        __slots__ = ()
        def keys(self): return [key] if has else ['other']
        def __contains__(self, k): return has and k == key
        def properties(self): return iter([prop] if has else [])

        def get(self, k, d=None, allkeys=True):
            prove(k == key, 'that property is asked for')
            return prop if has else Pr(None) if defined and allkeys else d

        def __getitem__(self, k):
            if not has and not defined:
                raise KeyError(k)
            return self.get(k)
    o = C.__new__(C)
    ctx().cover('entry')
    r = o.getvalue(key, default)
    if has:
        ctx().cover('set')
        prove(r is value, 'the value of the property')
    else:
        ctx().cover('not set')
        prove(r is default and o.getvalue(key) is None, 'the default when it is not set')


# ---------------------------------------------------------------- concrete
def candidates(obj):
    """data properties of an object which may take any value of their type"""
    from specs.P11 import usable, model
    from aaf2 import properties
    out = []
    for p in obj.classdef.all_propertydefs():
        if p.unique or p.store_format != properties.SF_DATA:
            continue
        t = str(p.typedef.auid)
        if t in model()[0] and usable(t) and model()[0][t][0] not in ('sets', 'indirects', 'opaques'):
            out.append((p.property_name, t, p.optional, p.pid))
    return sorted(out)


DESC = ('CDCIDescriptor', 'PCMDescriptor', 'TIFFDescriptor', 'ImportDescriptor', 'TapeDescriptor', 'RGBADescriptor', 'WAVEDescriptor', 'FilmDescriptor', 'AES3PCMDescriptor')


def gen(rng, i):
    k = rng.choice([1, 2, 4])
    ops = []
    obj = [[m, w] for m in range(k) for w in ('mob', 'desc', 'slot', 'clip')] + [['file', w] for w in ('ident', 'content', 'essence')]
    hot = rng.sample(obj, min(len(obj), rng.choice([2, 5, 11])))
    for _ in range(rng.choice([6, 15, 40])):
        x = rng.random()
        o = rng.choice(hot)
        if x < .55:
            ops.append(['set', o, rng.randrange(1 << 16), rng.randrange(1 << 30)])
        elif x < .7:
            ops.append(['del', o, rng.randrange(1 << 16), rng.randrange(2)])
        elif x < .76:
            ops.append(['desc', rng.randrange(k), rng.choice(DESC), rng.randrange(1 << 30)])
        elif x < .82:
            ops.append(['stream', rng.choice([0, 1, 100, 4095, 4096, 5000, 40000]), rng.randrange(1 << 20), rng.choice(['w', 'rw'])])
        elif x < .88:
            ops.append(['save'])
        elif x < .92:
            ops.append(['forget'])
        elif x < .94:
            ops.append(['check'])
        else:
            ops.append(['reopen'])
    return dict(k=k, desc=[rng.choice(DESC) for _ in range(k)], ss=rng.choice([512, 4096]), ops=ops)


class Session(object):
    def __init__(self, files, inp):
        import aaf2
        from aaf2.mobid import MobID
        self.files, self.inp = files, inp
        self.f = files.open('a.aaf', 'wb+', sector_size=inp['ss'])
        self.model = {}
        self.ids = [MobID(int=1000 + m) for m in range(inp['k'])]
        self.blob = b''
        f = self.f
        for m in range(inp['k']):
            mob = f.create.SourceMob()
            mob.mob_id = self.ids[m]
            f.content.mobs.append(mob)
            mob.descriptor = f.create.from_name(inp['desc'][m])
            slot = mob.create_timeline_slot(25)
            slot['Segment'].value = f.create.SourceClip(media_kind='picture')
        e = f.create.EssenceData()
        e['MobID'].value = self.ids[0]
        f.content['EssenceData'].value = [e]
        e['Data'].open('w').write(b'first')
        self.blob = b'first'
        for o in self.objects():
            self.adopt(o)
        for m in range(inp['k']):
            self.fill((m, 'desc'), m)

    def adopt(self, o):
        obj = self.get(o)
        self.model[o] = {p.pid: bytes(p.data) for p in obj.property_entries.values()}

    def fill(self, o, seed):
        """required properties of an object"""
        obj = self.get(o)
        for name, t, opt, pid in candidates(obj):
            if not opt and pid not in obj.property_entries:
                self.put(o, name, t, pid, seed)
        from aaf2 import properties
        for p in obj.classdef.all_propertydefs():
            if not p.optional and p.pid not in obj.property_entries and p.store_format == properties.SF_DATA and p.property_name != 'ObjClass':
                self.bad = p.property_name
        return obj

    def objects(self):
        return [(m, w) for m in range(self.inp['k']) for w in ('mob', 'desc', 'slot', 'clip')] + [('file', w) for w in ('ident', 'content', 'essence')]

    def get(self, o):
        f = self.f
        if o[0] == 'file':
            if o[1] == 'ident':
                return f.header['IdentificationList'][0]
            if o[1] == 'content':
                return f.content
            return f.content.essencedata[self.ids[0]] if hasattr(f.content, 'essencedata') else None
        mob = f.content.mobs[self.ids[o[0]]]
        if o[1] == 'mob':
            return mob
        if o[1] == 'desc':
            return mob['EssenceDescription'].value
        if o[1] == 'slot':
            return mob['Slots'][0]
        return mob['Slots'][0]['Segment'].value

    def put(self, o, name, t, pid, seed):
        from specs.P11 import RandG, build
        rng = random.Random(seed)
        g = RandG(rng)
        if rng.random() < .08:
            g.n = rng.choice([2000, 8000, 16000, 32766])
        for _ in range(6):
            if _:
                g.n = None
            v, want, dec = build(g, t)
            if len(want) <= 65535:
                break
        else:
            return None
        obj = self.get(o)
        p = obj[name]
        if rng.random() < .4:
            # a second instance for a property that is not set yet
            obj[name].value = build(RandG(rng), t)[0]
        for k in range(rng.choice([1, 1, 2, 3])):
            # through one property object, also after it was removed
            if k:
                p.value = None
            p.value = v
        self.model[o][pid] = bytes(want)
        from specs.P11 import fix_tuples
        got = self.get(o)[name].value
        if fix_tuples(got) != fix_tuples(dec):
            return '%s.%s: %r reads back as %r' % (o, name, v, got)
        return None

    def check(self, what):
        for o in self.objects():
            obj = self.get(o)
            got = {p.pid: bytes(p.data) for p in obj.property_entries.values()}
            want = self.model[o]
            if set(got) != set(want):
                nm = {p.pid: p.property_name for p in obj.classdef.all_propertydefs()}
                return '%s: %s has properties %s too many, %s missing' % (what, o, [nm.get(x, x) for x in set(got) - set(want)], [nm.get(x, x) for x in set(want) - set(got)])
            for pid in want:
                if got[pid] != want[pid]:
                    return '%s: %s property %#x is %s instead of %s' % (what, o, pid, got[pid].hex()[:80], want[pid].hex()[:80])
            names = obj.keys()
            for p in obj.properties():
                if obj.get(p.name) is not p or p.name not in names or p.name not in obj:
                    return '%s: %s.%s is not found by its name' % (what, o, p.name)
            if len(names) != len(got) or len(set(names)) != len(names):
                return '%s: %s has the names %s of %d properties' % (what, o, names, len(got))
            every = obj.allkeys()
            for pid, t in [(p.pid, p.property_name) for p in obj.classdef.all_propertydefs()]:
                if t not in every:
                    return '%s: %s.%s is not among all names' % (what, o, t)
                if pid not in want and pid % 4 == len(want) % 4 and t not in names and obj.getvalue(t, self) is not self:
                    return '%s: %s.%s is not set and has the value %r' % (what, o, t, obj.getvalue(t, self))
            for p in list(obj.properties())[:12]:
                if type(p.value) in (int, str, list, dict) and obj.getvalue(p.name, self) != p.value:
                    return '%s: getvalue of %s.%s is %r, not %r' % (what, o, p.name, obj.getvalue(p.name, self), p.value)
        s = self.get(('file', 'essence'))
        got = b''
        if 'Data' in s:
            got = s['Data'].open('r').read()
        if got != self.blob:
            return '%s: the stream holds %d bytes instead of %d' % (what, len(got), len(self.blob))
        return None

    def reopen(self):
        self.f.close()
        self.f = self.files.open('a.aaf', 'rb+', sector_size=self.inp['ss'])


def check(inp):
    plain()
    from specs.common import AafFiles
    with AafFiles() as files:
        return run_case(files, inp)


def run_case(files, inp):
    S = Session(files, inp)
    for op in inp['ops'] + [['reopen'], ['check']]:
        k = op[0]
        r = None
        if k == 'set':
            o = tuple(op[1])
            obj = S.get(o)
            c = candidates(obj)
            if o[1] == 'slot' or o[1] == 'clip' or not c:
                pass
            if c:
                name, t, opt, pid = c[op[2] % len(c)]
                r = S.put(o, name, t, pid, op[3])
        elif k == 'del':
            o = tuple(op[1])
            obj = S.get(o)
            c = [x for x in candidates(obj) if x[2]]
            if op[2] % 3:
                c = [x for x in c if x[3] in S.model[o]]
            if c:
                name, t, opt, pid = c[op[2] % len(c)]
                had = pid in S.model[o]
                if op[3]:
                    obj[name].value = None
                    S.model[o].pop(pid, None)
                else:
                    try:
                        del obj[name]
                        if not had:
                            return '%s: deleting the missing property %s was accepted' % (o, name)
                    except KeyError:
                        if had:
                            return '%s: property %s could not be deleted' % (o, name)
                    S.model[o].pop(pid, None)
        elif k == 'desc':
            mob = S.get((op[1], 'mob'))
            d = S.f.create.from_name(op[2])
            mob['EssenceDescription'].value = d
            S.adopt((op[1], 'desc'))
            S.fill((op[1], 'desc'), op[3])
        elif k == 'stream':
            e = S.get(('file', 'essence'))
            data = random.Random(op[2]).randbytes(op[1])
            first = 'Data' not in e
            st = e['Data'].open('w' if first else op[3])
            st.write(data)
            S.blob = data if first or op[3] == 'w' else data + S.blob[len(data):]
            e['Data'].mark_modified()
            p = e['Data']
            S.model[('file', 'essence')][p.pid] = bytes(p.data)
        elif k == 'save':
            S.f.save()
        elif k == 'forget':
            import gc
            S.f.manager.lru_cache.__init__()
            gc.collect()
        elif k == 'check':
            r = S.check('after %s' % k)
        elif k == 'reopen':
            S.reopen()
            r = S.check('after reopening')
        if r:
            return r
    return None


def shrink(inp):
    for o in drop_chunks(inp['ops']):
        yield dict(inp, ops=o)


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check, 60, 30000, tlimit=60, shrink=shrink)


def rep(m, name):
    rng = random.Random(12)
    for i in range(25):
        inp = gen(rng, i)
        r = guarded(check, inp, 60)
        if r:
            return '%s on %s' % (r, str(inp)[:600])
    return None


O = 'core.AAFObject.'
UNITS = [Unit('write_properties', writing, [O + 'write_properties'], rep, covers=['entry', 'record', 'value', 'index', 'no index', 'done']),
         Unit('read_properties', reading, [O + 'read_properties'], rep, covers=['entry', 'record', 'index', 'no index', 'done', 'refused']),
         Unit('Property.value', setting, ['properties.Property.value', 'properties.Property.add_pid_entry', 'properties.Property.remove_pid_entry', 'properties.writeonly',
                                          'properties.Property.mark_modified', 'properties.Property.attached', 'properties.Property.writeable'], rep,
              covers=['entry', 'refused', 'removed', 'set']),
         Unit('get', access('get'), [O + 'get', O + '__getitem__', O + 'properties'], rep, covers=['entry', 'found', 'missing', 'new']),
         Unit('get, set properties only', access('only'), [O + 'get', O + 'properties'], rep, covers=['entry', 'found', 'missing']),
         Unit('in', access('in'), [O + '__contains__'], rep, covers=['entry', 'found', 'missing']),
         Unit('del', access('del'), [O + '__delitem__'], rep, covers=['entry', 'found', 'missing']),
         Unit('del, which one', deleting, [O + '__delitem__'], rep, covers=['entry']),
         Unit('names', naming, [O + 'keys', O + 'allkeys'], rep, covers=['entry', 'keys', 'allkeys']),
         Unit('getvalue', valued, [O + 'getvalue'], rep, covers=['entry', 'set', 'not set']),
         Unit('write_objects', saving, ['file.AAFObjectManager.write_objects'], rep, covers=['entry', 'written', 'forgotten', 'done']),
         Unit('object manager', managing, ['file.AAFObjectManager.add_modified', 'file.AAFObjectManager.read_object', 'file.AAFObjectManager.pop', 'file.AAFObjectManager.__setitem__'],
              rep, covers=['entry'])]
UNITS.append(Lemma('lemma: prefix sums exist and are monotone', 'digits.lean', ['prefix_sum']))
BOUNDED = [Bounded('sessions', run, 'files with 1, 2 or 4 source mobs (descriptors of 9 classes, slots, clips), header, content storage and essence data; 6 to 40 sets, deletes, '
                   'replaced descriptors, stream writes, saves and reopens with values of every usable data type', ['core.AAFObject', 'properties.Property', 'file.AAFObjectManager'],
                   check, shards=8, budget=14)]
ASSUMPTIONS = ['the stream layer stores and returns the bytes written (P01), under the path used (P04), across reopening (P03)',
               'values encode and decode losslessly (P08 - P11)',
               # prefix sums: lemma proved by Lean
               'property values up to 65535 bytes; weak and LRU caches behave as dictionaries whose entries may vanish (P07)']
LEVEL = 'proof'
