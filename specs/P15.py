"""P15: generated storage names and property ids never collide.

Deductive part
  squeeze_name        any text of any length: unchanged when it fits, else exactly `size` characters of it
  mangle_name         any text of any length, any property id: legal characters only, at most size-1 of them, ends in
                      '-' and the digits of the id (which hold no '-', so different ids give different names)
  next_free_pid       any set of used ids: never a used one, recorded, refused only when none is left
  register_propertydef / register_classdef   known properties keep their id, new ones get a fresh one, given ones are recorded
  read_properties     ids of the file stay, ids of missing definitions give way (ids arbitrary, a few classes)
  storage names       each place which makes one leaves room for the keys of members, whatever the name of the property
  member names        different keys, different names (shared with P13)
Bounded: names and registrations over real files and sessions."""
import random
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec
from pydv.seq import mk, seqof, val_eq
from pydv.libs import PvDict
from pydv.runner import Unit, Bounded, plain
from specs.common import drive, drop_chunks, AafFiles
from specs import P13

LOW, HIGH = 0x8000, 0xFFFF
DASH = ord('-')
FORBIDDEN = [ord(c) for c in '/\\:!']


def text(n, nm='name'):
    """a text of n characters"""
    f = UF(nm, 1, 0, 0x10FFFF)
    return f, mk('str', n=n, f=f)


def squeezing(size):
    def body(P):
        n = fresh_int('n', 0)
        f, name = text(n)
        ctx().cover('entry')
        r = P.utils.squeeze_name(name, size)
        s = seqof(r)
        if n <= size:
            ctx().cover('fits')
            prove(s.length() == n, 'a name which fits keeps its length')
            j = fresh_int('j', 0)
            assume(j < n)
            prove(val_eq(s.at(j), f(j)), 'a name which fits is unchanged')
        else:
            ctx().cover('longer')
            prove(val_eq(s.length(), size), 'a longer name gets exactly the size')
            for k in range(size):
                c = s.at(k)
                prove(or_(val_eq(c, DASH), val_eq(c, f(k)), val_eq(c, f(n - size + k))), 'made of the name and a dash')
    return body


class Clean(LoopSpec):
    """the characters taken over so far are legal"""
    name = 'characters'
    fn = 'mangle_name'

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None and 'new_name' in env

    def state(self, L, g):
        out = self.h['out']
        return {'new_name': mk('str', n=L.idx, f=out) if not isinstance(L.idx, int) else mk('str', items=[out(k) for k in range(L.idx)])}

    def iteration(self, L, g): self.at = L.idx

    def next(self, L, g, env):
        s = seqof(env['new_name'])
        prove(s.length() == self.at + 1, 'one character for each')
        c = s.at(self.at)
        src = self.h['src'](self.at)
        prove(and_(c >= 0x20, c <= 0xFFFF, *[not_(val_eq(c, x)) for x in FORBIDDEN]), 'a legal character of one unit')
        plain_ = and_(src >= 0x20, src <= 0xFFFF, *[not_(val_eq(src, x)) for x in FORBIDDEN])
        prove(implies(plain_, val_eq(c, src)), 'a legal character is kept')
        assume(val_eq(self.h['out'](self.at), c))
        ctx().cover('character')
        return g


def legal(r, x): return [and_(r >= 0x20, r <= 0xFFFF, *[r != c for c in FORBIDDEN])]


def mangling(size):
    def body(P):
        from pydv import loops
        h = dict(out=UF('legal', 1, 0, 0xFFFF))
        h['src'] = UF('src', 1, 0, 0x10FFFF)
        asked = []
        given = text(fresh_int('length', 0), 'given')[1]
        nd = ctx().choose(4) + 1
        ds = [fresh_int('d%d' % k, 1 if k == nd - 1 else 0, 15) for k in range(nd)]
        pid = sum([d * (1 << 4 * k) for k, d in enumerate(ds)], 0)
        m = fresh_int('m', 0)

        def squeeze(name, sz):
            # contract (proved in 'squeeze'): at most sz characters
            prove(name is given, 'the name of the property')
            asked.append(sz)
            assume(m <= sz)
            return mk('str', n=m, f=h['src'])
        P.utils.squeeze_name = squeeze
        loops.ACTIVE[:] = [[Clean(h)]]
        ctx().cover('entry')
        r = seqof(P.utils.mangle_name(given, pid, size))
        n = r.length()
        prove(len(asked) == 1 and asked[0] >= 1, 'some of the name is kept')
        prove(n <= size - 1, 'at most size - 1 characters')
        # the id with all its digits, behind the only dash which has nothing but hex digits after it
        for k in range(nd):
            c = r.at(n - 1 - k)
            d = ds[k]
            prove(val_eq(c, ite(d < 10, d + 48, d + 87)), 'ends with the digits of the id')
        prove(n >= nd + 1, 'room for the dash')
        prove(val_eq(r.at(n - nd - 1), DASH), 'the digits follow a dash')
        prove(n == m + nd + 1, 'the rest is the squeezed name')
        j = fresh_int('j', 0)
        assume(j < m)
        c = r.at(j)
        prove(val_eq(c, h['out'](j)), 'the squeezed name comes first')
        ctx().cover('done')
    return body


# ---------------------------------------------------------------- ids
class Pids(object):
    """any set of ids"""

    def __init__(self):
        self.has = UF('used', boolean=True)
        self.added = []

    def pv_contains(self, p):
        assume(implies(self.has(p), and_(p >= 0, p <= HIGH)))
        return or_(*([self.has(p)] + [val_eq(p, a) for a in self.added]))

    def __contains__(self, p): return bool(self.pv_contains(p))
    def add(self, p): self.added.append(p)


class Down(LoopSpec):
    """everything between the present and the first candidate is in use"""
    name = 'candidates'
    fn = 'next_free_pid'

    def __init__(self, m, start, J): self.m, self.start, self.J = m, start, J
    def fresh(self, L): return dict(c=fresh_int('candidate'))
    def ghost0(self, L, env): return dict(c=self.start)

    def constraint(self, L, g):
        c = g['c']
        return [c <= self.start, c >= -1, implies(and_(c < self.J, self.J <= self.start), self.m.local_pids.has(self.J))]

    def state(self, L, g): return {(self.m, 'next_pid'): g['c']}
    def next(self, L, g, env): return dict(c=self.m.next_pid)
    def measure(self, L, g): return g['c'] + 1


def fresh_pid(P):
    from pydv import loops
    M = type('M', (P.metadict.MetaDictionary,), {})
    m = M.__new__(M)
    m.local_pids = Pids()
    start = fresh_int('next', LOW - 1, HIGH)
    m.next_pid = start
    J = fresh_int('J', LOW, HIGH)
    loops.ACTIVE[:] = [[Down(m, start, J)]]
    ctx().cover('entry')
    try:
        r = m.next_free_pid()
    except ValueError:
        ctx().cover('none left')
        prove(m.local_pids.added == [], 'nothing is taken when refused')
        prove(implies(J <= start, m.local_pids.has(J)), 'refused only when every candidate is in use')
        return
    ctx().cover('found')
    assume(implies(m.local_pids.has(r), and_(r >= 0, r <= HIGH)))
    prove(not_(m.local_pids.has(r)), 'never an id in use')
    prove(and_(r >= LOW, r <= HIGH), 'an id of the dynamic range')
    prove(len(m.local_pids.added) == 1 and val_eq(m.local_pids.added[0], r), 'recorded as used')
    prove(m.next_pid < r, 'the next candidate is another one')


def registering(P):
    md = P.metadict
    known, given = ctx().choose(2), ctx().choose(3)
    has_set = 1 if known else ctx().choose(2)
    log = []
    a = P.auid.AUID(int=77)
    pa = P.auid.AUID(int=5)
    old = ('the old one',)

    class Meta(object):
        local_pids = Pids()
        def next_free_pid(self): log.append('fresh'); return fresh
        def lookup_typedef(self, t): log.append(('type', t)); return Type
        def lookup_classdef(self, t): return None

    class Type(object):
        auid = P.auid.AUID(int=99)

    class Root(object):
        metadict = Meta()
    fresh = fresh_int('fresh', LOW, HIGH)
    pid = [None, fresh_int('static', 1, LOW - 1), fresh_int('dynamic', LOW, HIGH)][given]
    C = type('C', (md.ClassDef,), {})
    c = C.__new__(C)
    c.root = Root()
    c.property_entries = {md.PID_PROPERTIES: {pa: old} if known else {}} if has_set else {}
    c.propertydef_by_pid = PvDict()
    made, added = [], []

    class Def(object):
        def __init__(self, root, name, auid, pid, typedef, optional, unique):
            made.append((root, name, auid, pid, typedef, optional, unique))
            self.auid = auid
    md.PropertyDef = Def

    class Props(object):
        @staticmethod
        def add_strongref_set_property(o, p, name, key): added.append(('set', p, name, key)); o.property_entries[p] = {}

        @staticmethod
        def add2set(o, p, key, v): added.append(('add', o, p, key, v))
    md.properties = Props
    typ = ['aafInt32', Type.auid][ctx().choose(2)]
    ctx().cover('entry')
    r = c.register_propertydef('P', pa, pid, typ, True, False)
    used = c.root.metadict.local_pids.added
    if known:
        ctx().cover('known')
        prove(r is old, 'a registered property is kept')
        prove(made == [] and added == [] and used == [] and 'fresh' not in log and c.propertydef_by_pid == {}, 'and nothing changes')
        return
    prove(len(made) == 1 and isinstance(r, Def), 'one definition is made')
    want = fresh if given == 0 else pid
    prove(made[0][0] is c.root and made[0][1] == 'P' and made[0][2] == pa and made[0][4] == Type.auid and made[0][5] is True and made[0][6] is False, 'with what was given')
    prove(val_eq(made[0][3], want), 'id: the given one, else a fresh one')
    prove(('fresh' in log) == (given == 0), 'a fresh id is taken only when needed')
    if given == 2:
        prove(len(used) == 1 and val_eq(used[0], pid), 'a given dynamic id is recorded as used')
        ctx().cover('dynamic')
    adds = [x for x in added if x[0] == 'add']
    prove(len(adds) == 1 and adds[0][1] is c and adds[0][2] == md.PID_PROPERTIES and adds[0][3] == pa and adds[0][4] is r, 'added to the properties of the class under its id')
    prove((('set', md.PID_PROPERTIES, 'Properties', md.PID_AUID) in added) == (not has_set), 'the set is made when missing')
    prove(len(c.propertydef_by_pid) == 1, 'found by its id')
    prove(and_(*[and_(val_eq(k, want), v is r) for k, v in c.propertydef_by_pid.items()]), 'under that id')
    ctx().cover('new')


def opening(P):
    """a file class F (2 properties), a missing class D (2 properties), a missing typedef of class D or F: all ids arbitrary"""
    md = P.metadict
    AUID = P.auid.AUID
    P.core.AAFObject.read_properties = lambda self: None
    writeable = bool(ctx().choose(2))

    class PD(object):
        def __init__(self, k, pid): self.auid, self.pid = AUID(int=1000 + k), pid

    class CD(object):
        def __init__(self, k, name, pds):
            self.auid, self.class_name, self.ps = AUID(int=k), name, pds
            self.propertydef_by_pid = {}

        propertydefs = property(lambda s: list(s.ps))

        def __getitem__(self, k):
            assert k == 'Properties'
            return dict((p.auid, p) for p in self.ps)

    class Set(dict):
        def append(self, x): self[x.auid] = x
    f0, f1 = fresh_int('f0', 1, HIGH), fresh_int('f1', 1, HIGH)
    d0, d1 = fresh_int('d0', LOW, HIGH), fresh_int('d1', 1, HIGH)
    e0 = fresh_int('e0', LOW, HIGH)
    assume(f0 != f1)
    assume(d0 != d1)
    nxt = fresh_int('next', LOW + 8, HIGH)
    assume(and_(nxt < d0, nxt < e0, implies(d1 >= LOW, nxt < d1), e0 != d0, e0 != d1))       # they were handed out before
    F = CD(1, 'F', [PD(0, f0), PD(1, f1)])
    Fd = CD(1, 'F', [PD(0, e0)])              # the default definition of F, replaced by that of the file
    D = CD(2, 'D', [PD(2, d0), PD(3, d1)])

    class Prop(object):
        def __init__(self, pid): self.pid = pid

    class TD(object):
        def __init__(self, k, cls, pid):
            self.auid, self.type_name, self.class_id = AUID(int=50 + k), 't%d' % k, cls.auid
            self.prop = Prop(pid)
            self.property_entries = PvDict()
            self.property_entries[pid] = self.prop
    tD, tF = TD(0, D, d0), TD(1, F, e0)
    tX = TD(2, F, f0)

    class Root(object):
        pass
    M = type('M', (md.MetaDictionary,), dict(__getitem__=lambda s, k: {'TypeDefinitions': tset, 'ClassDefinitions': cset}[k], __init__=lambda s: None))
    tset, cset = Set(), Set()
    tset.append(tX)
    cset.append(F)
    m = M()
    m.root = Root()
    m.root.writeable = writeable
    m.classdefs_by_auid = {Fd.auid: Fd, D.auid: D}
    m.classdefs_by_name = {'F': Fd, 'D': D, 'AliasF': Fd}
    m.typedefs_by_auid = {tD.auid: tD, tF.auid: tF}
    m.typedefs_by_name = {'t0': tD, 't1': tF}
    m.local_pids = set()
    m.next_pid = nxt
    ctx().cover('entry')
    m.read_properties()
    prove(m.classdefs_by_auid[F.auid] is F and m.classdefs_by_name['F'] is F and m.classdefs_by_name['AliasF'] is F, 'the definition of the file is found by id, name and alias')
    prove(m.classdefs_by_auid[D.auid] is D and m.classdefs_by_name['D'] is D, 'the missing definition is still found')
    prove(m.typedefs_by_auid[tX.auid] is tX and m.typedefs_by_name['t2'] is tX and m.typedefs_by_name['t0'] is tD, 'types are found')
    prove(and_(val_eq(F.ps[0].pid, f0), val_eq(F.ps[1].pid, f1)), 'ids of the file stay')

    def mapped(c, w):
        prove(len(c.propertydef_by_pid) == len(c.ps), w + ': one entry per property')
        for p in c.ps:
            prove(or_(*[and_(val_eq(k, p.pid), v is p) for k, v in c.propertydef_by_pid.items()]), w + ': found by its id')
    mapped(F, 'file class')
    if writeable:
        ctx().cover('writeable')
        mapped(D, 'missing class')
        ps = F.ps + D.ps
        for i, a in enumerate(ps):
            for b in ps[:i]:
                prove(or_(a.pid < LOW, b.pid < LOW, not_(val_eq(a.pid, b.pid))), 'dynamic ids differ')
        prove(implies(d1 < LOW, val_eq(D.ps[1].pid, d1)), 'a fixed id stays')
        prove(D.auid in cset and tD.auid in tset and tF.auid in tset, 'missing definitions are added')
        prove(cset[F.auid] is F and tset[tX.auid] is tX, 'those of the file stay')
        for p in ps:
            prove(implies(p.pid >= LOW, bool_in(p.pid, m.local_pids)), 'dynamic ids are recorded as used')
    for t, c, w in [(tD, D, 'type of the missing class'), (tF, F, 'type of the file class')]:
        prove(len(t.property_entries) == 1, w + ': one value')
        for k, v in t.property_entries.items():
            prove(and_(v is t.prop, val_eq(k, c.ps[0].pid), val_eq(v.pid, c.ps[0].pid)), w + ': its value follows the id of the property')


def bool_in(p, s):
    return or_(*[val_eq(p, x) for x in list(set.__iter__(s)) + list(s._sym() if hasattr(s, '_sym') else [])])


def stored(kind):
    """every place which makes a storage name: for any name of the property, any id, and any member key the name fits"""
    def body(P):
        pr = P.properties
        n = fresh_int('n', 1)
        given = text(n, 'given')[1]
        pid = fresh_int('pid', 1, HIGH)
        made, asked = [], []

        def mangle(name, p, size):
            # contract (proved in 'mangle')
            asked.append((name, p))
            m = fresh_int('m', 1)
            assume(m <= size - 1)
            made.append(m)
            return mk('str', n=m, f=UF('mangled', 1, 0x20, 0xFFFF))
        pr.mangle_name = mangle

        class Def(object): property_name = given

        class Type(object):
            class ref_classdef(object):
                unique_key_pid, unique_key_size = 5, 16

        class Root(object):
            def weakref_index(s, path): return 1

        class Parent(object):
            root, dir = Root(), None
            property_entries = PvDict()

        def make(cls):
            C = type(cls, (getattr(pr, cls),), dict(propertydef=Def, typedef=Type, ref_classdef=Type.ref_classdef, encode=lambda s, name: name, writeable=True,
                                                    pid_path=[1], add_pid_entry=lambda s: None, mark_modified=lambda s: None))
            o = C.__new__(C)
            C.__init__(o, Parent, pid, 0)
            return o
        extra = 10           # {ffffffff}; ' index' is shorter
        ctx().cover('entry')
        if kind == 'vector':
            r = make('StrongRefVectorProperty').index_name
        elif kind in ('StrongRefSetProperty', 'WeakRefArrayProperty'):
            o = make(kind)
            o.extend([])
            r = o.index_name
            assert o.data is r
        elif kind == 'helper':
            pr.StrongRefSetProperty.encode = lambda s, name: name
            r = pr.add_strongref_set_property(Parent, pid, given, 5).index_name
        prove(len(made) == 1 and asked[0][0] is given and val_eq(asked[0][1], pid), 'made of the name and the id of the property')
        prove(val_eq(seqof(r).length(), made[0]), 'and nothing else')
        prove(seqof(r).length() + extra <= 31, 'the names of its members and of its index fit')
    return body


# ---------------------------------------------------------------- concrete: names
ALPH = ['a', 'B', 'Z', '0', '-', ' ', '/', '\\', ':', '!', '{', '}', u'\u00e9', u'\u20ac', u'\U0001f600', '\x01', '_', '.']


def rname(rng):
    x = rng.random()
    if x < .15:
        return ''.join(rng.choice(ALPH) for _ in range(rng.choice([1, 2, 5, 15, 16, 17, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 40, 100])))
    base = rng.choice(['CommonPrefixOfMany', 'x', 'Some', 'TaggedValueAttributeList'])
    s = base * rng.randrange(1, 5) + rng.choice(['', 'a', 'b', '-1', '-ffff', ' index', '{0}', '/x', ':'])
    return s[:rng.choice([1, 3, 20, 25, 26, 27, 28, 29, 30, 31, 32, 64])]


def gen_names(rng, i):
    n = rng.randrange(1, 12)
    same = rname(rng) if rng.random() < .4 else None
    return dict(names=[same or rname(rng) for _ in range(n)], pids=rng.sample([1, 2, 0xf, 0x10, 0x1f, 0xff, 0x100, 0xfff, 0x1000, 0x3333, 0x7fff, 0x8000, 0xfffe, 0xffff] +
                                                                   list(range(0x1900, 0x1920)), n), size=rng.choice([32, 22]))


def legal_text(s, limit):
    units = len(s.encode('utf-16le')) // 2
    if units > limit or units < 1:
        return '%d units' % units
    bad = [c for c in s if c in '/\\:!' or ord(c) < 32]
    return 'forbidden %r' % bad if bad else None


def check_names(inp):
    plain()
    from aaf2 import utils, properties
    seen = {}
    for n, p in zip(inp['names'], inp['pids']):
        r = utils.mangle_name(n, p, inp['size'])
        if r != properties.mangle_name(n, p, inp['size']) or r != utils.mangle_name(str(n), p, inp['size']):
            return 'not deterministic: %r' % r
        bad = legal_text(r, inp['size'] - 1)
        if bad:
            return 'name %r of property %r id %x: %s' % (r, n, p, bad)
        if inp['size'] == 22:
            for k in (0, 9, 0xffffffff):
                bad = legal_text('%s{%x}' % (r, k), 31) or legal_text(r + ' index', 31)
                if bad:
                    return 'name of a member of %r: %s' % (r, bad)
        if r.lower() in seen:
            return '%r and %r get the same name %r' % (seen[r.lower()], (n, p), r)
        seen[r.lower()] = (n, p)
    return None


def run_names(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_names, check_names, 4000, 400000, tlimit=10,
                 shrink=lambda i: [dict(i, names=i['names'][:k] + i['names'][k + 1:], pids=i['pids'][:k] + i['pids'][k + 1:]) for k in range(len(i['names']))])


# ---------------------------------------------------------------- concrete: registrations
KINDS = {'int': 'aafInt32', 'ref': 'kAAFTypeID_SegmentStrongReference', 'vec': 'kAAFTypeID_SegmentStrongReferenceVector', 'stream': 'Stream',
         'set': 'kAAFTypeID_MobStrongReferenceSet'}
STRIP = ['MPEGVideoDescriptor', 'TIFFDescriptor', 'AIFCDescriptor', 'HTMLDescriptor', 'GPITrigger', 'TypeDefinitionGenericCharacter', 'Edgecode', 'ObjectModel',
         'EssenceDescriptor', 'RIFFChunk', 'SubDescriptor', 'WAVEPCMDescriptor']


def gen_pids(rng, i):
    ops = []
    for k in range(rng.randrange(2, 8)):
        x = rng.random()
        if x < .45:
            ops.append(['class', rng.randrange(4), [[rng.randrange(6), rng.choice([None, None, None, 'next', 0x8000, 0x9000, 0x9001, 'base']), rng.choice(sorted(KINDS)), rname(rng)]
                                                    for _ in range(rng.randrange(1, 4))]])
        elif x < .6:
            ops.append(['prop', rng.randrange(4), rng.randrange(6), rng.choice([None, 'next', 0x9002, 'base']), rng.choice(sorted(KINDS)), rname(rng)])
        elif x < .7:
            ops.append(['again', rng.randrange(4)])
        elif x < .8:
            ops.append(['foreign', rng.randrange(3)])
        else:
            ops.append(['reopen', rng.random() < .5])
    ops.append(['reopen', rng.random() < .5])
    return dict(ops=ops, ext=rng.random() < .5, strip=[s for s in STRIP if rng.random() < .35] if rng.random() < .6 else [])


def uid(cls, p=None):
    return 'aaaaaaaa-0000-%04x-0000-%012x' % (cls, 0 if p is None else p + 1)


PARENTS = ['Filler', 'Segment', 'Filler', 'EssenceDescriptor']
_X = []


def foreign():
    """another file with classes of its own"""
    import aaf2
    if not _X:
        f = aaf2.open()
        for k in range(3):
            f.metadict.register_classdef('Foreign%d' % k, uid(100 + k), 'Filler', True,
                                         dict(('q%d' % j, (uid(100 + k, j), None, 'aafInt32', True)) for j in range(3)))
        _X.append(f)
    return _X[0]


class Case(object):
    def __init__(self, files, inp):
        self.files, self.inp = files, inp
        self.f = files.open('a', 'wb+', extensions=inp['ext'])
        self.model = {}             # (class id, property id) -> pid
        self.args = {}
        self.stripped = set()
        md = self.f.metadict
        for s in inp['strip']:
            c = md.classdefs_by_name.get(s)
            if c is None or c.auid not in md['ClassDefinitions']:
                continue
            # a file written by someone else: without this class, its ids free for others
            md['ClassDefinitions'].pop(c.auid)
            for p in c.propertydefs:
                md.local_pids.discard(p.pid)
                self.stripped.add(p.pid)
        if 'TypeDefinitionGenericCharacter' in inp['strip'] or (inp['strip'] and len(inp['strip']) % 2):
            c = [t for t in md['TypeDefinitions'].values() if t.type_name == 'aafChar'][0]
            md['TypeDefinitions'].pop(c.auid)
        self.snap()
        self.char = self.f.metadict.typedefs_by_name['aafChar'].size

    def snap(self):
        """every id known to the file"""
        md = self.f.metadict
        have = md['ClassDefinitions']
        for c in have.values():
            for p in c.propertydefs:
                k = (str(c.auid), str(p.auid))
                if k not in self.model:
                    self.model[k] = p.pid

    def consistent(self, where):
        md = self.f.metadict
        used = {}
        have = md['ClassDefinitions']
        for c in have.values():
            if md.classdefs_by_auid.get(c.auid) is not c:
                return '%s: %s is not the definition found by its id' % (where, c)
            for p in c.propertydefs:
                k = (str(c.auid), str(p.auid))
                if k in self.model and self.model[k] != p.pid:
                    return '%s: id of %s.%s changed from %x to %x' % (where, c.class_name, p.property_name, self.model[k], p.pid)
                if p.pid >= LOW:
                    if p.pid in used:
                        return '%s: id %x is used by %s and %s' % (where, p.pid, used[p.pid], (c.class_name, p.property_name))
                    used[p.pid] = (c.class_name, p.property_name)
                if c.get_propertydef_from_pid(p.pid) is not p:
                    return '%s: id %x of %s gives %s instead of %s' % (where, p.pid, c.class_name, c.get_propertydef_from_pid(p.pid), p)
            extra = set(c.propertydef_by_pid) - set(p.pid for p in c.propertydefs)
            if extra:
                return '%s: %s still answers to ids %s' % (where, c.class_name, sorted(extra))
        for k in self.model:
            c = md.classdefs_by_auid.get(__import__('aaf2').auid.AUID(k[0]))
            if c is None or not any(str(p.auid) == k[1] for p in c.propertydefs):
                return '%s: property %s is gone' % (where, k)
        t = md.typedefs_by_name.get('aafChar')
        if t is not None and t.size != self.char:
            return '%s: size of aafChar is %s' % (where, t.size)
        return None

    def pid_for(self, p, far=0):
        md = self.f.metadict
        if p == 'next':
            return next((x for x in (md.next_pid - far, md.next_pid - 1 - far, md.next_pid - 5 - far) if x >= LOW and x not in self.used()), None)
        if p == 'base':
            return next((x for x in sorted(self.stripped, reverse=True) if x >= LOW and x not in self.used()), None)
        if p is not None and p in self.used():
            return None
        return p

    def used(self):
        md = self.f.metadict
        r = set(md.local_pids)
        for c in md.classdefs_by_auid.values():
            if c.auid in md['ClassDefinitions']:
                r |= set(p.pid for p in c.propertydefs)
        return r

    def step(self, op):
        md = self.f.metadict
        before = dict(((str(c.auid), str(p.auid)), p.pid) for c in md['ClassDefinitions'].values() for p in c.propertydefs)
        if op[0] == 'class':
            k = op[1]
            props, taken = {}, set()
            for j, pid, kind, nm in op[2]:
                x = self.pid_for(pid, 40)
                x = None if x in taken else x
                taken.add(x)
                if x is not None and (str(__import__('aaf2').auid.AUID(uid(k))), str(__import__('aaf2').auid.AUID(uid(k, j)))) in before:
                    x = None
                props['%s.%d' % (nm, j)] = (uid(k, j), x, KINDS[kind], True)
            # one property must not be listed twice
            seen, once = set(), {}
            for n, a in props.items():
                if a[0] not in seen:
                    seen.add(a[0])
                    once[n] = a
            md.register_classdef('Own%d' % k, uid(k), PARENTS[k], True, once)
            self.args.setdefault(k, {}).update(dict((a[0], (n, a)) for n, a in once.items() if a[0] not in self.args.get(k, {})))
        elif op[0] == 'prop':
            c = md.lookup_classdef('Own%d' % op[1])
            if c is not None:
                c.register_propertydef('%s.%d' % (op[5], op[2]), uid(op[1], op[2]), self.pid_for(op[3]), KINDS[op[4]], True)
        elif op[0] == 'again' and op[1] in self.args:
            # the same registration with the ids given explicitly, as a program does at each start
            k = op[1]
            c = md.lookup_classdef('Own%d' % k)
            have = dict((str(p.auid), p.pid) for p in c.propertydefs)
            A = __import__('aaf2').auid.AUID
            md.register_classdef('Own%d' % k, uid(k), PARENTS[k], True, dict((n, (a[0], have[str(A(a[0]))], a[2], True)) for n, a in self.args[k].values()))
        elif op[0] == 'foreign':
            md.register_external_classdef(foreign().metadict.lookup_classdef('Foreign%d' % op[1]))
        elif op[0] == 'reopen':
            self.f.close()
            if op[1]:
                f = self.files.open('a', 'rb', extensions=False)
                self.f = f
                r = self.consistent('read only')
                f.close()
                if r:
                    return r
            self.f = self.files.open('a', 'rb+', extensions=self.inp['ext'])
        r = self.consistent(op)
        if r:
            return r
        md = self.f.metadict
        for c in md['ClassDefinitions'].values():
            for p in c.propertydefs:
                k = (str(c.auid), str(p.auid))
                if k not in before and op[0] != 'reopen' and p.pid >= LOW and p.pid in before.values():
                    return '%s: new property %s got the id %x which was in use' % (op, p.property_name, p.pid)
        self.snap()
        return None


def check_pids(inp):
    plain()
    with AafFiles() as files:
        c = Case(files, inp)
        for op in inp['ops']:
            r = c.step(op)
            if r:
                return r
        return values(c)


KEYS = [1, 0xf, 0x10, 0xffff, 0x10000000, 0xfffffffd]


def values(c):
    """every own class: set all its properties, save, read back; storage names legal and distinct"""
    f = c.f
    mob = f.create.MasterMob('m')
    f.content.mobs.append(mob)
    mid = mob.mob_id
    made = []
    for k in range(3):
        cd = f.metadict.lookup_classdef('Own%d' % k)
        if cd is None:
            continue
        o = f.create.from_name('Own%d' % k)
        s = mob.create_timeline_slot(25)
        o['DataDefinition'].value = f.dictionary.lookup_datadef('picture')
        o['Length'].value = 5
        s.segment = o
        want = {}
        for j, p in enumerate(cd.propertydefs):
            t = p.typedef.type_name
            n = p.property_name
            if t == 'aafInt32':
                o[n].value = j
                want[n] = j
            elif t.endswith('ReferenceVector'):
                o[n].value = [f.create.Filler('picture', 100 + j)]
                o[n].next_free_key = KEYS[(j + k) % len(KEYS)]
                o[n].append(f.create.Filler('picture', 200 + j))
                want[n] = [100 + j, 200 + j]
            elif t.endswith('SegmentStrongReference'):
                o[n].value = f.create.Filler('picture', 300 + j)
                want[n] = 300 + j
            elif t == 'Stream':
                s2 = o[n].open('w')
                s2.write(b'%d' % j)
                want[n] = b'%d' % j
            else:
                m = f.create.CompositionMob('x%d' % j)
                m2 = f.create.CompositionMob('y%d' % j)
                o[n].value = [m]
                o[n].next_free_key = KEYS[(j + k) % len(KEYS)]
                o[n].append(m2)
                want[n] = ['x%d' % j, 'y%d' % j]
        made.append((s.slot_id, k, want))
    f.close()
    f = c.files.open('a', 'rb', extensions=False)
    mob = f.content.mobs.get(mid)
    for sid, k, want in made:
        o = mob.slot_at(sid).segment
        for e in [x.name for x in o.dir.listdir()]:
            bad = legal_text(e, 31)
            if bad:
                return 'storage name %r: %s' % (e, bad)
        for n, w in want.items():
            p = o.get(n)
            if p is None:
                return 'property %r of Own%d is gone' % (n, k)
            if isinstance(w, bytes):
                v = p.open().read()
            elif isinstance(w, list):
                v = [x.length if isinstance(w[0], int) else x.name for x in p.value]
                v = v if isinstance(w[0], int) else sorted(v)
            else:
                v = p.value if not hasattr(p.value, 'length') else p.value.length
            if v != w:
                return 'property %r of Own%d is %r instead of %r' % (n, k, v, w)
    return None


def shrink(inp):
    for o in drop_chunks(inp['ops']):
        yield dict(inp, ops=o)
    for k in range(len(inp['strip'])):
        yield dict(inp, strip=inp['strip'][:k] + inp['strip'][k + 1:])


def run_pids(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_pids, check_pids, 60, 4000, tlimit=60, shrink=shrink)


def gen_end(rng, i):
    if i > 2:
        return None
    return dict(used=[rng.randrange(LOW, HIGH + 1) for _ in range(40)] + [0x8000] * (i % 2) + [0x8001] * (i == 2))


def check_end(inp):
    plain()
    import aaf2
    f = aaf2.open()
    md = f.metadict
    used = set(md.local_pids) | set(inp['used'])
    md.local_pids = set(used)
    got = []
    try:
        for _ in range(40000):
            got.append(md.next_free_pid())
    except ValueError:
        pass
    bad = [x for x in got if x in used or not LOW <= x <= HIGH]
    if bad:
        return 'handed out ids %s' % [hex(x) for x in bad[:3]]
    if len(set(got)) != len(got):
        return 'handed out an id twice'
    return None


def run_end(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_end, check_end, 3, 3, tlimit=30)


def rep(m, name):
    rng = random.Random(7)
    for i in range(3000):
        r = check_names(gen_names(rng, i))
        if r:
            return r
    for i in range(12):
        inp = gen_pids(rng, i)
        r = check_pids(inp)
        if r:
            return '%s on %s' % (r, inp)
    return check_end(gen_end(rng, 0))


N = ['utils.mangle_name', 'utils.squeeze_name']
UNITS = [Unit('squeeze %d' % s, squeezing(s), N[1:], rep, covers=['entry', 'fits', 'longer']) for s in (16, 17, 19, 26, 27, 28, 29)]
UNITS += [Unit('mangle %d' % s, mangling(s), N[:1], rep, covers=['entry', 'done', 'character']) for s in (22, 32)]
UNITS += [Unit('next_free_pid', fresh_pid, ['metadict.MetaDictionary.next_free_pid'], rep, covers=['entry', 'none left', 'found']),
          Unit('register_propertydef', registering, ['metadict.ClassDef.register_propertydef'], rep, covers=['entry', 'known', 'new', 'dynamic']),
          Unit('read definitions', opening, ['metadict.MetaDictionary.read_properties'], rep, covers=['entry', 'writeable'], timeout=120)]
UNITS += [Unit('member names, ' + c, P13.naming(c), ['properties.%s.index_ref_name' % c], rep, covers=['entry', 'different'])
          for c in ('StrongRefVectorProperty', 'StrongRefSetProperty')]
UNITS += [Unit('storage names, ' + k, stored(k), [q], rep, covers=['entry'])
          for k, q in (('vector', 'properties.StrongRefVectorProperty.index_name'), ('StrongRefSetProperty', 'properties.StrongRefSetProperty.extend'),
                       ('WeakRefArrayProperty', 'properties.WeakRefArrayProperty.extend'), ('helper', 'properties.add_strongref_set_property'))]
BOUNDED = [Bounded('names', run_names, 'up to 11 properties with long, nasty and similar names and ids of every width: legal, distinct, deterministic', N, check_names, shards=2, budget=6),
           Bounded('registrations', run_pids, 'up to 7 registrations (fresh, given, repeated, foreign ids) and reopenings of files with up to 12 base classes missing; ids unique, stable, '
                   'found; then values of all own classes saved and read back',
                   ['metadict.MetaDictionary.register_classdef', 'metadict.MetaDictionary.read_properties', 'metadict.MetaDictionary.register_external_classdef'], check_pids, shards=6, budget=11),
           Bounded('exhaustion', run_end, 'next_free_pid until it refuses', ['metadict.MetaDictionary.next_free_pid'], check_end, shards=1, budget=10)]
ASSUMPTIONS = ['property ids fit in 16 bits (record field, P12)', 'texts are sequences of code points up to 0x10FFFF',
               'dynamic ids of default definitions were handed out by next_free_pid (so they are above the next candidate)',
               'read definitions: counts of classes and properties small, their ids arbitrary']
LEVEL = 'proof'
