"""P16: definitions survive save, reopen and copying; copies carry everything along."""
import random
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec
from pydv.seq import mk, seqof, val_eq, prove_eq
from pydv.libs import PvDict, PvSet
from specs.common import drive, drop_chunks, AafFiles
from specs.aafsym import Blob
from specs import P13
from pydv.runner import Unit, Bounded, plain

BASE = 'urn'


# ---------------------------------------------------------------- signatures
def type_sig(t):
    from aaf2 import types as T
    r = [type(t).__name__, t.type_name]
    if isinstance(t, T.TypeDefInt):
        r += [t.size, t.signed]
    elif isinstance(t, (T.TypeDefExtEnum, T.TypeDefEnum)):
        r += [tuple(sorted((str(k), v) for k, v in t.elements.items()))]
        if isinstance(t, T.TypeDefEnum):
            r.append(str(t.element_typedef.auid))
    elif isinstance(t, T.TypeDefFixedArray):
        r += [t.size, str(t.element_typedef.auid)]
    elif isinstance(t, (T.TypeDefVarArray, T.TypeDefSet, T.TypeDefString)):
        r += [str(t.element_typedef.auid)]
    elif isinstance(t, T.TypeDefRecord):
        r += [tuple(t.member_names), tuple(str(m.auid) for m in t.member_types)]
    elif isinstance(t, T.TypeDefRename):
        r += [str(t.renamed_typedef.auid)]
    elif isinstance(t, T.TypeDefWeakRef):
        r += [str(t.ref_classdef.auid), tuple(str(a) for a in t.target_set_path)]
    elif isinstance(t, T.TypeDefStrongRef):
        r += [str(t.ref_classdef.auid)]
    elif isinstance(t, T.TypeDefGenericCharacter):
        r += [t.size]
    return tuple(r)


def class_sig(c, pids=True):
    return (c.class_name, str(c.parent_id), bool(c.concrete),
            tuple(sorted((str(p.auid), p.property_name, str(p.typedef_id), bool(p.optional), bool(p.unique)) + ((p.pid,) if pids else ()) for p in c.propertydefs)))


def defs(f, pids=True):
    md = f.metadict
    r = {}
    for t in list(md.typedefs_by_auid.values()):
        r['T' + str(t.auid)] = type_sig(t)
    for c in list(md.classdefs_by_auid.values()):
        r['C' + str(c.auid)] = class_sig(c, pids)
    return r


def found(f):
    """every definition is found by its id and by its name, and what finds one belongs to this file"""
    md = f.metadict
    for d in list(md['TypeDefinitions'].values()):
        if md.lookup_typedef(d.auid) is not d:
            return 'type %s is not found by its id' % d
        x = md.lookup_typedef(d.type_name)
        if x is None or md.typedefs_by_auid[x.auid] is not x:
            return 'type %s is not found by its name' % d
    for d in list(md['ClassDefinitions'].values()):
        if md.lookup_classdef(d.auid) is not d:
            return 'class %s is not found by its id' % d
        x = md.lookup_classdef(d.class_name)
        if x is None or md.classdefs_by_auid[x.auid] is not x:
            return 'class %s is not found by its name' % d
    return None


def ref_id(o):
    return '%s %s' % (o.classdef.class_name, o.unique_key)


def plain_value(v):
    if isinstance(v, dict):
        return tuple((k, plain_value(x)) for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return ('set',) + tuple(sorted(repr(plain_value(x)) for x in v))
    if isinstance(v, (list, tuple)):
        return tuple(plain_value(x) for x in v)
    return '%s %r' % (type(v).__name__, v)


def sig(o, refs=None, seen=None):
    """everything an object holds, by property id"""
    from aaf2 import properties as R
    r = {}
    for p in o.property_entries.values():
        k = '%s %s' % (p.propertydef.property_name, p.propertydef.auid)
        if p.pid != p.propertydef.pid:
            raise AssertionError('property %s stored under %x' % (k, p.pid))
        if isinstance(p, R.StrongRefProperty):
            v = sig(p.value, refs)
        elif isinstance(p, R.StrongRefVectorProperty):
            v = [sig(x, refs) for x in p.value]
        elif isinstance(p, R.StrongRefSetProperty):
            v = dict((str(a), sig(x, refs)) for a, x in p.items())
        elif isinstance(p, R.WeakRefArrayProperty):
            v = []
            for key, x in p.items():
                if x is None or x.unique_key != key or x.root is not o.root:
                    raise AssertionError('reference %s of %s gives %r' % (key, k, x))
                v.append(ref_id(x))
                if refs is not None:
                    refs[ref_id(x)] = x
        elif isinstance(p, R.WeakRefProperty):
            x = p.value
            if x is None or x.unique_key != p.ref or x.root is not o.root:
                raise AssertionError('reference %s of %s gives %r' % (p.ref, k, x))
            v = ref_id(x)
            if refs is not None:
                refs[v] = x
        elif isinstance(p, R.StreamProperty):
            v = p.open('r').read()
        else:
            v = (bytes(p.data), plain_value(p.value))
        r[k] = (type(p).__name__, v)
    return (o.classdef.class_name, str(o.classdef.auid), type(o).__name__, tuple(sorted(r.items(), key=lambda x: x[0])))


def differ(a, b, at=''):
    """the first difference of two signatures, in words"""
    if a == b:
        return None
    if type(a) is type(b) and isinstance(a, (tuple, list)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, at + ('/' + str(x[0]) if isinstance(x, tuple) and x and isinstance(x[0], str) else ''))
            if d:
                return d
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return differ(a.get(k), b.get(k), at + '/' + k)
    return '%s: %.120r became %.120r' % (at, a, b)


# ---------------------------------------------------------------- registrations
def uid(i):
    from aaf2.auid import AUID
    return AUID(int=(0x5A5A << 100) + i)


INTS = ['aafUInt8', 'aafInt16', 'aafUInt32', 'aafInt64']
NICE = ['Alpha', 'a b', u'Gr\u00fc\u00dfe', 'x' * 40, 'Name/With:Marks', 'Z', u'\u4e2d\u6587']
PARENTS = ['InterchangeObject', 'DefinitionObject', 'Component', 'EssenceDescriptor']
CATS = ['ints', 'enums', 'renames', 'records', 'fixed_arrays', 'var_arrays', 'sets', 'strings', 'extenums', 'strongrefs', 'weakrefs', 'vectors', 'strongsets', 'weakvecs', 'weaksets', 'streams', 'indirects', 'opaques']


def gen_ops(rng, n):
    ops = []
    if rng.random() < .6:
        ops = [['kit', 0, rng.randrange(1 << 20)]]
    for k in range(3, n):
        x = rng.random()
        if x < .6:
            ops.append(['type', k, rng.choice(CATS), rng.randrange(1 << 20)])
        elif x < .8:
            ops.append(['class', k, rng.randrange(1 << 20)])
        elif x < .9:
            ops.append(['prop', k, rng.randrange(1 << 20)])
        else:
            ops.append(['element', rng.randrange(1 << 20)])
    return ops


class Reg(object):
    """applies registrations, knows what must be found"""

    def __init__(self, f, salt=''):
        self.f, self.md, self.salt = f, f.metadict, salt
        self.by = {}
        self.classes = []
        self.want = {}
        self.targets = []

    def t(self, cat, rng, *also):
        c = [t for x in (cat,) + also for t in self.by.get(x, [])]
        return rng.choice(c) if c else None

    def auid(self, name): return str(self.md.lookup_typedef(name).auid)

    def element(self, rng, deep=True):
        own = self.t('ints', rng, *(('records', 'renames', 'enums', 'fixed_arrays', 'extenums') if deep else ()))
        return own if own and rng.random() < .7 else self.auid(rng.choice(INTS))

    def type(self, k, cat, seed):
        rng = random.Random(seed)
        a, name = str(uid(k)), rng.choice(NICE) + self.salt + str(k)
        real, args = cat, None
        if cat == 'ints':
            args = (a, rng.choice([1, 2, 4, 8]), rng.random() < .5)
            sig = ('TypeDefInt', name) + args[1:]
        elif cat == 'enums':
            el = dict((v, '%s %d' % (rng.choice(NICE), v)) for v in rng.sample(range(0, 100), rng.choice([1, 3, 20])))
            args = (a, self.auid('aafUInt8'), el)
            sig = ('TypeDefEnum', name, tuple(sorted((str(v), n) for v, n in el.items())), args[1])
        elif cat == 'extenums':
            el = dict((str(uid(10000 + 100 * k + j)), 'e%d%s' % (j, rng.choice(NICE))) for j in range(rng.choice([1, 2, 9])))
            args = (a, el)
            sig = ('TypeDefExtEnum', name, tuple(sorted(el.items())))
        elif cat == 'renames':
            args = (a, self.element(rng))
            sig = ('TypeDefRename', name, args[1])
        elif cat == 'records':
            args = (a, tuple(('m%d' % j, self.element(rng)) for j in range(rng.choice([1, 2, 4]))))
            sig = ('TypeDefRecord', name, tuple(x[0] for x in args[1]), tuple(x[1] for x in args[1]))
        elif cat == 'fixed_arrays':
            args = (a, self.element(rng), rng.choice([1, 3, 10]))
            sig = ('TypeDefFixedArray', name, args[2], args[1])
        elif cat == 'var_arrays':
            args = (a, self.element(rng))
            sig = ('TypeDefVarArray', name, args[1])
        elif cat == 'sets':
            args = (a, self.element(rng, False))
            sig = ('TypeDefSet', name, args[1])
        elif cat == 'strings':
            args = (a, self.auid('aafCharacter') if self.md.lookup_typedef('aafCharacter') else str(self.md.lookup_typedef('aafString').element_typedef.auid))
            sig = ('TypeDefString', name, args[1])
        elif cat == 'strongrefs':
            c = rng.choice(self.classes) if self.classes and rng.random() < .8 else self.md.lookup_classdef('Component')
            args = (a, str(c.auid))
            sig = ('TypeDefStrongRef', name, args[1])
        elif cat in ('vectors', 'strongsets', 'weakvecs', 'weaksets'):
            el = self.t('weakrefs' if 'weak' in cat else 'strongrefs', rng)
            real = 'var_arrays' if 'vec' in cat else 'sets'
            if el is None:
                return
            if cat == 'strongsets' and self.md.lookup_typedef(self.A(el)).ref_classdef.unique_key_pid is None:
                return
            args = (a, el)
            sig = ('TypeDefVarArray' if real == 'var_arrays' else 'TypeDefSet', name, el)
        elif cat == 'weakrefs':
            tgt = rng.choice(self.targets + [None])
            if tgt is None:
                c, path = 'ContainerDefinition', ('0d010301-0102-0100-060e-2b3401010102', '06010104-0202-0000-060e-2b3401010102', '06010104-0508-0000-060e-2b3401010102')
                path = tuple(str(x) for x in self.md.lookup_typedef('ContainerDefinitionWeakReference').target_set_path)
                c = str(self.md.lookup_classdef(c).auid)
            else:
                c, path = tgt
            args = (a, c, path)
            sig = ('TypeDefWeakRef', name, c, path)
        else:
            args = (a,)
            sig = ({'streams': 'TypeDefStream', 'indirects': 'TypeDefIndirect', 'opaques': 'TypeDefOpaque'}[cat], name)
        self.md.register_typedef_model({real: {name: args}})
        self.by.setdefault(cat, []).append(a)
        self.want['T' + a] = sig

    def A(self, s):
        from aaf2.auid import AUID
        return AUID(s)

    def cls(self, k, seed):
        rng = random.Random(seed)
        own = [c for c in self.classes]
        parent = rng.choice(own) if own and rng.random() < .5 else self.md.lookup_classdef(rng.choice(PARENTS))
        a, name = uid(k), rng.choice(NICE) + self.salt + 'C%d' % k
        c = self.md.register_classdef(name, a, rng.choice([parent.class_name, parent.auid]), rng.random() < .8)
        self.classes.append(c)
        self.want['C' + str(a)] = [name, str(parent.auid), bool(c.concrete), {}]
        self.prop(k + 1000, seed, c)
        if rng.random() < .4 and c.isinstance(self.md.lookup_classdef('DefinitionObject')):
            self.target(k, c)

    def target(self, k, c):
        """a set of such definitions in the dictionary, to refer to"""
        sr, st = str(uid(k + 3000)), str(uid(k + 4000))
        self.md.register_typedef_model({'strongrefs': {'SR%d' % k: (sr, str(c.auid))}})
        self.md.register_typedef_model({'sets': {'SS%d' % k: (st, sr)}})
        self.want['T' + sr] = ('TypeDefStrongRef', 'SR%d' % k, str(c.auid))
        self.want['T' + st] = ('TypeDefSet', 'SS%d' % k, sr)
        d = self.md.lookup_classdef('Dictionary')
        p = d.register_propertydef('Own%d' % k, uid(k + 5000), None, self.A(st), True)
        head = [str(x) for x in self.md.lookup_typedef('ContainerDefinitionWeakReference').target_set_path]
        self.targets.append((str(c.auid), tuple(head[:2]) + (str(p.auid),)))

    def prop(self, k, seed, c=None):
        rng = random.Random(seed + 1)
        known = [w[1:] for w in self.want if w[0] == 'T']
        for j in range(rng.choice([1, 2, 4])):
            cc = c or (rng.choice(self.classes) if self.classes and rng.random() < .8 else self.md.lookup_classdef(rng.choice(PARENTS + ['Sequence', 'Mob', 'InterchangeObject'])))
            if known and rng.random() < .85:
                ta = rng.choice(known)
            else:
                ta = self.auid(rng.choice(INTS + ['aafString', 'Rational', 'AUIDArray' if self.md.lookup_typedef('AUIDArray') else 'aafString']))
            a = uid(6000 + 10 * k + j)
            name = '%s%d.%d' % (rng.choice(NICE), k, j)
            typ = self.md.lookup_typedef(self.A(ta))
            p = cc.register_propertydef(name, a, None, rng.choice([typ.auid, typ.type_name]), True, False)
            w = self.want.get('C' + str(cc.auid))
            if isinstance(w, list):
                w[3][str(a)] = (name, ta, p.pid)

    def kit(self, k, seed):
        """a definition class with its place in the dictionary and a class with every kind of property"""
        c = self.md.register_classdef('Kit%s%d' % (self.salt, k), uid(k), 'DefinitionObject', True)
        self.classes.append(c)
        self.want['C' + str(uid(k))] = [c.class_name, str(c.parent_id), True, {}]
        self.target(k, c)
        n = self.md.register_classdef('Kit 2%s%d' % (self.salt, k), uid(k + 1), 'InterchangeObject', True)
        self.classes.append(n)
        self.by.setdefault('strongrefs', []).append(str(uid(k + 3000)))
        self.want['C' + str(uid(k + 1))] = [n.class_name, str(n.parent_id), True, {}]
        for j, cat in enumerate(['weakrefs', 'vectors', 'strongsets', 'weakvecs', 'weaksets', 'streams', 'indirects', 'enums', 'extenums', 'strongrefs']):
            x = 20000 + 100 * k + j
            self.type(x, cat, seed + j)
            if ('T' + str(uid(x))) in self.want:
                p = n.register_propertydef('Kit%d' % j, uid(30000 + 100 * k + j), None, uid(x), True)
                self.want['C' + str(uid(k + 1))][3][str(p.auid)] = (p.property_name, str(uid(x)), p.pid)

    def element_(self, seed):
        rng = random.Random(seed)
        t = self.t('enums', rng, 'extenums')
        if t is None:
            return
        t = self.md.lookup_typedef(self.A(t))
        w = list(self.want['T' + str(t.auid)])
        el = dict(w[2])
        if type(t).__name__ == 'TypeDefEnum':
            v = rng.randrange(100, 200)
            name = 'more %d' % v
        else:
            v = uid(900000 + rng.randrange(1000))
            name = 'more %s' % v
        known = rng.randrange(4) if el else 0
        if known == 1:
            # its value has a name
            v = rng.choice(sorted(t.elements))
        elif known == 2:
            # its name has a value
            name = rng.choice(sorted(t.elements.values()))
        t.register_element(name, v)
        if known == 2 and name in el.values():
            # whether the second value of a name is kept is open
            more = dict((str(a), b) for a, b in t.elements.items())
            if str(v) in more:
                el.setdefault(str(v), more[str(v)])
        else:
            el.setdefault(str(v), name)
        w[2] = tuple(sorted(el.items()))
        self.want['T' + str(t.auid)] = tuple(w)

    def step(self, op):
        if op[0] == 'type':
            self.type(*op[1:])
        elif op[0] == 'class':
            self.cls(*op[1:])
        elif op[0] == 'prop':
            self.prop(op[1] + 2000, op[2])
        elif op[0] == 'kit':
            self.kit(*op[1:])
        else:
            self.element_(op[1])

    def right(self, f, pids=True):
        have = defs(f)
        for k, w in sorted(self.want.items()):
            g = have.get(k)
            if g is None:
                return 'definition %s %r is gone' % (k, w[:2])
            if isinstance(w, list):
                g2 = [g[0], g[1], g[2], dict((p[0], (p[1], p[2], p[5])) for p in g[3])]
                if g2 != w:
                    return 'class %r became %r' % (w, g2)
            elif g != w:
                return 'type %r became %r' % (w, g)
        return found(f)


def gen_defs(rng, i):
    ops = gen_ops(rng, rng.choice([3, 8, 16]))
    for _ in range(rng.randrange(3)):
        ops.insert(rng.randrange(len(ops) + 1), ['reopen'])
    return dict(ops=ops, ext=rng.random() < .3)


def check_defs(inp):
    plain()
    with AafFiles() as files:
        f = files.open('a.aaf', 'wb+', extensions=inp['ext'])
        g = Reg(f)
        for op in list(inp['ops']) + [['reopen'], ['reopen']]:
            if op[0] == 'reopen':
                base = defs(f)
                f.close()
                f = files.open('a.aaf', 'rb', extensions=inp['ext'])
                r = g.right(f) or differ(base, defs(f), 'read only')
                f.close()
                if r:
                    return 'after reopening read only: ' + r
                f = files.open('a.aaf', 'rb+', extensions=inp['ext'])
                r = g.right(f) or differ(base, defs(f), 'reopened')
                if r:
                    return 'after reopening: ' + r
                n = Reg(f)
                n.by, n.want, n.targets, n.classes = g.by, g.want, g.targets, [f.metadict.lookup_classdef(c.auid) for c in g.classes]
                g = n
                continue
            before = defs(f)
            g.step(op)
            after = defs(f)
            for k, w in before.items():
                if after.get(k) == w:
                    continue
                if k[0] == 'T' and op[0] == 'element' and k in g.want:
                    continue
                if k[0] == 'C' and after[k][:3] == w[:3] and set(w[3]) <= set(after[k][3]):
                    continue
                return '%s: existing definition %r became %r' % (op, w, after.get(k))
            r = g.right(f)
            if r:
                return '%s: %s' % (op, r)
    return None


def shrink(inp):
    for o in drop_chunks(inp['ops']):
        yield dict(inp, ops=o)


def run_defs(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_defs, check_defs, 60, 3000, tlimit=60, shrink=shrink)


# ---------------------------------------------------------------- copying
def value_for(t, rng, depth=0):
    """a value of a type, or None"""
    from aaf2 import types as T
    n = type(t)
    if n is T.TypeDefInt:
        b = 8 * t.size
        lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if t.signed else (0, (1 << b) - 1)
        return rng.choice([lo, hi, 0, rng.randrange(lo, hi + 1)])
    if n is T.TypeDefEnum or n is T.TypeDefExtEnum:
        return rng.choice(sorted(t.elements.values())) if t.type_name != 'Boolean' else True
    if n is T.TypeDefRename:
        return value_for(t.renamed_typedef, rng, depth)
    if n is T.TypeDefRecord:
        if str(t.auid)[:4] not in str(uid(0)):
            return None
        r = dict((k, value_for(m, rng, depth + 1)) for k, m in zip(t.member_names, t.member_types))
        return None if None in r.values() else r
    if n is T.TypeDefFixedArray or n is T.TypeDefVarArray:
        k = t.size if n is T.TypeDefFixedArray else rng.choice([0, 1, 3])
        if t.element_typedef.store_format != 0x82:
            return None
        r = [value_for(t.element_typedef, rng, depth + 1) for _ in range(k)]
        return None if None in r else r
    if n is T.TypeDefSet:
        r = [value_for(t.element_typedef, rng, depth + 1) for _ in range(3)]
        return None if None in r or isinstance(r[0], (dict, list)) else set(r)
    if n is T.TypeDefString and t.element_typedef.type_name.lower().endswith('character'):
        return rng.choice(['', 'text', u'\u4e2d' * 300, 'a\tb'])
    return None


class Objects(object):
    """objects of own and standard classes in a file"""

    def __init__(self, g, rng):
        self.g, self.f, self.rng, self.n, self.budget = g, g.f, rng, 0, 25

    def new(self, c):
        from aaf2 import core
        o = core.AAFObject.__new__(core.AAFObject)
        o.root, o.class_id = self.f, c.auid
        return o

    def of(self, c, depth):
        """an object of a class or of one below it"""
        rng = self.rng
        own = [x for x in self.g.classes if c.isinstance(x)]
        self.budget -= 1
        if own and (rng.random() < .8 or any(x.auid == c.auid for x in own)):
            return self.fill(self.new(rng.choice(own)), depth)
        if c.class_name in ('Component', 'InterchangeObject', 'Segment'):
            return self.segment(depth)
        return None

    def segment(self, depth=0):
        f, rng = self.f, self.rng
        k = rng.randrange(6) if depth < 3 else 0
        if k == 1:
            s = f.create.Sequence(media_kind='picture')
            for _ in range(rng.choice([0, 1, 3])):
                s.components.append(self.segment(depth + 1))
            return s
        if k == 2:
            return f.create.SourceClip(start=rng.randrange(50), length=rng.randrange(90), mob_id=None, slot_id=1, media_kind='sound')
        if k == 3:
            op = self.opdef()
            og = f.create.OperationGroup(op)
            og.media_kind = 'picture'
            og.length = rng.randrange(9)
            for _ in range(rng.choice([0, 2])):
                og.segments.append(self.segment(depth + 1))
            return og
        if k == 4:
            s = f.create.Selector(media_kind='picture')
            s['Selected'].value = self.segment(depth + 1)
            return s
        if k == 5:
            o = f.create.Filler('picture', 3)
            for i in range(rng.choice([0, 1, 3])):
                own = self.g.t('ints', rng)
                v = rng.choice([('n%d' % i, 'text', None), ('n%d' % i, 7, None)] + ([('n%d' % i, 1, self.g.A(own))] if own else []))
                t = f.create.TaggedValue(*v)
                o['UserComments' if i % 2 or 'ComponentAttributeList' not in o.allkeys() else 'ComponentAttributeList'].append(t)
            return o
        return f.create.Filler('picture', rng.randrange(1000))

    def opdef(self):
        f, rng = self.f, self.rng
        self.n += 1
        k = rng.randrange(4)
        op = f.dictionary['OperationDefinitions'].get(uid(700000 + k)) if 'OperationDefinitions' in f.dictionary else None
        if op is None:
            op = f.create.OperationDef(uid(700000 + k), 'Op%d' % k, 'described')
            op.media_kind = 'picture'
            op['IsTimeWarp'].value = False
            op['NumberInputs'].value = k
            op['OperationCategory'].value = 'OperationCategory_Effect'
            f.dictionary.register_def(op)
            for j in range(k % 3):
                typ = f.metadict.lookup_typedef('aafInt32' if j else 'Rational')
                p = f.create.ParameterDef(uid(710000 + 10 * k + j), 'Par%d' % j, '', typ)
                f.dictionary.register_def(p)
                op.parameters.append(p)
        return op

    def definition(self, c, cset):
        """one of the own definitions of a class in the dictionary"""
        rng = self.rng
        p = self.f.dictionary[cset]
        if len(p) and rng.random() < .5:
            return rng.choice(list(p.value))
        d = self.new(c)
        self.n += 1
        d['Identification'].value = uid(800000 + self.n)
        d['Name'].value = 'Def%d' % self.n
        p.append(d)
        return d

    def fill(self, o, depth=0):
        from aaf2 import properties as R, types as T
        rng = self.rng
        for p in list(o.classdef.all_propertydefs()):
            if str(p.auid)[:4] not in str(uid(0)) or rng.random() < .15:
                if p.property_name == 'Identification' and p.unique:
                    self.n += 1
                    o['Identification'].value = uid(800000 + self.n)
                elif p.property_name == 'Name' and o.classdef.isinstance and 'Identification' in o.allkeys():
                    o['Name'].value = 'named'
                continue
            t, q = p.typedef, o[p.property_name]
            if q.pid != p.pid:
                continue
            k = type(q)
            deep = depth < 2 and self.budget > 0
            if k is R.StrongRefProperty:
                v = self.of(t.ref_classdef, depth + 1) if deep else None
                if v is not None:
                    q.value = v
            elif k is R.StrongRefVectorProperty:
                v = [self.of(t.ref_classdef, depth + 1) for _ in range(rng.choice([0, 1, 3]))] if deep else []
                q.value = [x for x in v if x is not None]
                if len(v) == 3 and len(q) == 3:
                    q.pop(rng.randrange(3))
            elif k is R.StrongRefSetProperty:
                v = [self.of(t.ref_classdef, depth + 1) for _ in range(rng.choice([0, 1, 3]))] if deep else []
                q.value = [x for x in v if x is not None]
            elif isinstance(q, (R.WeakRefProperty, R.WeakRefArrayProperty)):
                w = t if type(t) is T.TypeDefWeakRef else t.element_typedef
                one = lambda: self.target(w)
                if isinstance(q, R.WeakRefProperty):
                    q.value = one()
                else:
                    q.value = list(dict((x.unique_key, x) for x in [one() for _ in range(rng.choice([0, 1, 3]))]).values())
            elif k is R.StreamProperty:
                q.open('w').write(bytes(rng.randrange(256) for _ in range(rng.choice([0, 10, 5000]))))
            elif type(t) is T.TypeDefIndirect:
                own = [x for x in self.g.by.get('ints', []) + self.g.by.get('records', []) + self.g.by.get('enums', []) + self.g.by.get('renames', [])]
                typ = self.f.metadict.lookup_typedef(self.g.A(rng.choice(own))) if own else self.f.metadict.lookup_typedef('aafInt32')
                v = value_for(typ, rng)
                if v is not None:
                    q.data = t.encode(v, typ)
                    q.add_pid_entry()
            elif k is R.Property:
                v = value_for(t, rng)
                if v is not None:
                    q.value = v
        return o

    def target(self, w):
        path = [str(a) for a in w.target_set_path]
        c = w.ref_classdef
        if c.class_name == 'ContainerDefinition':
            return self.rng.choice(list(self.f.dictionary['ContainerDefinitions'].value))
        return self.definition(c, self.f.metadict.lookup_classdef('Dictionary').lookup_propertydef(self.g.A(path[-1])).property_name)


def holder(f):
    """the place the objects of a case are kept in"""
    md = f.metadict
    if md.lookup_typedef('OwnRef') is None:
        md.register_typedef_model({'strongrefs': {'OwnRef': (str(uid(1)), str(md.lookup_classdef('InterchangeObject').auid))}})
        md.register_typedef_model({'var_arrays': {'OwnRefs': (str(uid(2)), str(uid(1)))}})
        md.lookup_classdef('ContentStorage').register_propertydef('OwnObjects', uid(3), None, uid(2), True)
    return f.content['OwnObjects']


def gen_copy(rng, i):
    return dict(ops=[[o[0]] + [o[1] + 10 if o[0] != 'element' else o[1]] + o[2:] for o in gen_ops(rng, rng.choice([4, 10, 16]))],
                other=[[o[0]] + [o[1] + 40 if o[0] != 'element' else o[1]] + o[2:] for o in gen_ops(rng, rng.choice([0, 3, 6]))],
                share=rng.choice([0, 0, 0, 2, 5, 9]), first=rng.choice([0, 0, 0, 1, 1, 2, 3, 4]), seed=rng.randrange(1 << 30), count=rng.choice([1, 2, 4]),
                within=rng.random() < .35, reopen=rng.random() < .5, ext=rng.random() < .2)


def lax(f):
    """own objects do not have every required property"""
    from aaf2 import core
    core.AAFObject.validate = lambda self: None


def used(o, acc):
    """classes of an object graph"""
    from aaf2 import properties as R
    for item, streams in o.walk_references():
        for c in item.classdef.relatives():
            acc[str(c.auid)] = c
    return acc


def check_copy(inp):
    plain()
    from aaf2 import core
    real = core.AAFObject.validate
    core.AAFObject.validate = lambda self: None
    try:
        with AafFiles() as files:
            return copying(files, inp)
    finally:
        core.AAFObject.validate = real


def edit(o, rng):
    """changes everything an object owns"""
    from aaf2 import properties as R
    for p in list(o.property_entries.values()):
        if isinstance(p, R.StrongRefProperty):
            edit(p.value, rng)
        elif isinstance(p, R.StrongRefVectorProperty):
            for x in list(p.value):
                edit(x, rng)
            if len(p):
                p.pop(rng.randrange(len(p)))
        elif isinstance(p, R.StrongRefSetProperty):
            for x in list(p.value):
                edit(x, rng)
            if len(p):
                p.pop(rng.choice(sorted(p.references)))
        elif isinstance(p, R.WeakRefArrayProperty):
            if len(p):
                p.append(p.value[0])
        elif isinstance(p, R.StreamProperty):
            p.open('w').write(b'edited')
        elif type(p) is R.Property and p.propertydef.property_name in ('Length', 'Name', 'NumberInputs'):
            p.value = 'edited' if p.propertydef.property_name == 'Name' else 77
    for p in list(o.property_entries.values()):
        if rng.random() < .3:
            p.remove_pid_entry()


def copying(files, inp):
    rng = random.Random(inp['seed'])
    a = files.open('a.aaf', 'wb+', extensions=inp['ext'])
    ga = Reg(a)
    for op in inp['ops']:
        ga.step(op)
    ob = Objects(ga, rng)
    mine = holder(a)
    objs = []
    for k in range(inp['count']):
        cs = [c for c in ga.classes]
        o = ob.fill(ob.new(rng.choice(cs))) if cs and rng.random() < .8 else ob.segment()
        objs.append(o)
    mine.value = objs
    if inp['reopen']:
        a.close()
        a = files.open('a.aaf', 'rb+' if inp['within'] else 'rb', extensions=inp['ext'])
        objs = list(a.content['OwnObjects'].value)
    refs = {}
    before, d0 = [sig(o, refs) for o in objs], defs(a)
    if inp['within']:
        b, copies = a, [o.copy() for o in objs]
        have = {}
        old = d0
    else:
        b = files.open('b.aaf', 'wb+', extensions=inp['ext'] if 0 < inp['first'] < 4 else not inp['ext'])
        gb = Reg(b)
        if inp['first']:
            # the shared definitions get other dynamic ids there
            go = Reg(b, 'o')
            for op in inp['other'] if inp['first'] > 3 else ():
                go.step(op)
            for j in range(inp['first']):
                b.metadict.lookup_classdef('ContentStorage').register_propertydef('OwnFirst%d' % j, uid(90 + j), None, b.metadict.lookup_typedef('aafInt32').auid, True)
        for op in inp['ops'][:inp['share']]:
            gb.step(op)
        if not inp['first']:
            gb.salt = 'o'
            for op in inp['other']:
                gb.step(op)
        holder(b)
        old = defs(b)
        copies = [o.copy(root=b) for o in objs]
    for o, c, s in zip(objs, copies, before):
        if c is o or c.dir is not None or c.root is not b:
            return 'the copy is not a new object of the file'
        r = differ(s, sig(o), '') or (defs(a) != d0 and not inp['within'] and differ(d0, defs(a)))
        if r:
            return 'copying changed the source: ' + r
        r = differ(s, sig(c), '')
        if r:
            return 'the copy differs: ' + r
    if inp['within']:
        for o, s in zip(objs, before):
            edit(o.copy(), rng)
            r = differ(s, sig(o), '')
            if r:
                return 'editing the copy changed the source: ' + r
    holder(b)
    for c in copies:
        b.content['OwnObjects'].append(c)
    for stage in ('before saving', 'after reopening'):
        n = len(objs) if inp['within'] else 0
        got = list(b.content['OwnObjects'].value)
        if len(got) != n + len(copies):
            return '%s: %d objects' % (stage, len(got))
        refs2 = {}
        for k, s in enumerate(before):
            r = differ(s, sig(got[n + k], refs2), '') or (n and differ(s, sig(got[k]), ''))
            if r:
                return '%s the copy differs: %s' % (stage, r)
        if set(refs2) != set(refs):
            return '%s: references %s' % (stage, set(refs2) ^ set(refs))
        now = defs(b)
        for k, w in old.items():
            g = now.get(k)
            if g == w or (k[0] == 'C' and g[:3] == w[:3] and set(w[3]) <= set(g[3])) or (k[0] == 'T' and 'Enum' in w[0] and g[:2] == w[:2] and set(w[2]) <= set(g[2])):
                continue
            return '%s: existing definition %r became %r' % (stage, w, g)
        r = found(b)
        if r:
            return '%s: %s' % (stage, r)
        if not inp['within']:
            r = brought(objs, refs, refs2, b, now)
            if r:
                return '%s: %s' % (stage, r)
        if stage == 'before saving':
            b.close()
            if not inp['within']:
                a.close()
            b = files.open('a.aaf' if inp['within'] else 'b.aaf', rng.choice(['rb', 'rb+']), extensions=rng.random() < .5)
            if not inp['within']:
                a = files.open('a.aaf', 'rb', extensions=inp['ext'])
                objs = list(a.content['OwnObjects'].value)
                refs = {}
                r = differ(before, [sig(o, refs) for o in objs])
                if r:
                    return 'the source file changed: ' + r
    return None


def brought(objs, refs, refs2, b, now):
    """definitions and referenced objects which came along"""
    acc, todo = {}, list(objs)
    done = {}
    for k in refs:
        x, y = refs[k], refs2[k]
        if x.classdef.class_name in ('ClassDefinition', 'PropertyDefinition') or 'TypeDefinition' in x.classdef.class_name:
            continue
        if str(x.unique_key)[:4] in str(uid(0)):
            r = differ(sig(x), sig(y))
            if r:
                return 'what %s refers to differs: %s' % (k, r)
            todo.append(x)
    for o in todo:
        used(o, acc)
    types = {}
    for k, c in acc.items():
        g = now.get('C' + k)
        w = class_sig(c, False)
        if g is None or g[:3] != w[:3] or not set(w[3]) <= set(p[:5] for p in g[3]):
            return 'class %r became %r' % (w, g)
        for p in c.propertydefs:
            gather(p.typedef, types)
    for k, t in types.items():
        w, g = type_sig(t), now.get('T' + k)
        if g != w and not (g is not None and 'Enum' in w[0] and set(w[2]) <= set(g[2]) and w[:2] == g[:2]):
            return 'type %r became %r' % (w, g)
    return None


def gather(t, acc):
    from aaf2 import types as T
    if t is None or str(t.auid) in acc:
        return
    acc[str(t.auid)] = t
    if isinstance(t, T.TypeDefRecord):
        for m in t.member_types:
            gather(m, acc)
    elif isinstance(t, T.TypeDefRename):
        gather(t.renamed_typedef, acc)
    elif hasattr(t, 'element_typedef'):
        gather(t.element_typedef, acc)


def run_copy(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_copy, check_copy, 80, 4000, tlimit=60, shrink=shrink)


# ================================================================ deductive part
class NoClass(Exception):
    pass


def two_roots(P, same):
    """the file copied from and the file copied to"""
    class Root(object):
        mode = 'rb+'
        log = None
    a = Root()
    a.log = []
    if same:
        return a, a
    b = Root()
    b.log = []
    return a, b


class PCopy(LoopSpec):
    """every property is copied"""
    name = 'properties'
    fn = 'AAFObject.copy'

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None
    def iteration(self, L, g): self.at = L.idx; del self.h['log'][:]

    def next(self, L, g, env):
        self.h['judge'](self.at, list(self.h['log']))
        ctx().cover('property')
        return g


def copying_objects(P):
    """any number of properties with any ids; within a file or into another one, class known or not"""
    from pydv import loops
    same, generic, with_dir, cached = [bool(ctx().choose(2)) for _ in range(4)]
    n = fresh_int('n', 0)
    pid = UF('pid', 1, 1, 0xFFFF)
    there = UF('pid there', 1, 0x8000, 0xFFFF)
    a, b = two_roots(P, same)
    h = dict(log=[])
    reg = []
    C_ = type('Cls', (object,), {})
    cdef = C_()
    cdef.auid = 'class id'

    class There(object):
        """the class in the file copied to"""
        def lookup_propertydef(s, x):
            prove(same is False, 'ids are only looked up for another file')
            prove(isinstance(x, tuple) and x[0] == 'prop', 'by the id of the property')
            prove(len(reg) == 1 or cached, 'after the class was registered')
            d = C_()
            d.pid, d.auid = there(x[1]), x
            return d

    class Meta(object):
        def register_external_classdef(s, c):
            prove(c is cdef, 'the class of the object')
            reg.append(c)
            return 'registered'
    a.metadict = b.metadict = Meta()
    a.cfb, b.cfb = object(), object()

    class Prop(object):
        def __init__(s, k): s.k = k

        @property
        def propertydef(s):
            d = C_()
            d.auid = ('prop', s.k)
            return d

        def copy(s, parent, p, cache=None):
            h['log'].append(('copy', s.k, parent, p, cache))
            return ('copy of', s.k)

    class Into(object):
        def __setitem__(s, k, v): h['log'].append(('put', s.owner, k, v))

    class From(object):
        def items(s): return type('V', (), dict(pv_lazy=lambda x: mk('list', n=n, f=lambda k: (pid(k), Prop(k)))))()
        def values(s): return type('V', (), dict(pv_lazy=lambda x: mk('list', n=n, f=lambda k: Prop(k))))()

        def __getitem__(s, p):
            raise Unsupported('lookup of a property')
    made = []

    def fresh(cls, *x, **k):
        o = object.__new__(cls)
        o.root, o.dir = None, None
        o.property_entries = Into()
        o.property_entries.owner = o
        made.append(o)
        return o
    K = type('K', (P.core.AAFObject,), dict(__new__=fresh, classdef=property(lambda s: cdef if s.root is a and s is src else There()), __slots__=('class_id', 'root', 'dir', 'property_entries')))
    src = object.__new__(K)
    src.root, src.dir, src.class_id, src.property_entries = a, object(), 'class id', From()
    if generic:
        P.core.AAFObject = K
    else:
        K.class_id = 'class id'
    d = None
    if with_dir:
        d = C_()
        d.storage, d.class_id = b.cfb, None

    def judge(k, log):
        p = pid(k)
        want = p if same else ite(p >= 0x8000, there(k), p)
        prove(len(log) == 2 and log[0][0] == 'copy' and log[1][0] == 'put', 'each property is copied and kept, once')
        c, s = log
        prove(val_eq(c[1], k) and c[2] is made[0], 'the property itself, for the new object')
        prove(val_eq(c[3], want), 'with the id it has there')
        prove(s[1] is made[0] and val_eq(s[2], want) and s[3][0] == 'copy of' and val_eq(s[3][1], k), 'the copy is found by that id')
        prove(same or 'class id' in c[4], 'the class is not registered again for what it owns')
    h['judge'] = judge
    loops.ACTIVE[:] = [[PCopy(h)]]
    ctx().cover('entry')
    given = PvSet() if False else set(['class id'] if cached else ['another'])
    r = src.copy(d, None if same and ctx().choose(2) else b, given)
    prove(len(made) == 1 and r is made[0] and r is not src and type(r) is K, 'a new object of the same class')
    prove(r.root is b and r.dir is d and r.class_id == 'class id', 'in the right file, not attached anywhere else')
    prove(d is None or d.class_id == 'class id', 'its folder has the class id')
    prove(len(reg) == (0 if same or cached else 1), 'its class is registered in another file, once')
    prove(src.root is a and src.class_id == 'class id' and isinstance(src.property_entries, From), 'the source is as it was')
    ctx().cover('done')


def prop_pair(P, cls, same, base=None, **k):
    """a property and the place of its copy"""
    a, b = two_roots(P, same)
    made = []
    R = P.properties
    S = type('S', (getattr(R, cls),), dict(k, __slots__=('x',)))
    s = S.__new__(S)

    class O(object):
        dir = None
    pa, pb = O(), O()
    pa.root, pb.root = a, b
    s.parent, s.pid, s.format, s.version, s._propertydef, s.data = pa, fresh_int('pid', 1, 0xFFFF), 0x82, 0x20, None, None
    return a, b, s, pb


def raw(s):
    s.data = mk('bytes', n=fresh_int('length', 1), f=UF('cell', 1, 0, 255))


def same_data(p, s):
    d, e = seqof(p.data), seqof(s.data)
    prove(d.length() == e.length(), 'stored the same way: length')
    j = fresh_int('j', 0)
    assume(j < e.length())
    prove(val_eq(d.at(j), e.at(j)), 'stored the same way: every byte')


def like(P, s, p, pb, pid):
    prove(type(p) is type(s) and p is not s, 'a property of the same kind')
    prove(p.parent is pb and val_eq(p.pid, pid) and p.format == s.format, 'of the new owner, under its id, in the same format')


def copying_data(P):
    same, kind = bool(ctx().choose(2)), ctx().choose(4)
    typ = ('type of the value',)

    class Plain(object): pass

    class Ind(object):
        def decode_typedef(s, d):
            prove(seqof(d).length() == n, 'the type of this value')
            return typ
    td = [Plain(), Ind(), Ind(), None][kind]
    a, b, s, pb = prop_pair(P, 'Property', same, typedef=property(lambda x: td if x is s else None))
    reg = []

    class Meta(object):
        def register_external_typedef(m, t): reg.append(t)
    b.metadict = Meta()
    n = fresh_int('n', 1)
    f = UF('cell', 1, 0, 255)
    data = mk('bytes', n=n, f=f)
    if kind == 1:
        assume(val_eq(f(0), 0x4c))
    s.data = data
    pid = fresh_int('new pid', 1, 0xFFFF)
    ctx().cover('entry')
    p = s.copy(pb, pid) if ctx().choose(2) else s.copy(pb, pid, set())
    like(P, s, p, pb, pid)
    prove(val_eq(seqof(p.data).length(), n), 'all bytes')
    j = fresh_int('j', 0)
    assume(j < n)
    prove(val_eq(seqof(p.data).at(j), f(j)), 'the same bytes')
    prove(s.data is data, 'the source is as it was')
    if kind == 1 and not same:
        ctx().cover('indirect')
        prove(reg == [typ], 'the type named in the value is brought along')
    if same or kind in (0, 3):
        prove(reg == [], 'nothing is registered without need')


class SCopy(LoopSpec):
    """what was read so far was written"""
    name = 'chunks'
    fn = 'StreamProperty.copy'

    def __init__(self, h): self.h = h
    def fresh(self, L): return dict(pos=fresh_int('pos'))
    def ghost0(self, L, env): return dict(pos=0)
    def constraint(self, L, g): return [g['pos'] >= 0, g['pos'] <= self.h['size']]
    def state(self, L, g): return {'byte_size': self.h['size'] - g['pos'], (self.h['a'], 'pos'): g['pos'], (self.h['b'], 'pos'): g['pos']}
    def next(self, L, g, env): return dict(pos=self.h['a'].pos)
    def measure(self, L, g): return self.h['size'] - g['pos']


def copying_streams(P):
    """a stream of any length: all of it, in order"""
    from pydv import loops
    same = bool(ctx().choose(2))
    size, unit = fresh_int('size', 0), fresh_int('unit', 1)
    h = dict(size=size)

    class In(object):
        pos = 0

        class dir(object): byte_size = size

        def read(s, n=-1):
            prove(n >= 0, 'a part')
            k = ite(n < size - s.pos, n, size - s.pos)
            r = Blob(('part', s.pos), k)
            s.pos = s.pos + k
            return r

    class Out_(object):
        pos = 0

        def write(s, d):
            prove(isinstance(d, Blob) and val_eq(d.tag[1], s.pos), 'each part behind the one before')
            s.pos = s.pos + d.n
    h['a'], h['b'] = In(), Out_()

    def op(s, mode='r'):
        if s is src:
            prove(mode == 'r', 'the source is only read')
            return h['a']
        prove('w' in mode, 'the copy is written')
        return h['b']
    a, b, src, pb = prop_pair(P, 'StreamProperty', same, open=op, typedef=None)
    a.cfb = type('F', (), dict(sector_size=unit))()
    src.data, src.stream_name, src.dir = mk('bytes', n=fresh_int('n', 1), f=UF('cell', 1, 0, 255)), 'stream', None
    pid = fresh_int('new pid', 1, 0xFFFF)
    loops.ACTIVE[:] = [[SCopy(h)]]
    ctx().cover('entry')
    p = src.copy(pb, pid, set())
    like(P, src, p, pb, pid)
    prove(val_eq(h['b'].pos, size), 'the whole stream is written')
    ctx().cover('done')


def copying_owned(P):
    same, at = bool(ctx().choose(2)), ctx().choose(3)
    calls = []

    class V(object):
        def copy(o, new_dir=None, root=None, classdef_cache=None):
            calls.append((new_dir, root, classdef_cache))
            return copied
    copied, v = object(), V()
    put = []
    R = P.properties.StrongRefProperty

    def setval(x, y): put.append((x, 'value', y))
    def setobj(x, y): put.append((x, 'object', y))
    a, b, s, pb = prop_pair(P, 'StrongRefProperty', same, value=property(lambda x: v, setval), object=property(lambda x: None, setobj), typedef=None)
    name = ('member name',)

    class Dir(object):
        def get(d, n, default=None):
            prove(n is name, 'by the name it has')
            return 'there' if at == 1 else None

        def makedir(d, n):
            prove(n is name, 'by the name it has')
            return 'made'
    if at and same:
        pb.dir = Dir()
    s.ref, s.data = name, mk('bytes', n=fresh_int('n', 1), f=UF('cell', 1, 0, 255))
    s.objectref = None
    pid, cache = fresh_int('new pid', 1, 0xFFFF), set(['x'])
    ctx().cover('entry')
    p = s.copy(pb, pid, cache)
    like(P, s, p, pb, pid)
    prove(len(calls) == 1 and len(put) == 1 and put[0][0] is p and put[0][2] is copied, 'the owned object is copied, once, and owned by the copy')
    if same:
        ctx().cover('within')
        prove(p.ref is name, 'under the same name')
        prove(calls[0][0] == [None, 'there', 'made'][at] and calls[0][1] in (None, a), 'within the file')
        same_data(p, s)
    else:
        ctx().cover('other')
        prove(calls[0][1] is b and calls[0][0] is None and calls[0][2] is cache, 'into the other file')
        prove(put[0][1] == 'value', 'as its value')
    prove(s.ref is name and s.parent.root is a, 'the source is as it was')


class VEach(LoopSpec):
    """each member has its copy at its place"""
    name = 'members'
    fn = 'StrongRefVectorProperty.copy'
    enum = True

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None
    def iteration(self, L, g): self.at = L.idx; del self.h['log'][:]

    def next(self, L, g, env):
        self.h['judge'](self.at, list(self.h['log']))
        ctx().cover('member')
        return g


class SEach(VEach):
    fn = 'StrongRefSetProperty.copy'


def member_dir(h, at):
    class Dir(object):
        def get(d, nm, default=None):
            h['log'].append(('get', nm))
            return ('there', nm) if at == 1 else None

        def makedir(d, nm):
            h['log'].append(('make', nm))
            return ('made', nm)
    return Dir()


def copying_vectors(cls):
    """any number of members"""
    is_set = 'Set' in cls

    def body(P):
        from pydv import loops
        same, at = bool(ctx().choose(2)), ctx().choose(3)
        n = fresh_int('n', 0)
        ref = UF('ref', 1, 0)
        h = dict(log=[])

        class Ob_(object):
            def __init__(o, k): o.k = k

            def copy(o, new_dir=None, root=None, classdef_cache=None):
                h['log'].append(('copy', o.k, new_dir, root, classdef_cache))
                return ('copy of', o.k)

        def members(s): return mk('list', n=n, f=lambda k: Ob_(k))

        def keyed(s): return type('V', (), dict(pv_lazy=lambda x: mk('list', n=n, f=lambda k: (('key', k), Ob_(k)))))()
        got = []

        def extend(p, vs):
            vs = vs.pv_lazy() if hasattr(vs, 'pv_lazy') else vs
            got.append((p, vs))
        k = dict(extend=extend, append=lambda p, v: h['log'].append(('append', p, v)), index_ref_name=lambda p, i: ('name', i), typedef=None)
        if is_set:
            k.update(items=keyed, values=lambda s: type('V', (), dict(pv_lazy=lambda x: members(s)))(), pv_lazy=members)
        else:
            k.update(pv_lazy=members)
        a, b, s, pb = prop_pair(P, cls, same, **k)
        P.properties.weakref = P13.Weak
        if at and same:
            pb.dir = member_dir(h, at)
        raw(s)
        nfk, lfk = fresh_int('next', 0), fresh_int('last', 0)
        s.next_free_key, s.last_free_key = nfk, lfk
        if is_set:
            from specs.aafsym import LMap
            s.references = mk_refs = LMap(UF('has', 1, boolean=True), ref)
            P.properties.__dict__['dict'] = lambda *x: x[0].pv_copy() if x and hasattr(x[0], 'pv_copy') else dict(*x)
            s.key_pid, s.key_size, s.index_name = 5, 16, 'the index'
        else:
            s.references = mk_refs = mk('list', n=n, f=ref)
            s._index_name = 'the index'
        pid, cache = fresh_int('new pid', 1, 0xFFFF), set(['x'])
        kept = []

        class Kept(object):
            def __setitem__(o, k, v): h['log'].append(('keep', k, v))
        base = P.properties.Property.copy

        def judge(i, log):
            key = ('key', i) if is_set else i
            kp = [x for x in log if x[0] == 'keep']
            cp = [x for x in log if x[0] == 'copy']
            prove(len(cp) == 1 and val_eq(cp[0][1], i) and cp[0][3] in (None, a), 'each member is copied, once, within the file')
            prove(len(kp) == 1 and val_eq(kp[0][2][1], i), 'its copy is kept')
            prove(val_eq(kp[0][1][1], i) if is_set else val_eq(kp[0][1], i), 'at its place')
            if at == 0:
                prove(cp[0][2] is None, 'without a folder when the owner has none')
            else:
                nm = cp[0][2]
                prove(nm is not None and nm[0] == ['', 'there', 'made'][at], 'in a folder of the owner')
                nk = nm[1][1]
                prove(val_eq(nk[1] if is_set else nk, i), 'under the name of its place')
        h['judge'] = judge
        # the cache of the copy, to follow what is kept
        C = type(s)
        init = C.__init__

        def __init__(p, *x, **y):
            init(p, *x, **y)
            p.objects = Kept()
        C.__init__ = __init__
        P.properties.__dict__['__pv_dict__'] = lambda pairs: Kept() if not pairs else dict(pairs)
        loops.ACTIVE[:] = [[(SEach if is_set else VEach)(h)] if same else []]
        ctx().cover('entry')
        p = s.copy(pb, pid, cache)
        like(P, s, p, pb, pid)
        prove(s.references is mk_refs and s.parent.root is a, 'the source is as it was')
        if same:
            ctx().cover('within')
            j = fresh_int('j', 0)
            assume(j < n)
            if is_set:
                prove(val_eq(p.references.val(j), ref(j)) and p.references is not s.references, 'the same names, as a list of its own')
                prove(p.key_pid == 5 and p.key_size == 16 and p.index_name == 'the index', 'the same keys and index')
            else:
                prove(seqof(p.references).length() == n, 'as many members')
                prove(val_eq(seqof(p.references).at(j), ref(j)) and p.references is not s.references, 'the same names, as a list of its own')
                prove(p._index_name == 'the index', 'the same index')
            prove(val_eq(p.next_free_key, nfk) and val_eq(p.last_free_key, lfk), 'new members get free names')
            same_data(p, s)
            prove(got == [], 'members are not added twice')
        else:
            ctx().cover('other')
            prove(len(got) == 1 and got[0][0] is p, 'the copies are added together, also when there are none')
            v = seqof(got[0][1])
            prove(val_eq(v.length(), n), 'as many as members')
            j = fresh_int('j', 0)
            assume(j < n)
            del h['log'][:]
            c = v.at(j)
            prove(c[0] == 'copy of' and val_eq(c[1], j), 'each its copy, in the same order')
            cp = [x for x in h['log'] if x[0] == 'copy']
            prove(len(cp) == 0 or (cp[0][3] is b and cp[0][2] is None and cp[0][4] is cache), 'made for the other file')
    return body


def copying_weak(cls):
    many = 'Array' in cls

    def body(P):
        same = bool(ctx().choose(2))
        n = fresh_int('n', 0)
        asked = []

        def one(src, p, ref, cache):
            asked.append((src, p, ref, cache))
            return ('target', ref)
        P.properties.copy_weakref = one
        put = []
        k = dict(typedef=None)
        k['value'] = property(lambda x: None, lambda x, v: put.append((x, v)))
        a, b, s, pb = prop_pair(P, cls, same, **k)
        raw(s)
        s.weakref_index, s.key_pid, s.key_size = fresh_int('table', 0), 5, 16
        ref = UF('ref', 1, 0)
        if many:
            s.references, s.index_name = mk('list', n=n, f=ref), 'the index'
        else:
            s.ref = ref(0)
        pid, cache = fresh_int('new pid', 1, 0xFFFF), set(['x'])
        ctx().cover('entry')
        p = s.copy(pb, pid, cache)
        like(P, s, p, pb, pid)
        j = fresh_int('j', 0)
        if same:
            ctx().cover('within')
            prove(val_eq(p.weakref_index, s.weakref_index) and p.key_pid == 5 and p.key_size == 16, 'the same kind of reference')
            same_data(p, s)
            prove(put == [] and asked == [], 'nothing is looked up')
            if many:
                assume(j < n)
                prove(p.references is not s.references and seqof(p.references).length() == n and val_eq(seqof(p.references).at(j), ref(j)), 'to the same objects')
                prove(p.index_name == 'the index', 'the same index')
            else:
                prove(val_eq(p.ref, ref(0)), 'to the same object')
        else:
            ctx().cover('other')
            prove(len(put) == 1 and put[0][0] is p, 'what it refers to is set')
            v = put[0][1]
            if many:
                v = seqof(v)
                prove(val_eq(v.length(), n), 'as many')
                assume(j < n)
                v, i = v.at(j), j
            else:
                i = 0
            prove(v[0] == 'target' and val_eq(v[1], ref(i)), 'what each refers to, in order')
            q = asked[-1]
            prove(q[0] is s and q[1] is p and q[3] is cache, 'found or brought there')
    return body


def finding_targets(P):
    """copy_weakref: what a reference means in the other file"""
    kind, known = ctx().choose(3), bool(ctx().choose(2))
    R = P.properties
    ref = fresh_int('ref', 0)
    acts = []

    class Meta(object):
        def lookup_classdef(m, x): acts.append(('class', x)); return ('class there', x) if known else None
        def lookup_typedef(m, x): acts.append(('type', x)); return ('type there', x) if known else None
        def register_external_classdef(m, v): acts.append(('register class', v)); return ('registered', v)
        def register_external_typedef(m, v): acts.append(('register type', v)); return ('registered', v)

    class Target(object):
        def __init__(t): t.added = []

        def pv_contains(t, x):
            prove(val_eq(x, ref), 'the reference')
            return known or bool(t.added)
        def __contains__(t, x): return bool(t.pv_contains(x))

        def append(t, c):
            prove(not known and not t.added, 'added only when missing, once')
            t.added.append(c)

        def __getitem__(t, x):
            prove(val_eq(x, ref), 'the reference')
            return t.added[0] if t.added else 'present'
    target = Target()

    class Root(object):
        metadict = Meta()
        def weakref_index(r, path): prove(path == 'path there', 'the place of the type in that file'); return 7
        def weakref_prop(r, i): prove(i == 7, 'that place'); return None, target
    b = Root()

    class Val_(object):
        def copy(v, new_dir=None, root=None, classdef_cache=None):
            prove(root is b and new_dir is None and classdef_cache is cache, 'into the other file')
            return 'copied'
    val, cache = Val_(), set()

    def resolve(p, r):
        prove(p is src and val_eq(r, ref), 'what it refers to in its own file')
        return val
    R.resolve_weakref = resolve

    class CD(object):
        auid = [R.CLASSDEF_AUID, R.TYPEDEF_AUID, P.auid.AUID(int=12345)][kind]

    class Pr(object): pass
    src, p = Pr(), Pr()
    src.ref_classdef = CD()
    p.parent = Pr()
    p.parent.root = b
    p.pid_path = 'path there'
    ctx().cover('entry')
    r = R.copy_weakref(src, p, ref, cache)
    if kind < 2:
        w = ['class', 'type'][kind]
        if known:
            prove(r[0] == w + ' there' and val_eq(r[1], ref), 'the definition of that file')
            prove([x for x in acts if x[0].startswith('register')] == [], 'nothing is registered')
        else:
            ctx().cover('registered')
            prove(r == ('registered', val) and ('register ' + w, val) in acts, 'a missing definition is registered')
        prove(target.added == [], 'nothing else is added')
    elif known:
        prove(r == 'present' and target.added == [], 'what is there under that key')
    else:
        ctx().cover('brought')
        prove(r == 'copied' and target.added == ['copied'], 'a copy is added there')


# ---------------------------------------------------------------- registering
def classes(P):
    """register_classdef with any name and id: finds or makes the class, keeps the others"""
    md = P.metadict
    how = ctx().choose(3)            # known by name, by id, new
    k = fresh_int('name', 0)
    i = fresh_int('id', 0)
    made, added, props = [], [], []
    AUID = P.auid.AUID

    class Id(AUID):
        def __init__(s, t): s.t = t
        def __eq__(s, o): return isinstance(o, Id) and val_eq(s.t, o.t)
        def __ne__(s, o): return not_(s == o)
        __hash__ = None

    class D(object):
        def __init__(s, root=None, name=None, auid=None, parent=None, concrete=None):
            s.root, s.nm, s.auid, s.parent, s.concrete = root, name, auid, parent, concrete
            s.property_entries = {}
            s.class_name = 'some'
            if root is not None:
                made.append(s)

        def register_propertydef(s, *a): props.append((s,) + a)
    md.ClassDef = D

    class Props(object):
        @staticmethod
        def add2set(o, pid, key, v): added.append((o, pid, key, v))
    md.properties = Props
    old1, old2 = D(auid=Id(fresh_int('id1', 0))), D(auid=Id(fresh_int('id2', 0)))
    n1, n2 = fresh_int('n1', 0), fresh_int('n2', 0)
    assume(and_(n1 != n2, old1.auid.t != old2.auid.t))
    M = type('M', (md.MetaDictionary,), dict(__init__=lambda s: None))
    m = M()
    m.root = object()
    m.local_pids = set()
    m.classdefs_by_name = PvDict()
    m.classdefs_by_auid = PvDict()
    for nm, o in ((n1, old1), (n2, old2)):
        m.classdefs_by_name[nm] = o
        m.classdefs_by_auid[o.auid.t] = o

    class ById(object):
        """by id, as the ids are integers here"""
        def __contains__(s, x): return x.t in m.raw
        def __getitem__(s, x): return m.raw[x.t]
        def __setitem__(s, x, v): m.raw[x.t] = v
        def get(s, x, d=None): return m.raw.get(x.t, d)
    m.raw, m.classdefs_by_auid = m.classdefs_by_auid, ById()
    if how == 0:
        assume(and_(k == n1, i == old1.auid.t))
    elif how == 1:
        assume(and_(k != n1, k != n2, i == old1.auid.t))
    else:
        assume(and_(k != n1, k != n2, i != old1.auid.t, i != old2.auid.t))
    pa = Id(fresh_int('parent', 0))
    defs_ = {'P': ('00000000-0000-0000-0000-000000000007', None, 'aafInt32', True), 'Q': ('00000000-0000-0000-0000-000000000008', 0x20, 'aafInt32', False)} if ctx().choose(2) else None
    ctx().cover('entry')
    r = m.register_classdef(k, Id(i), pa, True, defs_)
    if how < 2:
        ctx().cover('known')
        prove(r is old1 and made == [], 'a known class is the one')
    else:
        ctx().cover('new')
        prove(len(made) == 1 and r is made[0] and r.root is m.root and val_eq(r.nm, k) and val_eq(r.auid.t, i) and r.parent is pa and r.concrete is True, 'a new class with what was given')
    prove(m.classdefs_by_name[k] is r and m.raw[i] is r, 'found by name and id')
    prove(m.classdefs_by_name[n2] is old2 and m.raw[old2.auid.t] is old2, 'others are found as before')
    prove(m.classdefs_by_name[n1] is old1 and m.raw[old1.auid.t] is old1, 'the known one too')
    prove(len(added) == 1 and added[0][0] is m and added[0][1] == md.PID_CLASSDEFS and added[0][3] is r, 'it is stored with the class definitions')
    prove([(x[0] is r,) + x[1:] for x in props] == ([] if defs_ is None else [(True, n) + tuple(a) for n, a in defs_.items()]), 'its properties are registered with what was given')


KINDS = ('StrongRef', 'WeakRef', 'FixedArray', 'VarArray', 'Set', 'String', 'Enum', 'Record', 'Rename', 'Int', 'ExtEnum', 'Indirect')


def foreign_types(kind):
    def body(P):
        md, T = P.metadict, P.types
        known = bool(ctx().choose(2))
        acts, added = [], []
        K = getattr(T, 'TypeDef' + kind)
        n = ctx().choose(3)
        old = {1: 'one', 2: 'two'}
        more = {1: 'one', 3: 'three'}
        mine = type('Mine', (object,), dict(type_name='the name', auid='the id', elements=old, register_element=lambda s, name, v: acts.append(('element', v, name))))()

        def copy(s, root=None):
            prove(root is m.root, 'made for this file')
            return mine
        D = dict(copy=copy, auid='the id', type_name='the name', elements=more, element_typedef='element', renamed_typedef='renamed', ref_classdef='class',
                 member_types=property(lambda s: ['m%d' % j for j in range(n)]), propertydef_path=property(lambda s: [('c%d' % j, 'p%d' % j) for j in range(n)]), __slots__=())
        X = type('X', (K,), D)
        x = X.__new__(X) if kind != 'Record' else object.__new__(X)

        class Set(object):
            def append(s, t): added.append(t); acts.append(('add', t))
        top = []

        class M(md.MetaDictionary):
            def __init__(s): pass
            def __getitem__(s, k): prove(k == 'TypeDefinitions', 'the type definitions'); return Set()

            def lookup_typedef(s, t):
                return mine if known or s.typedefs_by_auid.get(t) is mine else None

            def register_external_typedef(s, t):
                if t is x:
                    return md.MetaDictionary.register_external_typedef(s, t)
                acts.append(('type', t))
                prove(known or added == [mine], 'it is known before what it is made of')

            def register_external_classdef(s, c):
                acts.append(('class', c))
                prove(added == [mine], 'it is known before what it refers to')
        m = M()
        m.root = object()
        other = object()
        m.typedefs_by_name, m.typedefs_by_auid = {'other': other}, {'other id': other}
        if known:
            m.typedefs_by_name['the name'] = m.typedefs_by_auid['the id'] = mine
        ctx().cover('entry')
        r = m.register_external_typedef(x)
        prove(r is mine, 'the type of this file')
        prove(m.typedefs_by_name == {'other': other, 'the name': mine} and m.typedefs_by_auid == {'other id': other, 'the id': mine}, 'found by name and id, others as before')
        prove(added == ([] if known else [mine]), 'added when missing, once')
        deps = [a for a in acts if a[0] in ('type', 'class')]
        if kind in ('FixedArray', 'VarArray', 'Set', 'String', 'Enum'):
            prove(('type', 'element') in deps, 'with its element type')
        elif kind == 'Rename':
            prove(('type', 'renamed') in deps, 'with the type it renames')
        elif kind == 'Record':
            prove(all(('type', 'm%d' % j) in deps for j in range(n)), 'with its member types')
        elif kind in ('StrongRef', 'WeakRef') and not known:
            prove(('class', 'class') in deps, 'with the class it refers to')
            if kind == 'WeakRef':
                prove(all(('class', 'c%d' % j) in deps for j in range(n)), 'with the properties on its path')
        el = [a for a in acts if a[0] == 'element']
        prove(el == ([('element', 3, 'three')] if 'Enum' in kind else []), 'missing elements are added, no others')
        ctx().cover('known' if known else 'new')
    return body


class Elements(LoopSpec):
    """the elements so far are kept and none is the new one"""
    name = 'elements'
    fn = 'TypeDefExtEnum.register_element'

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None
    def iteration(self, L, g): self.h['at'] = L.idx
    def constraint(self, L, g):
        h = self.h
        return [implies(h['any'] < L.idx, and_(h['V'](h['any']) != h['value'], h['M'](h['any']) != h['name']))]
    def state(self, L, g):
        return {'element_values': mk('list', n=L.idx, f=self.h['V']), 'element_names': mk('list', n=L.idx, f=self.h['M'])}


def elements(P):
    """any number of elements with any values and names (taken as numbers: only their equality matters)"""
    from pydv import loops
    T = P.types
    n = fresh_int('n', 0)
    h = dict(V=UF('value', 1, 0), M=UF('name', 1, 0), value=fresh_int('new value', 0), name=fresh_int('new name', 0), any=fresh_int('any', 0))

    class El(object):
        def items(s): return type('V', (), dict(pv_lazy=lambda x: mk('list', n=n, f=lambda k: (h['V'](k), h['M'](k)))))()

    class Ext(T.TypeDefExtEnum):
        elements = property(lambda s: El())
    t = object.__new__(Ext)
    marked = []

    class Pr(object):
        data = 'before'

        def mark_modified(s): marked.append(s)
    a, b = Pr(), Pr()
    other = Pr()
    t.property_entries = {T.PID_EXTENUM_NAMES: a, T.PID_EXTENUM_VALUES: b, 5: other}
    T.encode_utf16_array = lambda x: ('names', x)
    T.encode_auid_array = lambda x: ('values', x)
    loops.ACTIVE[:] = [[Elements(h)]]
    ctx().cover('entry')
    t.register_element(h['name'], h['value'])
    if a.data == 'before' and b.data == 'before':
        prove(not marked, 'nothing to save')
        prove(or_(h['V'](h['at']) == h['value'], h['M'](h['at']) == h['name']), 'left out only when the value or the name is known')
        ctx().cover('known')
        return
    prove(type(a.data) is tuple and a.data[0] == 'names' and type(b.data) is tuple and b.data[0] == 'values', 'both lists are stored')
    prove_eq(seqof(a.data[1]), mk('list', n=n + 1, f=lambda k: ite(k == n, h['name'], h['M'](k))), 'the names, then the new one')
    prove_eq(seqof(b.data[1]), mk('list', n=n + 1, f=lambda k: ite(k == n, h['value'], h['V'](k))), 'the values, then the new one')
    prove(implies(h['any'] < n, and_(h['V'](h['any']) != h['value'], h['M'](h['any']) != h['name'])), 'no element has its value or its name')
    prove(len(marked) >= 1 and all(m is a or m is b for m in marked), 'the type is saved')
    prove(other.data == 'before' and len(t.property_entries) == 3, 'nothing else')
    ctx().cover('new')


class Chain(LoopSpec):
    """each class above is known, with all its properties"""
    name = 'classes'
    fn = 'register_external_classdef'

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None and 'pid' not in env
    def iteration(self, L, g): self.h['at'] = L.idx; self.h['reg'] = []; self.h['own'] = None

    def next(self, L, g, env):
        h = self.h
        prove(h.get('walked') is True, 'all properties of the class')
        h['walked'] = False
        ctx().cover('class')
        return g


class CProps(LoopSpec):
    name = 'properties'
    fn = 'register_external_classdef'

    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None and 'pid' in env or L.lazy is not None
    def iteration(self, L, g): self.at = L.idx; del self.h['log'][:]

    def next(self, L, g, env):
        self.h['judge'](self.at, list(self.h['log']))
        ctx().cover('property')
        return g


def class_chain(P):
    """one class of the chain, any number of properties"""
    from pydv import loops
    md = P.metadict
    n = fresh_int('n', 0)
    pid = UF('pid', 1, 1, 0xFFFF)
    known, depth = bool(ctx().choose(2)), ctx().choose(3)
    h = dict(log=[])

    class PD(object):
        def __init__(s, k):
            s.k, s.pid, s.auid, s.property_name, s.typedef = k, pid(k), ('id', k), ('name', k), ('type', k)
            s.optional, s.unique = ('optional', k), ('unique', k)

    class Ext(object):
        concrete = 'concrete?'

        def __init__(s, k, parent): s.auid, s.class_name, s.parent, s.k = 'id%d' % k, 'name%d' % k, parent, k
        def relatives(s):
            c = s
            while c is not None:
                yield c
                c = c.parent

        @property
        def propertydefs(s):
            return type('V', (), dict(pv_lazy=lambda x: mk('list', n=n if s.k == depth else 0, f=PD)))() if s.k == depth else []

    class Mine(object):
        def __init__(s, a): s.auid = a
        def register_propertydef(s, *a): h['log'].append((s,) + a)
    chain = None
    for k in range(depth + 1):
        chain = Ext(k, chain)
    mine = {}
    new = []

    class M(md.MetaDictionary):
        def __init__(s): pass
        def lookup_classdef(s, x): return mine.get(x)

        def register_classdef(s, name, auid, parent, concrete):
            k = int(auid[2:])
            prove(name == 'name%d' % k and concrete == 'concrete?' and parent == ('id%d' % (k - 1) if k else None), 'the same name, parent and kind')
            prove(k == 0 or 'id%d' % (k - 1) in mine, 'parents first')
            prove(auid not in mine, 'only missing classes')
            mine[auid] = Mine(auid)
            new.append(k)
            return mine[auid]

        def register_external_typedef(s, t):
            h['log'].append(('type', t))
            return type('T', (), dict(auid=('type id', t)))()
    m = M()
    m.root = object()
    top = 'id%d' % depth
    if known:
        for k in range(depth + 1):
            mine['id%d' % k] = Mine('id%d' % k)

    def judge(i, log):
        prove(len(log) == 2 and log[0][0] == 'type' and val_eq(log[0][1][1], i), 'its type comes along')
        r = log[1]
        prove(r[0] is mine[top], 'registered with the class of this file')
        prove(val_eq(r[1][1], i) and val_eq(r[2][1], i), 'the same name and id')
        prove(r[4][0] == 'type id' and val_eq(r[4][1][1], i) and val_eq(r[5][1], i) and val_eq(r[6][1], i), 'the same type, optional and unique')
        p = pid(i)
        if p >= 0x8000:
            prove(r[3] is None, 'a dynamic id is handed out anew')
        else:
            prove(r[3] is not None and val_eq(r[3], p), 'a static id is kept')
    h['judge'] = judge
    loops.ACTIVE[:] = [[CProps(h)]]
    ctx().cover('entry')
    r = m.register_external_classdef(chain)
    prove(r is mine[top], 'the class of this file')
    prove(new == ([] if known else list(range(depth + 1))), 'every missing class of the chain, once')
    ctx().cover('done')


def looking_up(P):
    md = P.metadict
    AUID = P.auid.AUID
    what = ctx().choose(2)
    base = [P.types.TypeDef, md.ClassDef][what]
    D = type('D', (base,), dict(__slots__=()))
    d, e = object.__new__(D), object.__new__(D)
    M = type('M', (md.MetaDictionary,), dict(__init__=lambda s: None))
    m = M()
    ids, names = {AUID(int=5): d, AUID(int=6): e}, {'n': d, 'o': e}
    if what:
        m.classdefs_by_auid, m.classdefs_by_name = ids, names
        f = m.lookup_classdef
    else:
        m.typedefs_by_auid, m.typedefs_by_name = ids, names
        f = m.lookup_typedef
    ctx().cover('entry')
    prove(f('n') is d and f('o') is e, 'by name')
    prove(f(AUID(int=5)) is d and f(AUID(int=6)) is e, 'by id')
    prove(f(str(AUID(int=5))) is d, 'by the text of the id')
    prove(f(d) is d, 'a definition is itself')
    prove(f('p') is None and f(AUID(int=7)) is None, 'nothing else')


def rep(m, name):
    rng = random.Random(5)
    for i in range(14):
        inp = gen_copy(rng, i)
        try:
            r = check_copy(inp)
        except Exception as e:
            r = 'raised %s: %s' % (type(e).__name__, e)
        if r:
            return '%s on %s' % (r, inp)
        inp = gen_defs(rng, i)
        r = check_defs(inp)
        if r:
            return '%s on %s' % (r, inp)
    return None


A, M_ = 'core.AAFObject.copy', 'metadict.MetaDictionary.'
UNITS = [Unit('object copy', copying_objects, [A], rep, covers=['entry', 'done', 'property']),
         Unit('data copy', copying_data, ['properties.Property.copy'], rep, covers=['entry', 'indirect']),
         Unit('stream copy', copying_streams, ['properties.StreamProperty.copy'], rep, covers=['entry', 'done']),
         Unit('owned copy', copying_owned, ['properties.StrongRefProperty.copy'], rep, covers=['entry', 'within', 'other'])]
UNITS += [Unit('copy, ' + c, copying_vectors(c), ['properties.%s.copy' % c], rep, covers=['entry', 'within', 'other', 'member']) for c in ('StrongRefVectorProperty', 'StrongRefSetProperty')]
UNITS += [Unit('copy, ' + c, copying_weak(c), ['properties.%s.copy' % c], rep, covers=['entry', 'within', 'other']) for c in ('WeakRefProperty', 'WeakRefArrayProperty')]
UNITS += [Unit('reference in another file', finding_targets, ['properties.copy_weakref'], rep, covers=['entry', 'registered', 'brought']),
          Unit('register_classdef', classes, [M_ + 'register_classdef'], rep, covers=['entry', 'known', 'new']),
          Unit('register_external_classdef', class_chain, [M_ + 'register_external_classdef'], rep, covers=['entry', 'done', 'property']),
          Unit('register_element', elements, ['types.TypeDefExtEnum.register_element'], rep, covers=['entry', 'known', 'new']),
          Unit('lookup', looking_up, [M_ + 'lookup_classdef', M_ + 'lookup_typedef'], rep)]
UNITS += [Unit('register_external_typedef ' + k, foreign_types(k), [M_ + 'register_external_typedef'], rep, covers=['entry', 'known', 'new']) for k in KINDS]
BOUNDED = [Bounded('definitions', run_defs, 'up to 18 registrations of types of every kind, classes, properties, elements; all found with the same contents, others unaffected, after up to 4 reopenings',
                   [M_ + 'register_typedef_model', M_ + 'read_properties', M_ + 'register_classdef'], check_defs, shards=3, budget=10),
           Bounded('copies', run_copy, 'up to 4 object graphs of own and standard classes (all property kinds), within a file or into one with other or partly the same definitions; saved and reopened',
                   [A, 'types.TypeDef*.copy', M_ + 'register_external_classdef'], check_copy, shards=5, budget=13)]
ASSUMPTIONS = ['contracts of extend/append of collections: P13; of reading and writing streams: P01; of property ids: P15',
               'register_external_typedef: records of up to 2 members, paths of up to 2 steps; register_classdef: two classes known before, two properties',
               'definitions of the same name and other ids, and enum values with other names in the two files, are not decided']
LEVEL = 'proof'
