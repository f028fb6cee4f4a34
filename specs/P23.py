"""P23: creating an object by class name makes exactly that class.

Deductive part: AAFFactory.from_name against an arbitrary dictionary of
definitions, the factories handed out by `create.<Name>` (a history of any
length is covered by the frame condition: neither asking for a factory nor
using one changes any state), MetaDictionary.lookup_classdef/lookup_class.
Bounded: nested, stored and interleaved creations over two files."""
import random
from pydv.core import *
from pydv.core import ctx
from pydv.seq import val_eq
from pydv.libs import PvDict
from pydv.runner import Unit, Bounded, plain
from specs.common import drive, drop_chunks, AafFiles

C = ['file.AAFFactory.__getattr__', 'file.AAFFactory.from_name', 'file.AAFFactory.create_instance']


class CD(object):
    def __init__(self, concrete): self.concrete, self.auid = concrete, ('auid of', self)


class Boom(Exception):
    pass


def making(P):
    """every case of what the definitions say about the name"""
    known = ctx().choose(2)
    helper = ctx().choose(3)            # no helper, a helper, a helper which refuses its arguments
    concrete = fresh_bool('concrete')
    cd = CD(concrete) if known else None
    log = []
    base = P.core.AAFObject

    class Meta(object):
        def lookup_classdef(self, n):
            prove(n == 'TheName', 'the definition looked up is that of the name')
            return cd

        def lookup_class(self, n):
            prove(n == 'TheName' or n is cd.auid, 'the helper looked up is that of the class')
            return cls

    class Root(object):
        metadict = Meta()

    def init(self, *a, **k):
        log.append((self, a, k, self.root))
        if helper == 2:
            raise Boom()
    root = Root()
    cls = type('Helper', (base,), dict(__init__=init, class_id='its own')) if helper else None
    if not helper:
        # AAFObject itself is the fallback: `type(obj) is AAFObject` must see it
        old = base.__init__
        base.__init__ = init
        cls = base
    theirs = base.__new__(base)         # an object of another file among the arguments
    theirs.root = object()
    args = [(), (7,), (7, None), (theirs,)][ctx().choose(4)]
    kw = [{}, dict(name=theirs), dict(a=1, b=None)][ctx().choose(3)]
    ctx().cover('entry')
    fac = P.file.AAFFactory(root)
    try:
        if 'name' not in kw and ctx().choose(2):
            o = fac.from_name('TheName', *args, **kw)
        else:
            o = fac.TheName(*args, **kw)
    except ValueError:
        prove(not_(concrete) if known else True, 'only unknown and abstract names are refused')
        prove(log == [], 'nothing is made when refused')
        ctx().cover('abstract' if known else 'unknown')
        return
    except Boom:
        prove(helper == 2, 'the helper refused its arguments')
        ctx().cover('refused arguments')
        return
    finally:
        if not helper:
            base.__init__ = old
    prove(bool(known) and helper != 2, 'an unknown name is refused')
    prove(concrete, 'an abstract class is refused')
    prove(type(o) is cls, 'exactly the class of the name')
    prove(o.root is root, 'it belongs to the file of the factory')
    prove(len(log) == 1 and log[0][0] is o, 'initialised once')
    prove(log[0][1] == args and log[0][2] == kw, 'with exactly the arguments given')
    prove(log[0][3] is root, 'the file is known while it is initialised')
    if helper:
        prove(type(o).class_id == 'its own', 'a helper keeps its class id')
        ctx().cover('helper')
    else:
        prove(o.class_id is cd.auid, 'an object without helper has the class id of the definition')
        ctx().cover('no helper')


def twice(P):
    """two creations of the same name make two objects"""
    cls = type('Helper', (P.core.AAFObject,), dict(__slots__=('class_id',), __init__=lambda self: None))

    class Meta(object):
        def lookup_classdef(self, n): return CD(True)
        def lookup_class(self, n): return cls

    class Root(object):
        metadict = Meta()
    fac = P.file.AAFFactory(Root())
    ctx().cover('entry')
    a, b = fac.from_name('N'), fac.from_name('N')
    prove(a is not b, 'always a new object')


def stored(P):
    """`create.<Name>` is a function of the name alone: it makes that class whatever was asked or made
    before or meanwhile, and leaves no trace in the factory"""
    made = []

    def cls(n):
        def init(self, *a, **k):
            made.append((self, n, a, k))
        return type(str(n), (P.core.AAFObject,), dict(__init__=init))
    names = ['Alpha', 'Beta', 'Gamma']
    helper = dict((n, cls(n)) for n in names)

    class Meta(object):
        def lookup_classdef(self, n): return CD(True)
        def lookup_class(self, n): return helper[n]

    class Root(object):
        metadict = Meta()
    F = P.file.AAFFactory
    f, g = F(Root()), F(Root())
    before = dict(f.__dict__)
    cm = dict(vars(F))
    mod = dict(vars(P.file))

    def clean(w):
        prove(f.__dict__ == before and sorted(f.__dict__) == sorted(before), w + ': the factory is unchanged')
        prove(dict(vars(F)) == cm, w + ': its class is unchanged')
        prove(sorted(vars(P.file)) == sorted(mod) and all(vars(P.file)[k] is mod[k] for k in mod), w + ': the module is unchanged')
    ctx().cover('entry')
    x, y, z = [names[ctx().choose(3)] for _ in range(3)]
    mk1 = getattr(f, x)
    clean('asking')
    mk2 = getattr(f, y)
    other = getattr(g, z)
    order = [[0, 1, 2], [1, 0, 2], [2, 1, 0], [0, 2, 0, 1]][ctx().choose(4)]
    want = [(f, x), (f, y), (g, z)]
    for k, i in enumerate(order):
        a, kw = (k, object()), dict(name=k)
        r = [mk1, mk2, other][i](*a, **kw)
        o, n, aa, kk = made[-1]
        prove(len(made) == k + 1, 'one object per call')
        prove(r is o, 'the object made is returned')
        prove(r.root is want[i][0].root, 'made in the file of the factory')
        prove(n == want[i][1] and type(r) is helper[n], 'of the class it was asked by')
        prove(aa == a and kk == kw, 'arguments passed on unchanged')
    clean('making')


def looking(P):
    """lookup_classdef: the definition itself, else the one under that id or name; lookup_class: helper of that id, helper of
    that name, class of a type definition, else the plain object"""
    md = P.metadict
    M = md.MetaDictionary
    m = M.__new__(M)
    ids = [P.auid.AUID(int=i + 1) for i in range(3)]
    a, b = [md.ClassDef(None, 'n%d' % i) for i in range(2)]
    m.classdefs_by_auid = {ids[0]: a, ids[1]: b}
    m.classdefs_by_name = {'NameA': a, 'NameB': b, 'AliasB': b}
    ctx().cover('entry')
    for t, want in [(a, a), (b, b), (ids[0], a), (ids[1], b), (ids[2], None), ('NameA', a), ('NameB', b), ('AliasB', b), ('None', None),
                    (str(ids[1]), b), (str(ids[2]), None), ('a name which is longer than any identification text', None)]:
        prove(m.lookup_classdef(t) is want, 'lookup_classdef')


def helpers(P):
    md = P.metadict
    M = md.MetaDictionary
    m = M.__new__(M)
    A, B, T = [type(n, (P.core.AAFObject,), {}) for n in 'ABT']
    has = [bool(fresh_bool(n)) for n in ('id known', 'name known', 'type known')]
    x = 'key'
    md.AAFClaseID_dict = {x: A} if has[0] else {'other': B}
    md.AAFClassName_dict = {x: B} if has[1] else {'other': A}
    m.typedefs_classes = {x: T} if has[2] else {'other': A}
    ctx().cover('entry')
    r = m.lookup_class(x)
    want = A if has[0] else B if has[1] else T if has[2] else P.core.AAFObject
    prove(r is want, 'the helper of the id, of the name, of the type definition, else the plain object')


# ---------------------------------------------------------------- concrete
SIMPLE = {'Filler': ('picture', 5), 'Timecode': (25, True), 'SourceClip': (), 'Sequence': (), 'MasterMob': ('a',), 'CompositionMob': ('b',), 'SourceMob': ('c',),
          'TaggedValue': ('n', 'v'), 'KLVData': (), 'TimelineMobSlot': (), 'CDCIDescriptor': (), 'EssenceData': (), 'DataDef': (), 'Selector': (), 'NetworkLocator': (),
          'Transition': (), 'Pulldown': (), 'EssenceGroup': (), 'ScopeReference': (), 'TextLocator': (), 'TapeDescriptor': (), 'Identification': ()}


# constructor parameters in order with a value and what the object must then show
PARAMS = {'SourceClip': [('start', 3, 3), ('length', 7, 7), ('mob_id', 'urn:smpte:umid:060a2b34.01010105.01010f20.13000000.00112233.44556677.8899aabb.ccddeeff', None),
                         ('slot_id', 4, 4), ('media_kind', 'sound', 'Sound')],
          'TimelineMobSlot': [('slot_id', 5, 5), ('name', 'nm', 'nm'), ('segment', None, None), ('origin', 2, 2), ('edit_rate', 24, 24)],
          'EventMobSlot': [('slot_id', 6, 6), ('name', 'ev', 'ev')],
          'Filler': [('media_kind', 'picture', 'Picture'), ('length', 9, 9)], 'Sequence': [('media_kind', 'sound', 'Sound'), ('length', 8, 8)],
          'Timecode': [('fps', 30, 30), ('drop', True, True), ('length', 11, 11)], 'TaggedValue': [('name', 'tn', 'tn'), ('value', 'tv', 'tv')],
          'MasterMob': [('name', 'mm', 'mm')], 'CompositionMob': [('name', 'cm', 'cm')], 'SourceMob': [('name', 'sm', 'sm')],
          'DataDef': [('auid', 'aaaaaaaa-0000-0000-0000-000000000009', None), ('name', 'dn', 'dn'), ('description', 'dd', 'dd')],
          'ParameterDef': [('auid', 'aaaaaaaa-0000-0000-0000-000000000008', None), ('name', 'pn', 'pn'), ('description', 'pd', 'pd'), ('typedef', 'Rational', None)],
          'OnlyHere': [('made_up', 1, None), ('name', 2, None)]}


def arguments_for(name, pick):
    par = PARAMS.get(name)
    if not par:
        return (), {}, []
    n = pick % (len(par) + 1)
    kw = [q for j, q in enumerate(par[n:]) if (pick >> 3 + j) & 1]
    if name in ('DataDef', 'ParameterDef', 'Filler', 'Sequence', 'TaggedValue', 'SourceClip'):
        kw = par[n:]                # these are not optional together

    def val(q):
        if q[0] == 'mob_id':
            from aaf2.mobid import MobID
            return MobID(q[1])
        if q[0] == 'auid':
            from aaf2.auid import AUID
            return AUID(q[1])
        return q[1]
    return tuple(val(q) for q in par[:n]), dict((q[0], val(q)) for q in kw), [(a, w) for a, _, w in par[:n] + kw if w is not None]


def plans(rng, depth=0):
    """a creation: [file, name, [creations made while the arguments are evaluated], stored factory?]"""
    x = rng.random()
    name = rng.choice(sorted(PARAMS)) if x < .4 else rng.choice(sorted(SIMPLE)) if x < .6 else rng.randrange(10 ** 6)
    kids = [plans(rng, depth + 1) for _ in range(rng.randrange(3))] if depth < 3 else []
    return [rng.randrange(2), name, kids, rng.random() < .4, rng.randrange(256)]


def gen(rng, i):
    return dict(stored=[[rng.randrange(2), rng.choice(sorted(SIMPLE)) if rng.random() < .6 else rng.randrange(10 ** 6)] for _ in range(rng.randrange(5))],
                plan=[plans(rng) for _ in range(rng.randrange(1, 5))], ext=rng.random() < .3, seed=rng.randrange(1000))


_F = []


def files():
    import aaf2
    if not _F:
        _F.extend([aaf2.open(), aaf2.open()])
        # registered in the first file only
        _F[0].metadict.register_classdef('OnlyHere', 'aaaaaaaa-0000-0000-0000-000000000001', 'InterchangeObject', True, {})
        _F[0].metadict.register_classdef('OnlyHereToo', 'aaaaaaaa-0000-0000-0000-000000000002', 'Component', True, {})
        _F[0].metadict.register_classdef('AbstractHere', 'aaaaaaaa-0000-0000-0000-000000000003', 'InterchangeObject', False, {})
    return _F


_N = {}


def names(f):
    k = id(f)
    if k not in _N:
        _N[k] = sorted(f.metadict.classdefs_by_name)
    return _N[k]


INIT = {'OperationGroup': None, 'MetaDictionary': None, 'CodecDef': None}


def exact(f, name, o, what):
    """is o a proper new object of the class `name` of file f"""
    from aaf2 import core, utils
    cd = f.metadict.classdefs_by_name[name]
    if o.root is not f:
        return '%s: belongs to another file' % what
    if o.class_id != cd.auid:
        return '%s: class id %s instead of %s' % (what, o.class_id, cd.auid)
    # a helper is found by its own name; the definition's other names give the helper or a plain object
    h = utils.AAFClassName_dict.get(name)
    alt = [h] if h is not None else [core.AAFObject, utils.AAFClaseID_dict.get(cd.auid), f.metadict.typedefs_classes.get(cd.auid)]
    if type(o) not in alt:
        return '%s: made a %s' % (what, type(o).__name__)
    if o.classdef is not cd:
        return '%s: its definition is %s' % (what, o.classdef)
    return None


def args_ok(o, want, what):
    for a, w in want:
        if getattr(o, a) != w:
            return '%s: %s is %r instead of %r' % (what, a, getattr(o, a), w)
    return None


def check(inp):
    plain()
    fs = files()
    made = []
    bad = []

    def pick(fi, nm):
        n = nm if not isinstance(nm, int) else names(fs[fi])[nm % len(names(fs[fi]))]
        return n

    def do(fac, fi, name, kids, pick=0):
        f = fs[fi]
        args, kw, want = arguments_for(name, pick)
        if name in SIMPLE and not args and not kw:
            args = SIMPLE[name]

        def arguments():
            for k in kids:
                node(k)
            return args
        cd = f.metadict.classdefs_by_name.get(name)
        if name in INIT:
            return
        what = 'create.%s() in file %d' % (name, fi)
        try:
            o = fac(*arguments(), **kw)
        except ValueError as e:
            if cd is not None and cd.concrete:
                bad.append('%s refused: %s' % (what, e))
            return
        if cd is None or not cd.concrete:
            bad.append('%s made an object of an unknown or abstract class' % what)
            return
        r = exact(f, name, o, what) or args_ok(o, want, what)
        if r:
            bad.append(r)
        if any(o is m for m in made):
            bad.append('%s gave the same object twice' % what)
        made.append(o)

    kept = []

    def node(p):
        fi, nm, kids, keep, pick_ = p
        name = pick(fi, nm)
        fac = getattr(fs[fi].create, name)
        if keep:
            for k in kids:
                node(k)
            kept.append((fac, fi, name))
        else:
            do(fac, fi, name, kids, pick_)
    early = [(getattr(fs[fi].create, pick(fi, nm)), fi, pick(fi, nm)) for fi, nm in inp['stored']]
    for p in inp['plan']:
        node(p)
    rng = random.Random(inp['seed'])
    late = early + kept
    rng.shuffle(late)
    for fac, fi, name in late + late[:1]:
        do(fac, fi, name, [])
    for fi, name in [(1, 'OnlyHere'), (1, 'OnlyHereToo'), (0, 'AbstractHere'), (0, 'NoSuchClass'), (1, 'filler'), (0, 'InterchangeObject'), (1, '')]:
        for via in (0, 1):
            try:
                o = (getattr(fs[fi].create, name) if via else lambda: fs[fi].create.from_name(name))()
            except ValueError:
                continue
            bad.append('create.%s() in file %d made %r' % (name, fi, o))
    return bad[0] if bad else None


def gen_all(rng, i):
    return dict(index=i) if i < 400 else None


def check_all(inp):
    """every class in turn: exact class, and the object stored in a file comes back as that class"""
    plain()
    fs = files()
    f = fs[0]
    nm = names(f)
    if inp['index'] >= len(nm):
        return None
    name = nm[inp['index']]
    cd = f.metadict.classdefs_by_name[name]
    if name in INIT:
        return None
    try:
        o = f.create.from_name(name)
    except ValueError:
        return 'concrete class %s refused' % name if cd.concrete else None
    if not cd.concrete:
        return 'abstract class %s accepted' % name
    return exact(f, name, o, 'from_name(%s)' % name)


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check, 1500, 200000, tlimit=20,
                 shrink=lambda inp: ([dict(inp, plan=p) for p in drop_chunks(inp['plan'])] + [dict(inp, stored=p) for p in drop_chunks(inp['stored'])]))


def run_all(rng, budget, tier, shard):
    if shard:
        return dict(evaluations=0, distinct=0, samples=[], violations=[])
    return drive(rng, budget, tier, gen_all, check_all, 400, 400, tlimit=20)


# reading back: the class of a stored object is that of its class id
def gen_back(rng, i):
    return dict(classes=[rng.randrange(10 ** 6) for _ in range(rng.randrange(2, 7))], seed=rng.randrange(99))


def check_back(inp):
    plain()
    from aaf2 import core, utils
    with AafFiles() as files_:
        f = files_.open('a')
        f.metadict.register_classdef('OnlyHere', 'aaaaaaaa-0000-0000-0000-000000000001', 'Segment', True, {})
        comp = f.metadict.lookup_classdef('Segment')
        ok = [n for n in sorted(f.metadict.classdefs_by_name) if n not in INIT and f.metadict.classdefs_by_name[n].concrete and n != 'Transition'
              and any(c is comp for c in f.metadict.classdefs_by_name[n].relatives())]
        mob = f.create.MasterMob('m')
        f.content.mobs.append(mob)
        mid = mob.mob_id
        want = []
        for k, c in enumerate(inp['classes']):
            n = ok[c % len(ok)] if k else 'OnlyHere'
            s = mob.create_timeline_slot(25)
            o = f.create.from_name(n)
            if n == 'Selector':
                o['Selected'].value = f.create.Filler('picture', 1)
            if not o.get('DataDefinition'):
                o['DataDefinition'].value = f.dictionary.lookup_datadef('picture')
            s.segment = o
            want.append((s.slot_id, n, utils.AAFClaseID_dict.get(o.class_id, core.AAFObject), o.class_id))
        # incomplete objects are refused on saving: not the point here
        keep = core.AAFObject.validate
        core.AAFObject.validate = lambda self: None
        try:
            f.close()
        finally:
            core.AAFObject.validate = keep
        f = files_.open('a', 'rb')
        mob = f.content.mobs.get(mid)
        for sid, n, t, cid in want:
            o = mob.slot_at(sid).segment
            if type(o) is not t or o.class_id != cid:
                return '%s came back as %s %s' % (n, type(o).__name__, o.class_id)
    return None


def run_back(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_back, check_back, 25, 4000, tlimit=60)


# classes registered between requests, arguments taken from the other file
_LATE = [0]


def gen_late(rng, i):
    return dict(steps=[[rng.choice(['ask', 'ask', 'register', 'foreign']), rng.randrange(2), rng.randrange(3), rng.randrange(2), rng.randrange(99)]
                       for _ in range(rng.randrange(3, 14))])


def check_late(inp):
    plain()
    from aaf2.auid import AUID
    fs = files()
    _LATE[0] += 1
    nm = ['Late%dA%d' % (_LATE[0], k) for k in range(3)]
    early = [[getattr(f.create, n) for n in nm] for f in fs]
    known = [{}, {}]
    for kind, fi, k, via, pick_ in inp['steps']:
        f, n = fs[fi], nm[k]
        if kind == 'register':
            if n not in known[fi]:
                known[fi][n] = f.metadict.register_classdef(n, AUID(int=(_LATE[0] << 8) + k + 1), 'InterchangeObject', pick_ % 4 > 0, {})
        elif kind == 'ask':
            cd = known[fi].get(n)
            for fac in (early[fi][k], getattr(f.create, n), lambda: f.create.from_name(n))[via:]:
                try:
                    o = fac()
                except ValueError:
                    if cd is not None and cd.concrete:
                        return '%s refused although registered by now' % n
                    continue
                if cd is None or not cd.concrete:
                    return '%s made although unknown or abstract' % n
                if o.root is not f or o.classdef is not cd or o.class_id != cd.auid:
                    return '%s: not an object of that class and file' % n
        else:
            g = fs[1 - fi]
            theirs = [g.dictionary.lookup_datadef('picture'), g.create.Filler('picture', 3), g.dictionary.lookup_operationdef('x') if 0 else g.create.MasterMob('m')][pick_ % 3]
            name, args, kw = [('Filler', (theirs,), {}), ('Sequence', (theirs, 4), {}), ('TimelineMobSlot', (1, 'a', theirs), {}), ('Transition', (theirs, 2), {}),
                              ('SourceClip', (), dict(media_kind=theirs)), ('MasterMob', (theirs,), {}), ('ConstantValue', (theirs, 1), {}), ('TaggedValue', (theirs,), {})][pick_ % 8]
            try:
                o = getattr(f.create, name)(*args, **kw)
            except Exception:
                continue            # refused, by whatever the constructor checks
            if o.root is not f:
                return 'create.%s() given an object of another file belongs to that file' % name
            if theirs.root is not g:
                return 'create.%s() moved its argument to its own file' % name
    return None


def run_late(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_late, check_late, 150, 8000, tlimit=20, shrink=lambda inp: [dict(steps=p) for p in drop_chunks(inp['steps'])])


def rep(m, name):
    rng = random.Random(5)
    for i in range(60):
        r = check_late(gen_late(rng, i))
        if r:
            return r
    for i in range(400):
        r = check(gen(rng, i))
        if r:
            return r
    for i in range(400):
        r = check_all(dict(index=i))
        if r:
            return r
    return None


UNITS = [Unit('from_name', making, C, rep, covers=['entry', 'unknown', 'abstract', 'helper', 'no helper', 'refused arguments']),
         Unit('from_name twice', twice, C, rep, covers=['entry']),
         Unit('stored factories', stored, C, rep, covers=['entry']),
         Unit('lookup_classdef', looking, ['metadict.MetaDictionary.lookup_classdef', 'utils.str2auid'], rep, covers=['entry']),
         Unit('lookup_class', helpers, ['metadict.MetaDictionary.lookup_class'], rep, covers=['entry'])]
BOUNDED = [Bounded('creations', run, 'up to 4 trees of nested creations (depth 4) over two files, factories stored and used later in random order; every object checked',
                   C, check, shards=6, budget=8),
           Bounded('every class', run_all, 'every registered class name once (exhaustive)', C + ['metadict.MetaDictionary.lookup_class'], check_all, shards=1, budget=20),
           Bounded('late and foreign', run_late, 'up to 13 requests, registrations and creations with arguments of the other file, over two files', C, check_late, shards=1, budget=8),
           Bounded('read back', run_back, 'objects of up to 6 component classes stored and read back', ['file.AAFObjectManager.read_object'], check_back, shards=3, budget=8)]
ASSUMPTIONS = ['helper constructors (`__init__` of each class) are outside this property except for the arguments they receive',
               'the table of helper classes is filled at import and agrees with the definitions (checked exhaustively by "every class")']
LEVEL = 'proof'
