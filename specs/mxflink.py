"""P21: contracts of the link() methods of mxf.py, against a recorder standing for the AAF file.

Data of a set: every optional value may be there or not, every value is arbitrary (numbers symbolic, others opaque with an
arbitrary truth value), every array of references has any length.  The recorder accepts what the objects of aaf2 accept:
o[name].value = x, o[name].append(x), and the attributes of the same meaning."""
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec
from pydv.seq import mk, seqof, val_eq

NUMBERS = {'SlotID', 'PhysicalTrackNumber', 'Origin', 'SourceMobSlotID', 'StartTime', 'Length', 'FPS', 'Start', 'PhaseFrame', 'PulldownDirection', 'PulldownKind',
           'RelativeSlot', 'RelativeScope', 'ComponentWidth', 'HorizontalSubsampling', 'StoredWidth', 'StoredHeight', 'FrameSampleSize', 'ResolutionID', 'VerticalSubsampling',
           'SampledWidth', 'SampledHeight', 'LinkedSlotID', 'BlockAlign', 'AverageBPS', 'Channels', 'QuantizationBits'}
ATTRS = {'length': 'Length', 'media_kind': 'media_kind', 'name': 'Name', 'mob_id': 'MobID', 'segment': 'Segment', 'descriptor': 'EssenceDescription', 'value': 'Value',
         'edit_rate': 'EditRate', 'slot_id': 'SlotID'}
LISTS = {'slots': 'Slots', 'components': 'Components', 'comments': 'UserComments'}


class Opaque(object):
    """a value about which nothing is known, not even whether it counts as true"""

    def __init__(self, name):
        self.name, self.b = name, fresh_bool('truth of ' + name)

    def __bool__(self): return bool(self.b)


class Slot(object):
    pv_ghost = True

    def __init__(self, o, name): self.__dict__.update(o=o, name=name)
    def __setattr__(self, a, v):
        assert a == 'value'
        self.o.values[self.name] = v
    def append(self, x): self.o.lists.setdefault(self.name, []).append(x)
    @property
    def value(self): return self.o.values[self.name]


class Rec(object):
    """an object of the AAF file being made"""
    pv_ghost = True

    def __init__(self, cls): self.__dict__.update(cls=cls, values={}, lists={})
    def __getitem__(self, k): return Slot(self, k)

    def __setattr__(self, a, v):
        assert a in ATTRS, a
        self.values[ATTRS[a]] = v

    def __getattr__(self, a):
        if a in LISTS:
            return Slot(self, LISTS[a])
        if a in ATTRS:
            return self.values[ATTRS[a]]
        raise AttributeError(a)


class Creator(object):
    def __init__(self, made): self.made = made

    def __getattr__(self, name):
        def make():
            r = Rec(name)
            self.made.append(r)
            return r
        return make


class Data(object):
    """the values decoded from a set"""

    def __init__(self, h, need, maybe, refs):
        self.h, self.need, self.maybe, self.refs, self.here, self.vals = h, need, maybe, refs, {}, {}

    def has(self, k):
        if k in self.need:
            return True
        if k not in self.maybe and k not in self.refs:
            return False
        if k not in self.here:
            self.here[k] = bool(ctx().choose(2))
        return self.here[k]

    def val(self, k):
        if k in self.refs:
            return mk('list', n=self.h['n'][k], f=lambda i: ('ref', k, i))
        if k not in self.vals:
            self.vals[k] = fresh_int(k) if k in NUMBERS else Opaque(k)
        return self.vals[k]

    def __contains__(self, k): return self.has(k)
    def get(self, k, d=None): return self.val(k) if self.has(k) else d

    def __getitem__(self, k):
        if not self.has(k):
            raise KeyError(k)
        return self.val(k)

    def __setitem__(self, k, v):
        self.need.add(k)
        self.vals[k] = v


class Each(LoopSpec):
    """every referenced object is linked and appended once, in order"""
    name = 'referenced objects'
    fn = 'link'
    once = False
    def __init__(self, h): self.h = h

    def match(self, L, env):
        if L.lazy is None:
            return False
        self.key = [k for k, s in self.h['seqs'].items() if s is L.src or s is L.lazy]
        return len(self.key) == 1

    def iteration(self, L, g):
        self.at = L.idx
        for l in self.h['top'].lists.values():
            del l[:]

    def next(self, L, g, env):
        key, i, h = self.key[0], self.at, self.h
        got = [x for x in h['top'].lists.get(h['to'][key], []) if not own(h, x)]
        others = [n for n, l in h['top'].lists.items() if n != h['to'][key] and any(not own(h, x) for x in l)]
        prove(not others, 'nothing else')
        if h['skip'](key, i):
            prove(not got, 'not appended')
            ctx().cover('skipped')
        else:
            prove(len(got) == 1 and isinstance(got[0], tuple) and got[0][:2] == ('linked', key) and bool_and(val_eq(got[0][2], i)), 'appended, once')
            ctx().cover('appended')
        return g


def bool_and(x): return x


def own(h, x):
    """a locator of the MXF file itself"""
    return isinstance(x, Rec) and x.cls == 'NetworkLocator' and x.values.get('URLString') == ('path', h['path'])


def linking(cls, create, need=(), maybe=(), refs=(), lists=None, kinds=None, const=None, same=None, media=True, zero=(), single=(), own_locator=None):
    """lists: key of the references -> property they go to; single: key -> property; zero: keys which are 0 when missing"""
    def body(P):
        from pydv import loops
        m = P.mxf
        made = []
        h = dict(n={}, seqs={}, to=lists or {}, path=object())
        o = object.__new__(getattr(m, cls))
        data = Data(h, set(need) | set(single) | ({'DataDef'} if media else set()), set(maybe) | set(zero), set(refs))
        skip = UF('skipped', 1, boolean=True)
        h['skip'] = lambda key, i: skip(i) if key in ('Slots', 'UserComments', 'MobAttributeList', 'TaggedValueAttributeList') else False

        class Item(object):
            def __init__(s, key, k): s.key, s.k = key, k

            def link(s):
                if s.key in ('UserComments', 'MobAttributeList', 'TaggedValueAttributeList') and h['skip'](s.key, s.k):
                    return None
                return ('linked', s.key, s.k)

        class Static(Item, m.MXFStaticTrack): pass
        class Event(Item, m.MXFEventTrack): pass

        def item(key, k):
            if key == 'Slots' and h['skip'](key, k):
                return (Static, Event)[ctx().choose(2)](key, k)
            return Item(key, k)

        class Seqs(dict):
            def __missing__(s, key):
                h['n'].setdefault(key, fresh_int('number of ' + key, 0) if key in refs else 0)
                s[key] = mk('list', n=h['n'][key], f=lambda k: item(key, k))
                return s[key]
        h['seqs'] = seqs = Seqs()

        class Mobs(object):
            def append(s, x): h.setdefault('content', []).append(x)

        class Aaf(object):
            create = Creator(made)
            class content(object): mobs = Mobs()
            class dictionary(object):
                @staticmethod
                def lookup_containerdef(n): return ('container', n)

        class Root(object):
            aaf = Aaf
            path = h['path']
            ama = bool(ctx().choose(2)) if own_locator is not None else False
            @staticmethod
            def resolve(ref):
                return item(ref[1], ref[2]) if isinstance(ref, tuple) else item(ref.name, 0)
        class Top(object):
            lists = property(lambda s: made[0].lists if made else {})
        h['top'] = Top()
        m.ama_path = lambda p: ('path', p)
        o.root, o.data = Root, data
        # contract of iter_strong_refs (proved in 'references of a set'): the objects of the references, in order
        o.iter_strong_refs = lambda key: seqs[key]
        for s in single:
            data.vals[s] = one = Opaque(s)
            assume(one.b)
        loops.ACTIVE[:] = [[Each(h)]]
        ctx().cover('entry')
        r = o.link()
        if same and same[0] == 'none' and not data.has(same[1]):
            prove(r is None and not made, 'nothing without a value')
            return
        prove(made and r is made[0] and r.cls == create, 'a %s' % create)
        v = r.values
        def holds(k, name):
            want = data.val(k)
            got = v.get(name)
            if isinstance(want, Opaque):
                return got is want
            return got is not None and val_eq(got, want)
        for k in sorted(set(need) | set(maybe) | set(zero)):
            name = (kinds or {}).get(k, k)
            if data.has(k):
                if k == 'Name' and not bool(data.val(k)):
                    continue                 # an empty name: may be left out
                prove(holds(k, name), '%s is that of the set' % k)
            elif k in zero:
                prove(val_eq(v.get(name), 0), '%s is 0 when missing' % k)
            else:
                prove(v.get(name) is None, 'no %s without one in the set' % k)
        if media:
            prove(holds('DataDef', 'media_kind') if bool(data.val('DataDef')) else True, 'its data definition')
        for k in single:
            x = v.get(single[k])
            prove(isinstance(x, tuple) and x[:2] == ('linked', k), '%s is what the set refers to' % k)
        for k, x in (const or {}).items():
            prove(v.get(k) == x, '%s' % k)
        known = set((kinds or {}).get(k, k) for k in set(need) | set(maybe) | set(zero)) | set(single.values() if single else []) | set(const or {}) | {'media_kind', 'MediaContainerGUID'} | set((lists or {}).values())
        prove(set(v) <= known, 'no other values')
        for n, l in r.lists.items():
            prove(all(own(h, x) for x in l), 'nothing else is appended')
        if own_locator is not None:
            prove(('MediaContainerGUID' in v) == Root.ama, 'the container of linked media')
            if own_locator or Root.ama:
                prove(len(r.lists.get('Locator', [])) >= 1, 'a locator of the file itself')
        if cls.endswith('Package'):
            prove(h.get('content') == [r], 'in the content of the AAF file')
        if cls == 'MXFEssenceGroup':
            s = v['Choices']
            J = fresh_int('J', 0)
            prove(val_eq(seqof(s).length(), h['n']['Choices']), 'all choices')
            assume(J < h['n']['Choices'])
            x = seqof(s).at(J)
            prove(and_(x[0] == 'linked', val_eq(x[2], J)), 'in order')
        ctx().cover('done')
    return body


def references(P):
    """iter_strong_refs: the objects of all references in order; resolve_ref: the object, or an exception"""
    from pydv import loops
    m = P.mxf
    n = fresh_int('n', 0)
    which = ctx().choose(2)
    h = dict(got=[])

    class Ref(m.MXFRef):
        def __new__(cls, k=None): return object.__new__(cls)
        def __init__(s, k=None): s.k = k
        bytes_be = bytes(16)
        def __bool__(s): return True
        def __str__(s): return 'ref'
    root = object.__new__(m.MXFFile)
    known = UF('known', 1, boolean=True)
    class Objects(object):
        def get(s, ref, d=None): return ('object', ref.k) if known(ref.k) else d
    root.objects = Objects()
    o = object.__new__(m.MXFObject)
    o.root = root
    ctx().cover('entry')
    if which:
        one = Ref(fresh_int('k', 0))
        has = ctx().choose(2)
        o.data = {'X': one} if has else {}
        m.auid_to_str_list = lambda *a, **k: 'text'
        try:
            r = o.resolve_ref('X')
        except Exception as e:
            if isinstance(e, (Unsupported,)):
                raise
            prove(not_(known(one.k)) if has else True, 'refused only when there is no such object')
            ctx().cover('refused')
            return
        prove(has and r[0] == 'object' and val_eq(r[1], one.k), 'the object')
        prove(known(one.k), 'a known one')
        ctx().cover('resolved')
        return
    o.data = {'X': mk('list', n=n, f=lambda k: Ref(k))} if ctx().choose(2) else {}

    class Refs(LoopSpec):
        name = 'references'
        fn = 'iter_strong_refs'
        def match(self, L, env): return L.lazy is not None
        def iteration(self, L, g): self.at = L.idx; h['at'] = L.idx; del h['got'][:]
        def next(self, L, g, env):
            prove(len(h['got']) == 1, 'one object per reference')
            return g
    loops.ACTIVE[:] = [[Refs()]]
    for x in o.iter_strong_refs('X'):
        h['got'].append(x)
        k = h['at']
        if known(k):
            prove(x is not None and val_eq(x[1], k), 'its object')
        else:
            prove(x is None, 'nothing for an unknown one')
        ctx().cover('object')
    prove(not h['got'], 'nothing behind the last')
    ctx().cover('end')


def file_link(P):
    """MXFFile.link: every package whose mob the AAF file does not have yet"""
    from pydv import loops
    m = P.mxf
    n = fresh_int('n', 0)
    inside = UF('inside', 1, boolean=True)
    h = dict(got=[])

    class Pk(object):
        def __init__(s, k): s.k, s.mob_id = k, ('id', k)
        def link(s): return ('mob', s.k)

    class Mobs(object):
        def __contains__(s, x): return bool(inside(x[1]))

    class F(object):
        class content(object): mobs = Mobs()
    f = F()
    o = object.__new__(m.MXFFile)
    o.aaf = None
    # contract of packages(): the packages of the content storage in order
    o.packages = lambda: mk('list', n=n, f=Pk)
    pos = UF('position', 1, 0)           # number of packages linked before the k-th
    back = UF('package', 1, 0)           # the package of the j-th mob
    J = fresh_int('J', 0)

    class Linked(LoopSpec):
        name = 'packages'
        fn = 'link'
        def match(self, L, env): return L.lazy is not None

        def constraint(self, L, g):
            i = L.idx
            return [pos(i) <= i, implies(J < pos(i), and_(back(J) < i, not_(inside(back(J))))),
                    implies(J + 1 < pos(i), back(J) < back(J + 1))]

        def state(self, L, g):
            return {'mobs': mk('list', n=pos(L.idx), f=lambda j: ('mob', back(j)))}

        def iteration(self, L, g):
            i = L.idx
            assume(implies(i < n, pos(i + 1) == pos(i) + ite(inside(i), 0, 1)))
            assume(implies(and_(i < n, not_(inside(i))), back(pos(i)) == i))
    assume(pos(0) == 0)
    loops.ACTIVE[:] = [[Linked()]]
    ctx().cover('entry')
    r = o.link(f)
    prove(o.aaf is f, 'the file')
    prove(val_eq(seqof(r).length(), pos(n)), 'as many mobs as packages not there yet')
    assume(J < pos(n))
    x = seqof(r).at(J)
    prove(and_(x[0] == 'mob', val_eq(x[1], back(J)), not_(inside(back(J)))), 'of such packages')
    ctx().cover('done')


def file_read(P):
    """MXFFile.__init__: every packet up to the end of the header partition is looked at by the right reader, every set is kept"""
    from pydv import loops
    m = P.mxf
    A = m.AUID
    PRIMER, PACK, OTHER = A("060e2b34-0205-0101-0d01-020101050100"), A("060e2b34-0205-0101-0d01-020101020400"), A("060e2b34-0253-0101-0d01-010101013b00")
    n = fresh_int('n', 0)
    kind, at = UF('kind', 1, 0, 3), UF('at', 1, 0)       # 0 primer, 1 partition pack, 2 a set, 3 anything else
    h = dict(log=[], kept=[])

    class F(object):
        pv_ghost = True
        def __enter__(s): return s
        def __exit__(s, *a): return False
        def tell(s): return at(h['at'])
        def read(s, *a): raise AssertionError
    f = F()

    class IO(object):
        BytesIO = m.BytesIO
        @staticmethod
        def open(path, mode):
            assert mode == 'rb'
            h['path'] = path
            return f
    m.io = IO
    m.open = IO.open

    def packet(k):
        x = kind(k)
        h['kind'] = 0 if x == 0 else 1 if x == 1 else 2 if x == 2 else 3
        return [PRIMER, PACK, OTHER, OTHER][h['kind']], ('length', k)
    m.iter_kl = lambda g: mk('list', n=n, f=packet)

    class Kept(object):
        pv_ghost = True
        def __setitem__(s, k, v): h['kept'].append((k, v))

    class Set(m.MXFTrack):
        def __init__(s): s.instance_id = ('id', h['at'])

    class Pre(m.MXFPreface):
        def __init__(s): s.instance_id = ('id', h['at'])
    size = fresh_int('header', 0)

    class T(m.MXFFile):
        def read_primer(s, g, l): h['log'].append(('primer', g, l)); return ('tags', l)
        def read_header(s, g, l): h['log'].append(('header', g, l)); s.header_partition_size = fresh_int('header', 0)

        def read_object(s, g, key, l):
            h['log'].append(('object', g, key, l, s.local_tags))
            h['obj'] = None
            if h['kind'] == 2:
                h['obj'] = (Set, Pre)[ctx().choose(2)]()
            return h['obj']

    class Packets(LoopSpec):
        name = 'packets'
        fn = '__init__'
        def match(self, L, env): return L.lazy is not None

        def state(self, L, g):
            return {}

        def iteration(self, L, g):
            o = L.env0['self']
            h['at'] = L.idx
            h['o'] = o
            # any state of the reader
            o.header_partition_size = h['hps'] = [None, size][ctx().choose(2)]
            o.local_tags = h['tags'] = object()
            o.preface = h['preface'] = object()
            o.objects = Kept()
            del h['log'][:], h['kept'][:]

        def next(self, L, g, env):
            o, log, k = h['o'], h['log'], h['kind']
            same = lambda l: isinstance(l, tuple) and val_eq(l[1], h['at'])
            prove(len(log) == 1 and log[0][0] == ['primer', 'header', 'object', 'object'][k] and log[0][1] is f, 'read by the right reader')
            prove(same(log[0][2 if k < 2 else 3]), 'with its length')
            if k == 0:
                prove(o.local_tags[0] == 'tags' and same(o.local_tags[1]), 'the primer counts from now on')
                ctx().cover('primer')
            else:
                prove(o.local_tags is h['tags'], 'the primer stays')
            if k >= 2:
                prove(log[0][2] is OTHER and log[0][4] is h['tags'], 'with its key and the primer')
            if k == 2:
                x = h['obj']
                prove(len(h['kept']) == 1 and h['kept'][0][1] is x and h['kept'][0][0] is x.instance_id and x.root is o, 'kept under its id')
                prove(o.preface is (x if isinstance(x, Pre) else h['preface']), 'the preface')
                ctx().cover('set')
            else:
                prove(not h['kept'], 'nothing kept')
                prove(o.preface is h['preface'], 'the preface stays')
            if k != 1:
                prove(o.header_partition_size is h['hps'], 'extent of the header stays')
            return g
    h['at'] = 0
    loops.ACTIVE[:] = [[Packets()]]
    ctx().cover('entry')
    path = object()
    o = T(path)
    prove(o.path is path and h['path'] is path, 'that file')
    if h['log'] == []:
        # ended: all packets, or one beyond the header partition
        prove(or_(val_eq(h['at'], n), and_(h['hps'] is not None, at(h['at']) > size)), 'not before the end of the header partition')
        ctx().cover('end')


OPT_D = ['FrameSampleSize', 'ResolutionID', 'Compression', 'VerticalSubsampling', 'SampledWidth', 'SampledHeight', 'LinkedSlotID']
KLV = {'ContainerFormat': ('container', 'AAFKLV')}
PKG = dict(need=['MobID'], maybe=['Name', 'LastModified', 'CreationTime', 'UsageCode'], refs=['Slots', 'UserComments'], media=False,
           lists={'Slots': 'Slots', 'UserComments': 'UserComments', 'MobAttributeList': 'MobAttributeList'})
PCM = dict(need=['BlockAlign', 'AverageBPS', 'Channels', 'QuantizationBits', 'AudioSamplingRate', 'SampleRate'], maybe=['LinkedSlotID'], zero=['Length'], media=False, own_locator=True)
CDCI = dict(need=['ComponentWidth', 'HorizontalSubsampling', 'ImageAspectRatio', 'StoredWidth', 'VideoLineMap', 'StoredHeight', 'SampleRate', 'FrameLayout'], maybe=OPT_D, zero=['Length'],
            refs=['Locator'], lists={'Locator': 'Locator'}, const=KLV, media=False, own_locator=False)
TABLE = {
    'MXFMaterialPackage': ('MasterMob', PKG),
    'MXFSourcePackage': ('SourceMob', dict(PKG, single={'Descriptor': 'EssenceDescription'})),
    'MXFTrack': ('TimelineMobSlot', dict(maybe=['SlotID', 'SlotName', 'EditRate', 'PhysicalTrackNumber', 'Origin'], single={'Segment': 'Segment'}, media=False)),
    'MXFSequence': ('Sequence', dict(zero=['Length'], refs=['Components'], lists={'Components': 'Components'})),
    'MXFSourceClip': ('SourceClip', dict(maybe=['SourceID', 'SourceMobSlotID', 'StartTime', 'Length'])),
    'MXFTimecode': ('Timecode', dict(need=['FPS', 'Drop', 'Start', 'Length'])),
    'MXFPulldown': ('Pulldown', dict(need=['Length', 'PhaseFrame', 'PulldownDirection', 'PulldownKind'], single={'InputSegment': 'InputSegment'})),
    'MXFFiller': ('Filler', dict(need=['Length'])),
    'MXFScopeReference': ('ScopeReference', dict(need=['Length', 'RelativeSlot', 'RelativeScope'])),
    'MXFEssenceGroup': ('EssenceGroup', dict(need=['Length'], refs=['Choices'], lists={'Choices': 'Choices'})),
    'MXFMultipleDescriptor': ('MultipleDescriptor', dict(need=['SampleRate'], zero=['Length'], refs=['FileDescriptors'], lists={'FileDescriptors': 'FileDescriptors'}, media=False, own_locator=True)),
    'MXFCDCIDescriptor': ('CDCIDescriptor', CDCI),
    'MXFMPEG2VideoDescriptor': ('CDCIDescriptor', dict(CDCI, maybe=[o for o in OPT_D if o != 'ResolutionID'], const=dict(KLV, ResolutionID=4076))),
    'MXFRGBADescriptor': ('RGBADescriptor', dict(need=['ImageAspectRatio', 'StoredWidth', 'FrameLayout', 'PixelLayout', 'VideoLineMap', 'StoredHeight', 'SampleRate'], zero=['Length'],
                                                 maybe=['FrameSampleSize', 'SampledWidth', 'SampledHeight', 'Compression', 'LinkedSlotID'], const=KLV, media=False, own_locator=True)),
    'MXFANCDataDescriptor': ('ANCDataDescriptor', dict(need=['SampleRate'], zero=['Length'], maybe=['LinkedSlotID'], media=False)),
    'MXFPCMDescriptor': ('PCMDescriptor', PCM),
    'MXFImportDescriptor': ('ImportDescriptor', dict(media=False)),
    'MXFTapeDescriptor': ('TapeDescriptor', dict(media=False)),
    'MXFNetworkLocator': ('NetworkLocator', dict(need=['URLString'], media=False)),
    'MXFTaggedValue': ('TaggedValue', dict(maybe=['Value'], need=['Name'], media=False, same=('none', 'Value'))),
}
