"""P21: MXF key-length-value parsing covers the file exactly; values of metadata packets."""
import os, random, shutil, struct, datetime
from io import BytesIO
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec, Val
from pydv.seq import mk, seqof, val_eq
from pydv.runner import Unit, Bounded, plain
from specs.common import drive, drop_chunks, scratch
from specs.aafsym import Content, Rd
from specs import mxflink

U = 'utils.'
M = 'mxf.'


def be(c, pos, n):
    return sum([c.f(pos + k) * (1 << 8 * (n - 1 - k)) for k in range(n)], 0)


def signed(v, bits):
    return ite(v >= 1 << (bits - 1), v - (1 << bits), v)


NUM = {'read_u8': (1, False), 'read_u16be': (2, False), 'read_u32be': (4, False), 'read_s32be': (4, True), 'read_u64be': (8, False), 'read_s64be': (8, True)}


def numbers(P):
    names = sorted(NUM)
    name = names[ctx().choose(len(names))]
    n, sg = NUM[name]
    c = Content()
    f = Rd(c)
    f.pos = p = fresh_int('pos', 0)
    ctx().cover('entry')
    r = getattr(P.mxf, name)(f)
    v = be(c, p, n)
    prove(val_eq(r, signed(v, 8 * n) if sg else v), 'the big-endian value')
    prove(val_eq(f.pos, p + n), 'reads exactly its bytes')
    ctx().cover(name)


class First(object):
    """contents whose first byte is given"""

    def __init__(self, first):
        self.g, self.first = UF('raw', 1, 0, 255), first

    def f(self, k):
        return self.first if isinstance(k, int) and k == 0 else self.g(k)


class RdInto(Rd):
    def readinto(self, b):
        n = len(b)
        for k in range(n):
            b[k] = self.c.f(self.pos + k)
        self.pos = self.pos + n
        return n


def ber(P):
    k = ctx().choose(9)
    ctx().cover('entry')
    if k == 0:
        c = Content()
        f = RdInto(c)
        assume(c.f(0) < 128)
        r = P.mxf.ber_length(f)
        prove(val_eq(r, c.f(0)), 'short form: the byte itself')
        prove(val_eq(f.pos, 1), 'one byte')
        ctx().cover('short')
    else:
        c = First(128 + k)
        f = RdInto(c)
        r = P.mxf.ber_length(f)
        prove(val_eq(r, sum([c.g(1 + j) * (1 << 8 * (k - 1 - j)) for j in range(k)], 0)), 'long form: the following bytes, most significant first')
        prove(val_eq(f.pos, 1 + k), 'no byte more')
        ctx().cover('long')


class Packets(object):
    """a file of any number of packets"""

    def __init__(self):
        self.n = fresh_int('packets', 0)
        self.S, self.B, self.L = UF('start'), UF('berlen', 1, 1, 9), UF('length', 1, 0)
        self.base = fresh_int('base', 0)
        assume(self.S(0) == self.base)

    def start(self, i):
        r = self.S(i)
        assume(implies(and_(0 <= i, i < self.n), self.S(i + 1) == r + 16 + self.B(i) + self.L(i)))
        return r


class KFile(object):
    def __init__(self, pk): self.pk, self.pos, self.at = pk, pk.base, None
    def tell(self): return self.pos

    def seek(self, p, how=0):
        if how != 0:
            raise Unsupported('relative seek')
        self.pos = p
        return p

    def read(self, n=-1): raise Unsupported('reads past the contracts')


class KL(LoopSpec):
    name = 'walk'
    fn = 'iter_kl'
    def __init__(self, h): self.h = h
    def match(self, L, env): return not L.isfor and 'pos' in env
    def ghost0(self, L, env): return dict(i=0)
    def fresh(self, L): return dict(i=fresh_int('i', 0))
    def constraint(self, L, g): return [0 <= g['i'], g['i'] <= self.h['pk'].n]
    def state(self, L, g): return {'pos': self.h['pk'].start(g['i'])}

    def iteration(self, L, g):
        self.h['i'] = g['i']
        del self.h['got'][:]
        # the user of the walk has moved the file
        self.h['f'].pos = fresh_int('moved', 0)

    def next(self, L, g, env):
        prove(len(self.h['got']) == 1, 'one item per packet')
        return dict(i=g['i'] + 1)

    def measure(self, L, g): return self.h['pk'].n - g['i']


def walk(P):
    from pydv import loops
    m = P.mxf
    pk = Packets()
    f = KFile(pk)
    h = dict(pk=pk, f=f, got=[], i=0)
    class Key(object):
        def __init__(s, i): s.i = i

    def key(g):
        """contract of read_auid_be: the 16 bytes of a key, nothing at the end of the file"""
        i = h['i']
        prove(val_eq(g.pos, pk.start(i)), 'reads the key where the packet starts')
        if i == pk.n:
            return None
        g.pos = g.pos + 16
        return Key(i)

    def length(g):
        i = h['i']
        prove(val_eq(g.pos, pk.start(i) + 16), 'reads the length behind the key')
        g.pos = g.pos + pk.B(i)
        return pk.L(i)
    m.read_auid_be, m.ber_length = key, length
    loops.ACTIVE[:] = [[KL(h)]]
    ctx().cover('entry')
    for x in m.iter_kl(f):
        k, n = x
        i = h['i']
        h['got'].append(x)
        prove(val_eq(k.i, i), 'its key')
        prove(val_eq(n, pk.L(i)), 'its length')
        prove(val_eq(f.pos, pk.start(i) + 16 + pk.B(i)), 'the file stands at its value')
        ctx().cover('packet')
    prove(val_eq(h['i'], pk.n), 'ends at the end of the file')
    prove(len(h['got']) == 0, 'nothing is given behind it')
    ctx().cover('end')


class Tags(LoopSpec):
    name = 'tags'
    fn = 'iter_tags'
    def __init__(self, h): self.h = h
    def match(self, L, env): return not L.isfor and 'length' in env
    def ghost0(self, L, env): return dict(i=0)
    def fresh(self, L): return dict(i=fresh_int('i', 0))
    def constraint(self, L, g): return [0 <= g['i'], g['i'] <= self.h['n'], self.h['start'](g['i']) <= self.h['end']]
    def state(self, L, g): return {'length': self.h['end'] - self.h['start'](g['i']), (self.h['f'], 'pos'): self.h['start'](g['i'])}
    def iteration(self, L, g):
        self.h['i'] = g['i']
        self.h['start'](g['i'] + 1)
        i, n = g['i'], self.h['n']
        # strictly increasing: the last start is the end
        assume(implies(i < n, and_(self.h['start'](i) < self.h['end'], self.h['start'](i + 1) <= self.h['end'])))
        del self.h['got'][:]

    def next(self, L, g, env):
        prove(val_eq(len(self.h['got']), ite(self.h['Z'](g['i']) > 0, 1, 0)), 'one item per tag with a value')
        return dict(i=g['i'] + 1)

    def measure(self, L, g): return self.h['n'] - g['i']


def tags(P):
    from pydv import loops
    m = P.mxf
    n = fresh_int('tags', 0)
    T, Z, S = UF('tag', 1, 0, 65535), UF('size', 1, 0, 65535), UF('start')
    base = fresh_int('base', 0)
    assume(S(0) == base)

    def start(i):
        r = S(i)
        assume(implies(and_(0 <= i, i < n), S(i + 1) == r + 4 + Z(i)))
        return r
    end = start(n)

    class F(object):
        pos = base
        def read(s, k):
            i = h['i']
            prove(and_(val_eq(s.pos, start(i) + 4), val_eq(k, Z(i))), 'reads exactly the value')
            s.pos = s.pos + k
            return ('value', i)
    f = F()

    def u16(g):
        i = h['i']
        first = g.pos == start(i)
        r = T(i) if first else Z(i)
        prove(or_(val_eq(g.pos, start(i)), val_eq(g.pos, start(i) + 2)), 'tag and size')
        g.pos = g.pos + 2
        return r
    m.read_u16be = u16
    h = dict(n=n, start=start, end=end, Z=Z, f=f, got=[], i=0)
    start(0)
    assume(implies(n > 0, and_(base < end)))
    assume(implies(n == 0, base == end))
    loops.ACTIVE[:] = [[Tags(h)]]
    ctx().cover('entry')
    for x in m.iter_tags(f, end - base):
        t, d = x
        h['got'].append(x)
        i = h['i']
        prove(val_eq(t, T(i)), 'its tag')
        prove(d[0] == 'value' and val_eq(d[1], i), 'its value')
        ctx().cover('tag')
    prove(val_eq(h['i'], n) if n > 0 else True, 'all of them')
    ctx().cover('end')


# what the tags mean (SMPTE ST 377-1 and AAF): name and kind of the value
BASE = {0x3c0a: (None, 'auid')}
TABLES = {
    'MXFPreface': {0x3b09: ('OperationalPattern', 'auid'), 0x3b03: ('ContentStorage', 'ref')},
    'MXFContentStorage': {0x1902: ('EssenceContainerData', 'refs'), 0x1901: ('Packages', 'refs')},
    'MXFPackage': {0x4403: ('Slots', 'refs'), 0x4401: ('MobID', 'mobid'), 0x4402: ('Name', 'text'), 0x4701: ('Descriptor', 'ref'), 0x4404: ('LastModified', 'time'),
                   0x4405: ('CreationTime', 'time'), 0x4408: ('UsageCode', 'auid'), 0x4406: ('UserComments', 'refs')},
    'MXFTrack': {0x4b02: ('Origin', 's64'), 0x4b01: ('EditRate', 'rational'), 0x4803: ('Segment', 'ref'), 0x4804: ('PhysicalTrackNumber', 'u32'), 0x4801: ('SlotID', 'u32'),
                 0x4802: ('SlotName', 'text')},
    'MXFComponent': {0x1001: ('Components', 'refs'), 0x1201: ('StartTime', 's64'), 0x1102: ('SourceMobSlotID', 'u32'), 0x1101: ('SourceID', 'mobid'), 0x0202: ('Length', 's64'),
                     0x0201: ('DataDef', 'datadef'), 0x1503: ('Drop', 'bool'), 0x1502: ('FPS', 'u16'), 0x1501: ('Start', 's64'), 0x0501: ('Choices', 'refs'), 0x0502: ('StillFrame', 'ref'),
                     0x0d01: ('InputSegment', 'ref'), 0x0d02: ('PulldownKind', 'u8'), 0x0d03: ('PulldownDirection', 'u8'), 0x0d04: ('PhaseFrame', 's32'),
                     0x0e01: ('RelativeScope', 'u31'), 0x0e02: ('RelativeSlot', 'u31')},
    'MXFDescriptor': {0x3f01: ('FileDescriptors', 'refs'), 0x3004: ('ContainerFormat', 'rauid'), 0x3005: ('CodecDefinition', 'rauid'), 0x3006: ('LinkedSlotID', 'u32'), 0x3203: ('StoredWidth', 'u32'),
                      0x3202: ('StoredHeight', 'u32'), 0x3208: ('SampledHeight', 'u32'), 0x3209: ('SampledWidth', 'u32'), 0x320d: ('VideoLineMap', 'lines'), 0x3211: ('ImageAlignmentOffset', 'u32'),
                      0x3002: ('Length', 's64'), 0x3001: ('SampleRate', 'rational'), 0x3d03: ('AudioSamplingRate', 'rational'), 0x3d0a: ('BlockAlign', 'u16'), 0x3d01: ('QuantizationBits', 'u32'),
                      0x3d07: ('Channels', 'u32'), 0x3d09: ('AverageBPS', 'u32'), 0x3d02: ('Locked', 'bool'), 0x3301: ('ComponentWidth', 'u32'), 0x320c: ('FrameLayout', 'u8'),
                      0x320e: ('ImageAspectRatio', 'rational'), 0x3d06: ('SoundCompression', 'rauid'), 0x3201: ('Compression', 'rauid'), 0x3302: ('HorizontalSubsampling', 'u32'),
                      0x3308: ('VerticalSubsampling', 'u32'), 0x2f01: ('Locator', 'refs'), 0x3401: ('PixelLayout', 'layout')},
    'MXFLocator': {0x4001: ('URLString', 'text')},
    'MXFEssenceData': {0x2701: ('MobID', 'mobid')},
    'MXFTaggedValue': {0x5001: ('Name', 'text'), 0x5003: ('Value', 'indirect')},
}
# values which the primer identifies
BY_UID = {'a0240060-94eb-75cb-ce2a-ca5051ab11d3': ('FrameSampleSize', 's32'), 'a0240060-94eb-75cb-ce2a-ca4d51ab11d3': ('ResolutionID', 's32'), 'a0220060-94eb-75cb-96c4-69924f6211d3': ('AppCode', 's32'),
          '060e2b34-0101-0109-0601-010406100000': ('SubDescriptors', 'refs'), 'a01c0004-ac96-9f50-6095-818347b111d4': ('MobAttributeList', 'refs'),
          'a01c0004-ac96-9f50-6095-818547b111d4': ('TaggedValueAttributeList', 'refs')}
# local sets: class, last but third... byte of the key that names it
SETS = {'MXFPreface': ('MXFPreface', 0x2f), 'MXFContentStorage': ('MXFContentStorage', 0x18), 'MXFMaterialPackage': ('MXFPackage', 0x36), 'MXFSourcePackage': ('MXFPackage', 0x37),
        'MXFTrack': ('MXFTrack', 0x3b), 'MXFStaticTrack': ('MXFTrack', 0x3a), 'MXFEventTrack': ('MXFTrack', 0x39), 'MXFSequence': ('MXFComponent', 0x0f), 'MXFSourceClip': ('MXFComponent', 0x11),
        'MXFTimecode': ('MXFComponent', 0x14), 'MXFPulldown': ('MXFComponent', 0x0c), 'MXFFiller': ('MXFComponent', 0x09), 'MXFScopeReference': ('MXFComponent', 0x0d),
        'MXFEssenceGroup': ('MXFComponent', 0x05), 'MXFMultipleDescriptor': ('MXFDescriptor', 0x44), 'MXFCDCIDescriptor': ('MXFDescriptor', 0x28), 'MXFRGBADescriptor': ('MXFDescriptor', 0x29),
        'MXFANCDataDescriptor': ('MXFDescriptor', 0x5c), 'MXFMPEG2VideoDescriptor': ('MXFDescriptor', 0x51), 'MXFPCMDescriptor': ('MXFDescriptor', 0x48), 'MXFAES3AudioDescriptor': ('MXFDescriptor', 0x47),
        'MXFSoundDescriptor': ('MXFDescriptor', 0x42), 'MXFImportDescriptor': ('MXFDescriptor', 0x4a), 'MXFTapeDescriptor': ('MXFDescriptor', 0x2e), 'MXFNetworkLocator': ('MXFLocator', 0x32),
        'MXFEssenceData': ('MXFEssenceData', 0x23), 'MXFTaggedValue': ('MXFTaggedValue', 0x3f)}


def stub_decoders(m):
    """contracts of the decoders: which one is given which bytes"""
    class Src(object):
        def __init__(s, d): s.d = d
        def __enter__(s): return s
        def __exit__(s, *a): return False
    m.BytesIO = Src
    whole = {'decode_auid': 'auid', 'decode_strongref': 'ref', 'decode_utf16be': 'text', 'decode_mob_id': 'mobid', 'decode_datadef': 'datadef', 'decode_indirect_value': 'indirect'}
    for fn, kind in whole.items():
        setattr(m, fn, lambda d, kind=kind: (kind, d))
    m.reverse_auid = lambda a: ('rauid', a[1]) if isinstance(a, tuple) and a[0] == 'auid' else ('reversed', a)
    for fn, kind in {'decode_strong_ref_array': 'refs', 'decode_rational': 'rational', 'decode_timestamp': 'time', 'decode_video_line_map': 'lines', 'decode_pixel_layout': 'layout'}.items():
        setattr(m, fn, lambda f, kind=kind: (kind, f.d))
    nums = {}
    for fn in NUM:
        k = fn[5:].replace('be', '')
        def num(f, k=k):
            key = (k, f.d)
            if key not in nums:
                n, sg = NUM['read_u8' if k == 'u8' else 'read_%sbe' % k]
                nums[key] = fresh_int(k, -(1 << 8 * n - 1) if sg else 0, (1 << 8 * n - (1 if sg else 0)) - 1)
            return nums[key]
        setattr(m, fn, num)
    return nums


def same(got, kind, d, nums):
    if kind == 'bool':
        return ('u8', d) in nums and val_eq(got, nums[('u8', d)] == 1)
    if kind == 'u31':
        ks = [k for k in (('s32', d), ('u32', d)) if k in nums]
        return len(ks) == 1 and val_eq(got, nums[ks[0]])
    if kind in ('u8', 'u16', 'u32', 's32', 'u64', 's64'):
        return (kind, d) in nums and val_eq(got, nums[(kind, d)])
    return isinstance(got, tuple) and got[0] == kind and got[1] is d


def meaning(cls):
    def body(P):
        m = P.mxf
        nums = stub_decoders(m)
        o = getattr(m, cls)()
        o.instance_id = old = object()
        o.data = {'kept': 1}
        table = dict(BASE)
        table.update(TABLES[SETS[cls][0]])
        tag = fresh_int('tag', 0, 65535)
        d = object()
        ctx().cover('entry')
        o.read_tag(tag, d)
        known = None
        for t in table:
            if tag == t:
                known = t
                break
        prove(o.data.pop('kept', None) == 1, 'other values are kept')
        if known is None:
            prove(not o.data and o.instance_id is old, 'no other tag has a meaning')
            ctx().cover('other')
            return
        name, kind = table[known]
        if name is None:
            prove(o.instance_id[0] == 'auid' and o.instance_id[1] is d and not o.data, 'the id of the set')
            return
        prove(list(o.data) == [name] and o.instance_id is old, 'tag %04x is %s' % (known, name))
        prove(same(o.data[name], kind, d, nums), '%s (%04x): its value' % (name, known))
        ctx().cover('known')
    return body


class Datum(object):
    def __init__(s, k): s.k = k


class EachTag(LoopSpec):
    name = 'tags of the set'
    fn = 'read_properties'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None

    def iteration(self, L, g):
        h = self.h
        h['at'] = L.idx
        h['o'].data = {'kept': 1}
        del h['read'][:]
        h['uid'] = None

    def next(self, L, g, env):
        h = self.h
        i, d = h['at'], h['o'].data
        prove(len(h['read']) == 1, 'each tag is read once')
        if h['read']:
            prove(and_(val_eq(h['read'][0][0], h['tag'](i)), val_eq(h['read'][0][1].k, i)), 'with its own bytes')
        prove(d.pop('kept', None) == 1, 'other values are kept')
        if h['uid'] is None or h['uid'] not in BY_UID:
            prove(not d, 'no other id has a meaning')
            ctx().cover('plain')
            return g
        name, kind = BY_UID[h['uid']]
        prove(list(d) == [name], '%s is %s' % (h['uid'], name))
        if list(d) == [name]:
            v = d[name]
            if kind == 'refs':
                prove(v[0] == 'refs' and val_eq(v[1].k, i), name + ': its value')
            else:
                ks = [k for k in h['nums'] if k[1] is h['datum']]
                prove(len(ks) == 1 and ks[0][0] == kind and val_eq(v, h['nums'][ks[0]]), name + ': its value')
        ctx().cover('named')
        return g


def properties(P):
    """read_properties: every tag of the set goes to read_tag once; the values the primer names by id are decoded from their own bytes"""
    from pydv import loops
    m = P.mxf
    nums = stub_decoders(m)
    n = fresh_int('n', 0)
    h = dict(read=[], nums=nums, tag=UF('tag', 1, lo=0, hi=65535), uid=None)
    o = h['o'] = m.MXFPreface()
    o.read_tag = lambda t, d: h['read'].append((t, d))

    def item(k):
        h['datum'] = Datum(k)
        return (h['tag'](k), h['datum'])
    def tags_(f, length):
        prove(f is src and length is ln, 'the bytes of the set')
        return mk('list', n=n, f=item)
    m.iter_tags = tags_
    ids = sorted(BY_UID) + ['00000000-0000-0000-0000-000000000007', None]

    class Primer_(object):
        def get(s, t, d=None):
            prove(val_eq(t, h['tag'](h['at'])), 'the id of this tag')
            u = h['uid'] = ids[ctx().choose(len(ids))]
            return d if u is None else m.AUID(u)
    src, ln = object(), fresh_int('length', 0)
    loops.ACTIVE[:] = [[EachTag(h)]]
    ctx().cover('entry')
    o.read_properties(src, ln, Primer_())


def classes(P):
    """which set is which class"""
    m = P.mxf
    ctx().cover('entry')
    want = {m.AUID('060e2b34-0253-0101-0d01-0101010100'[:-2] + '%02x00' % b): n for n, (t, b) in SETS.items()}
    got = {k: v.__name__ for k, v in m.MXF_CLASSES.items()}
    for k, n in want.items():
        prove(got.get(k) == n, 'the key of %s' % n)
    prove(len(got) == len(want), 'no other sets')


class Array(LoopSpec):
    name = 'references'
    fn = 'decode_strong_ref_array'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None

    def state(self, L, g):
        h, i = self.h, L.idx
        return {'local:refs'[6:]: mk('list', n=i, f=lambda k: 8 + 16 * k), (h['f'], 'pos'): 8 + 16 * i}


def array(P):
    from pydv import loops
    m = P.mxf
    c = Content()
    f = Rd(c)
    m.MXFRefArray = lambda: mk('list', items=[])
    def ref(g):
        r = g.pos
        g.pos = g.pos + 16
        return r
    m.read_strongref = ref
    loops.ACTIVE[:] = [[Array(dict(f=f))]]
    ctx().cover('entry')
    r = m.decode_strong_ref_array(f)
    prove(val_eq(seqof(r).length(), be(c, 0, 4)), 'as many as the count says')
    J = fresh_int('J', 0)
    assume(J < be(c, 0, 4))
    prove(val_eq(seqof(r).at(J), 8 + 16 * J), 'each from its own 16 bytes')
    ctx().cover('done')


class Primer(LoopSpec):
    name = 'primer'
    fn = 'read_primer'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.lazy is not None
    def state(self, L, g): return {(self.h['f'], 'pos'): 8 + 18 * L.idx, 'tags': Val(self.h['map'], lambda cur: True)}
    def iteration(self, L, g): self.h['i'] = L.idx; del self.h['set'][:]

    def next(self, L, g, env):
        s = self.h['set']
        prove(len(s) == 1, 'one entry per item')
        if s:
            i = self.h['i']
            prove(and_(val_eq(s[0][0], be(self.h['c'], 8 + 18 * i, 2)), val_eq(s[0][1], 10 + 18 * i)), 'tag and id of the item')
        return g


def primer(P):
    from pydv import loops
    m = P.mxf
    c = Content()
    f = Rd(c)
    h = dict(c=c, f=f, set=[])
    class Map(object):
        pv_ghost = True
        def __setitem__(s, k, v): h['set'].append((k, v))
    h['map'] = Map()
    def uid(g):
        r = g.pos
        g.pos = g.pos + 16
        return r
    m.read_auid_be = uid
    assume(be(c, 0, 4) <= 65536)
    assume(be(c, 4, 4) == 18)
    loops.ACTIVE[:] = [[Primer(h)]]
    o = object.__new__(m.MXFFile)
    ctx().cover('entry')
    r = o.read_primer(f, fresh_int('length', 0))
    prove(r is h['map'], 'the table is returned')
    prove(val_eq(f.pos, 8 + 18 * be(c, 0, 4)), 'all items')
    ctx().cover('done')


def header(P):
    m = P.mxf
    c = Content()
    f = Rd(c)
    Rd_tell = lambda: f.pos
    f.tell = Rd_tell
    f.pos = start = fresh_int('value', 17, 25)
    n = fresh_int('length', 88)
    o = object.__new__(m.MXFFile)
    m.read_auid_be = lambda g: ('id', g.pos)
    kag = be(c, start + 4, 4)
    hbc, ibc = be(c, start + 32, 8), be(c, start + 40, 8)
    ctx().cover('entry')
    o.read_header(f, n)
    r = o.header_partition_size
    prove(r >= start + n + hbc + ibc, 'the header partition is not cut short')
    prove(val_eq(o.header_operation_pattern[1], start + 64), 'the operational pattern')


def obj(P):
    m = P.mxf
    which = ctx().choose(3)
    log = []
    class Set(object):
        def read_properties(s, f, n, tags): log.append((f, n, tags, s))
    class Key(object):
        bytes_be = [0] * 5 + [0x53 if which else fresh_int('kind', 0, 255)] + [0] * 10
    key = Key()
    if not which:
        assume(Key.bytes_be[5] != 0x53)
    m.MXF_CLASSES = {key: Set} if which == 1 else {}
    walked = []
    m.iter_tags = lambda f, n: walked.append((f, n)) or iter(())
    m.bytearray = lambda x: x
    o = object.__new__(m.MXFFile)
    o.local_tags = tags_ = object()
    f, n = object(), fresh_int('length', 0)
    ctx().cover('entry')
    r = o.read_object(f, key, n)
    if which == 1:
        prove(isinstance(r, Set) and r.root is o, 'an object of the class of that set')
        prove(len(log) == 1 and log[0][0] is f and log[0][2] is tags_ and val_eq(log[0][1], n), 'read from its value')
        ctx().cover('known')
    else:
        prove(r is None and not log, 'nothing otherwise')


# ---------------------------------------------------------------- bounded
def gber(rng, n):
    forms = [k for k in range(1, 9) if n < 1 << 8 * k]
    if n < 128:
        forms += [0] * 3
    return rng.choice(forms)


def eber(n, form):
    if form == 0:
        return bytes(bytearray([n]))
    return bytes(bytearray([128 + form] + [(n >> 8 * (form - 1 - j)) & 255 for j in range(form)]))


def rb(rng, n): return bytes(bytearray(rng.randrange(256) for _ in range(n)))


FILL = '060e2b34010101020301021001000000'


def gen_walk(rng, i):
    ps = []
    for _ in range(rng.choice([0, 1, 2, 3, 8, 30])):
        n = rng.choice([0, 0, 1, 2, 126, 127, 128, 129, 255, 256, 257, rng.randrange(600), rng.choice([65535, 65536, 70000, 2 ** 24, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 40 + 3, rng.randrange(2 ** 62)]) if rng.random() < .15 else 5])
        ps.append([FILL if rng.random() < .2 else rb(rng, 16).hex(), n, gber(rng, n)])
    return dict(packets=ps, seed=rng.randrange(10 ** 9), wander=rng.randrange(3), base=rng.choice([0, 0, 7]))


def check_primer(inp):
    """a primer of the packets' keys: all entries, whatever their tags"""
    from aaf2 import mxf
    rng = random.Random(inp['seed'])
    want = dict((rng.choice([0x3c0a, 0x0201, 0x8000, 0xffff, 0x7fff, 0, rng.randrange(65536)]), rb(rng, 16)) for _ in range(rng.choice([0, 1, 2, 5, 40])))
    d = struct.pack('>II', len(want), 18) + b''.join(struct.pack('>H', t) + u for t, u in want.items())
    o = object.__new__(mxf.MXFFile)
    f = BytesIO(b'xyz' + d + b'behind')
    f.seek(3)
    got = o.read_primer(f, len(d))
    if {t: bytes(u.bytes_be) for t, u in got.items()} != want:
        return 'a primer of the tags %s is read as %s' % (['%04x' % t for t in want], got)
    if f.tell() != 3 + len(d):
        return 'the primer is not read to its end'
    return None


class Sparse(object):
    """a file of any size: the given pieces, 0xff in between"""

    def __init__(self, pieces, size): self.pieces, self.size, self.pos = pieces, size, 0
    def tell(self): return self.pos

    def seek(self, p, how=0):
        p = p + (0, self.pos, self.size)[how]
        if p < 0:
            raise ValueError('negative seek position')
        self.pos = p
        return p

    def read(self, n=-1):
        n = max(0, min(self.size - self.pos, n if n is not None and n >= 0 else self.size))
        if n > 1 << 24:
            raise MemoryError('reads %d bytes' % n)
        r = bytearray(b'\xff' * n)
        for at, d in self.pieces:
            for k, x in enumerate(d):
                if self.pos <= at + k < self.pos + n:
                    r[at + k - self.pos] = x
        self.pos += n
        return bytes(r)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)


def check_walk(inp):
    from aaf2 import mxf
    r = check_primer(inp)
    if r:
        return r
    from io import BytesIO
    rng = random.Random(inp['seed'])
    pieces, want = [(0, b'x' * inp['base'])], []
    pos = inp['base']
    for k, n, form in inp['packets']:
        head = bytes(bytearray.fromhex(k)) + eber(n, form)
        want.append((k, n, pos + len(head)))
        pieces += [(pos, head), (pos + len(head), rb(rng, min(n, 64)))]
        pos += len(head) + n
    f = Sparse(pieces, pos)
    f.seek(inp['base'])
    got = []
    for k, n in mxf.iter_kl(f):
        got.append((bytes(k.bytes_be).hex(), n, f.tell()))
        if len(got) > len(want):
            return 'more packets than there are: %r' % (got[-1],)
        if inp['wander'] == 1:
            f.read(min(n, 100))
        elif inp['wander'] == 2:
            f.seek(rng.randrange(pos + 5))
    for j, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return 'packet %d: key, length, offset %r, not %r' % (j, a, b)
    if len(got) != len(want):
        return '%d packets of %d' % (len(got), len(want))


def shrink_walk(inp):
    for ps in drop_chunks(inp['packets']):
        yield dict(inp, packets=ps)


def run_walk(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_walk, check_walk, nq=2500, shrink=shrink_walk)


def gvalue(rng, kind, ids):
    """[hex of the stored value, what it means]"""
    num = {'u8': (1, 0), 'u16': (2, 0), 'u32': (4, 0), 's32': (4, 1), 'u64': (8, 0), 's64': (8, 1)}
    if kind in num:
        n, sg = num[kind]
        v = rng.choice([0, 1, 255, 256, (1 << 8 * n - 1) - 1, rng.randrange(1 << 8 * n - 1)])
        if sg:
            v = rng.choice([v, -1, -v, -(1 << 8 * n - 1)])
        else:
            v = rng.choice([v, (1 << 8 * n) - 1, 1 << 8 * n - 1])
        v = v % (1 << 8 * n) if not sg else v
        return [(v % (1 << 8 * n)).to_bytes(n, 'big').hex(), v]
    if kind == 'u31':
        v = rng.choice([0, 1, 2 ** 31 - 1, 300])
        return [v.to_bytes(4, 'big').hex(), v]
    if kind == 'bool':
        v = rng.randrange(2)
        return ['%02x' % v, bool(v)]
    if kind in ('auid', 'ref'):
        h = rng.choice(ids) if kind == 'ref' and ids and rng.random() < .8 else rb(rng, 16).hex()
        return [h, h]
    if kind == 'rauid':
        h = rb(rng, 16).hex()
        return [h, h[16:] + h[:16]]
    if kind == 'refs':
        hs = [rng.choice(ids) if ids and rng.random() < .8 else rb(rng, 16).hex() for _ in range(rng.choice([0, 1, 2, 5, 40] + [3000] * (rng.random() < .02)))]
        return ['%08x%08x' % (len(hs), 16) + ''.join(hs), hs]
    if kind == 'mobid':
        h = rb(rng, 32).hex()
        return [h, h]
    if kind == 'text':
        s = ''.join(rng.choice('ab /\u00e9\u4e2d\ud7ff\U0001f600') for _ in range(rng.choice([0, 1, 5, 40] + [16000] * (rng.random() < .05))))
        e = s.encode('utf-16be') + rng.choice([b'', b'\0\0', b'\0\0x\0'])
        return [e.hex(), s]
    if kind == 'time':
        d = [rng.randrange(1, 10000), rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(24), rng.randrange(60), rng.randrange(60)]
        return ['%04x' % d[0] + ''.join('%02x' % x for x in d[1:]) + '%02x' % rng.randrange(250), d]
    if kind == 'rational':
        a, b = rng.choice([(25, 1), (30000, 1001), (0, 1), (48000, 1), (2 ** 31 - 1, 2 ** 31 - 1), (1, 0)])
        return ['%08x%08x' % (a, b), '%d/%d' % (a, b)]
    if kind == 'lines':
        v = [rng.randrange(-600, 1200) for _ in range(rng.choice([0, 1, 2]))]
        return ['%08x%08x' % (len(v), 4) + ''.join('%08x' % (x % 2 ** 32) for x in v), (v + [0, 0])[:2]]
    if kind == 'layout':
        v = [[rng.randrange(1, 256), rng.randrange(256)] for _ in range(rng.randrange(9))]
        return [(''.join('%02x%02x' % (a, b) for a, b in v) + '00' * 16)[:32], v]
    if kind == 'indirect':
        k = rng.randrange(3)
        if k == 0:
            v = rng.randrange(-2 ** 31, 2 ** 31)
            return [rev('00060e2b340104014c00070101000000') + '01' + struct.pack('<i', v).hex(), v]
        s = 'v' + ''.join(rng.choice('ab \u00e9\u4e2d') for _ in range(rng.randrange(8)))
        if k == 1:
            return [rev('00060e2b340104014c00021001000000') + '01' + (s + '\0' * rng.randrange(2)).encode('utf-16le').hex(), s]
        return [rev('00060e2b340104014201100200000000') + '01' + (s + '\0' * rng.randrange(2)).encode('utf-16be').hex(), s]
    if kind == 'datadef':
        from aaf2.model import datadefs
        ks = sorted(datadefs.DataDefs)
        k = rng.choice(ks)
        return [rev(k.replace('-', '')), datadefs.DataDefs[k][0]]
    raise AssertionError(kind)


def rev(h): return h[16:] + h[:16]


def gen_file(rng, i):
    n = rng.choice([1, 2, 3, 8, 20])
    ids = []
    while len(ids) < n:
        h = rb(rng, 16).hex()
        if h not in ids:
            ids.append(h)
    uids = sorted(BY_UID)
    dyn = {}
    for k, u in enumerate(uids):
        if rng.random() < .7:
            dyn[str(0x8000 + rng.randrange(100) * 10 + k)] = u
    sets = []
    for k, h in enumerate(ids):
        cls = 'MXFPreface' if k == 0 else rng.choice(sorted(SETS))
        if k and cls == 'MXFPreface':
            cls = 'MXFTrack'
        table = TABLES[SETS[cls][0]]
        ts = [t for t in sorted(table) if rng.random() < .6]
        rng.shuffle(ts)
        items = [[0x3c0a, h, None, None]]
        for t in ts:
            name, kind = table[t]
            a, b = gvalue(rng, kind, ids)
            items.insert(rng.randrange(len(items) + 1), [t, a, name, b])
        for t in sorted(dyn):
            if rng.random() < .3:
                name, kind = BY_UID[dyn[t]]
                a, b = gvalue(rng, kind, ids)
                items.insert(rng.randrange(len(items) + 1), [int(t), a, name, b])
        if rng.random() < .3:
            items.insert(rng.randrange(len(items) + 1), [rng.choice([0x7777, 0x9fff]), rb(rng, rng.randrange(1, 40)).hex(), None, None])
        if rng.random() < .2:
            items.insert(rng.randrange(len(items) + 1), [0x7778, '', None, None])
        sets.append([cls, items, rng.randrange(9), rng.random() < .25])
    if rng.random() < .3:
        rng.shuffle(sets)
    return dict(sets=sets, dyn=dyn, kag=rng.choice([0, 1, 1, 16, 256, 512, 0x1000]), form=rng.randrange(9), containers=rng.choice([0, 1, 2, 23, 24, 25, 26, 40]), seed=rng.randrange(10 ** 9),
                closed=rng.random() < .85, index=rng.choice([0, 0, 1000]), body=rng.randrange(3), pattern=rng.choice(['01010100', '10000000', '02030000']))


def form_for(n, form):
    while form and n >= 1 << 8 * form:
        form += 1
    if form == 0 and n > 127:
        form = 4
    return form


def klv(key, value, form): return bytes(bytearray.fromhex(key)) + eber(len(value), form_for(len(value), form)) + value


def fill(pos, kag, form):
    """a fill packet up to the next multiple"""
    if kag < 2 or pos % kag == 0:
        return b''
    n = kag - pos % kag
    head = 16 + 1 + form_for(10, form)
    while n < head + 6:
        n += kag
    for fm in [form] + list(range(9)):
        v = n - 17 - fm
        if v >= 0 and form_for(v, fm) == fm:
            return bytes(bytearray.fromhex(FILL)) + eber(v, fm) + b'\0' * v
    raise AssertionError('fill')


def build(inp):
    rng = random.Random(inp['seed'])
    kag = inp['kag']
    prim = [(int(t), u.replace('-', '')) for t, u in sorted(inp['dyn'].items())] + [(0x4401, rb(rng, 16).hex())]
    meta = klv('060e2b34020501010d01020101050100', bytes(bytearray.fromhex('%08x%08x' % (len(prim), 18) + ''.join('%04x%s' % p for p in prim))), 4)
    for cls, items, form, gap in inp['sets']:
        v = b''.join(bytes(bytearray.fromhex('%04x%04x' % (t, len(h) // 2) + h)) for t, h, name, val in items)
        key = '060e2b34025301010d01010101' + '01%02x00' % SETS[cls][1]
        meta += klv(key, v, form)
        if gap:
            meta += klv(FILL, b'\0' * rng.randrange(200), form)
    op = '060e2b34040101010d010201' + inp['pattern']

    def pack(hbc, ibc):
        v = bytes(bytearray.fromhex('%04x%04x%08x%016x%016x%016x%016x%016x%08x%016x%08x' % (1, 3, kag, 0, 0, 0, hbc, ibc, 1 if ibc else 0, 0, 0) + op +
                                    '%08x%08x' % (inp['containers'], 16) + ''.join(rb(rng, 16).hex() for _ in range(inp['containers']))))
        return klv('060e2b34020501010d010201010204' [:30] + '00' if inp['closed'] else '060e2b34020501010d01020101020100', v, inp['form'])
    p = pack(0, 0)
    first = len(p)
    gap = fill(first, kag, 4)
    at = first + len(gap)
    tail = fill(at + len(meta), kag, 4)
    idx = b''
    if inp['index']:
        idx = klv('060e2b34025301010d01020101100100', b'\x3f\x0a\0\x10' + rb(rng, 16) + b'\x77\x77' + struct.pack('>H', inp['index']) + b'\1' * inp['index'], 4)
        idx += fill(at + len(meta) + len(tail) + len(idx), kag, 4)
    rng.seed(inp['seed'] + 1)
    p = pack(len(meta) + len(tail), len(idx))
    out = p + gap + meta + tail + idx
    for _ in range(inp['body']):
        out += klv('060e2b34020501010d01020101030400', rb(rng, 88), 4)
        out += klv('060e2b34010201010d01030116010100', rb(rng, rng.choice([0, 100, 70000])), 4)
    return out


def meant(kind, got, want):
    from aaf2 import mxf
    hexof = lambda x: bytes(x.bytes_be).hex()
    if kind in ('auid', 'ref', 'rauid'):
        return hexof(got) == want
    if kind == 'refs':
        return isinstance(got, mxf.MXFRefArray) and [hexof(x) for x in got] == want
    if kind == 'mobid':
        return mob_hex(got) == want
    if kind == 'time':
        return isinstance(got, datetime.datetime) and [got.year, got.month, got.day, got.hour, got.minute, got.second] == want
    if kind == 'layout':
        return [[x['Code'], x['Size']] for x in got] == want
    return type(got) in (type(want), str) and got == want


def mob_hex(m):
    """the text form of an umid: the bytes in the order in which MXF stores them"""
    return str(m).replace('urn:smpte:umid:', '').replace('.', '').lower()


def check_file(inp):
    from aaf2 import mxf
    data = build(inp)
    d = scratch()
    try:
        p = os.path.join(d, 'a.mxf')
        with open(p, 'wb') as f:
            f.write(data)
        m = mxf.MXFFile(p)
    finally:
        shutil.rmtree(d)
    kinds = {}
    last = {}
    for cls, items, form, gap in inp['sets']:
        h = [x[1] for x in items if x[0] == 0x3c0a][0]
        last[h] = (cls, items)
    got = {bytes(k.bytes_be).hex(): v for k, v in m.objects.items() if k is not None}
    if sorted(got) != sorted(last):
        lost = [last[k][0] for k in last if k not in got]
        return '%d sets of %d%s' % (len(got), len(last), ', lost %s' % lost if lost else ', others')
    for h, (cls, items) in last.items():
        o = got[h]
        if type(o).__name__ != cls:
            return '%s read as %s' % (cls, type(o).__name__)
        table = TABLES[SETS[cls][0]]
        want = {}
        for t, hx, name, val in items:
            if name is None or not hx:
                continue
            kind = table[t][1] if t in table else [k for n, k in BY_UID.values() if n == name][0]
            want[name] = (kind, val)
        if sorted(o.data) != sorted(want):
            return '%s has %s, stored %s' % (cls, sorted(o.data), sorted(want))
        for name, (kind, val) in want.items():
            if not meant(kind, o.data[name], val):
                return '%s.%s (%s) is %r, stored %r' % (cls, name, kind, o.data[name], val)
            if kind == 'ref':
                r = m.resolve(o.data[name])
                if r is not m.objects.get(o.data[name]):
                    return 'reference %s' % name
    if m.preface is None or m.preface.instance_id is None or type(m.preface).__name__ != 'MXFPreface':
        return 'no preface'
    if inp['closed'] or any(x[2] == 'OperationalPattern' for c, items in last.values() for x in items):
        if inp['closed']:
            w = {'01010100': 'OP1a', '10000000': 'OPAtom', '02030000': 'OP2c'}[inp['pattern']]
            if m.operation_pattern != w:
                return 'operational pattern %r, not %r' % (m.operation_pattern, w)


def shrink_file(inp):
    for ss in drop_chunks(inp['sets']):
        if any(s[0] == 'MXFPreface' for s in ss):
            yield dict(inp, sets=ss)
    for k, s in enumerate(inp['sets']):
        for items in drop_chunks(s[1]):
            if any(x[0] == 0x3c0a for x in items):
                yield dict(inp, sets=inp['sets'][:k] + [[s[0], items] + s[2:]] + inp['sets'][k + 1:])


def run_file(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_file, check_file, nq=1500, shrink=shrink_file)


# ---------------------------------------------------------------- bounded: linked into an AAF file
DESC = {
    'MXFCDCIDescriptor': ('CDCIDescriptor', ['ComponentWidth', 'HorizontalSubsampling', 'ImageAspectRatio', 'StoredWidth', 'VideoLineMap', 'StoredHeight', 'SampleRate', 'FrameLayout'],
                          ['FrameSampleSize', 'ResolutionID', 'VerticalSubsampling', 'SampledWidth', 'SampledHeight', 'LinkedSlotID', 'Length']),
    'MXFMPEG2VideoDescriptor': ('CDCIDescriptor', ['ComponentWidth', 'HorizontalSubsampling', 'ImageAspectRatio', 'StoredWidth', 'VideoLineMap', 'StoredHeight', 'SampleRate', 'FrameLayout'],
                                ['FrameSampleSize', 'VerticalSubsampling', 'SampledWidth', 'SampledHeight', 'LinkedSlotID', 'Length']),
    'MXFRGBADescriptor': ('RGBADescriptor', ['ImageAspectRatio', 'StoredWidth', 'FrameLayout', 'PixelLayout', 'VideoLineMap', 'StoredHeight', 'SampleRate'],
                          ['SampledWidth', 'SampledHeight', 'LinkedSlotID', 'Length']),
    'MXFPCMDescriptor': ('PCMDescriptor', ['BlockAlign', 'AverageBPS', 'Channels', 'QuantizationBits', 'AudioSamplingRate', 'SampleRate'], ['LinkedSlotID', 'Length']),
    'MXFAES3AudioDescriptor': ('PCMDescriptor', ['BlockAlign', 'AverageBPS', 'Channels', 'QuantizationBits', 'AudioSamplingRate', 'SampleRate'], ['LinkedSlotID', 'Length']),
    'MXFSoundDescriptor': ('PCMDescriptor', ['BlockAlign', 'AverageBPS', 'Channels', 'QuantizationBits', 'AudioSamplingRate', 'SampleRate'], ['LinkedSlotID', 'Length']),
    'MXFTapeDescriptor': ('TapeDescriptor', [], []), 'MXFImportDescriptor': ('ImportDescriptor', [], [])}
DV = {'ImageAspectRatio': 'rational', 'VideoLineMap': 'lines2', 'SampleRate': 'rational', 'AudioSamplingRate': 'rational', 'PixelLayout': 'layout', 'FrameLayout': 'layoutkind', 'Length': 'len',
      'BlockAlign': 'u16', 'FrameSampleSize': 's32', 'ResolutionID': 's32'}
TAGOF = {name: t for t, (name, kind) in TABLES['MXFDescriptor'].items()}
TAGOF.update(FrameSampleSize=0x9001, ResolutionID=0x9002)
LAYOUTS = ['FullFrame', 'SeparateFields', 'OneField', 'MixedFields', 'SegmentedFrame']


def gdesc(rng, cls):
    aaf, need, opt = DESC[cls]
    items = []
    for n in need + [o for o in opt if rng.random() < .6]:
        k = DV.get(n, 'u32')
        if k == 'lines2':
            v = [rng.randrange(-5, 600), rng.randrange(0, 600)]
            items.append([TAGOF[n], '%08x%08x' % (2, 4) + ''.join('%08x' % (x % 2 ** 32) for x in v), n, v])
        elif k == 'layoutkind':
            j = rng.randrange(5)
            items.append([TAGOF[n], '%02x' % j, n, LAYOUTS[j]])
        elif k == 'layout':
            v = [[82, 10], [71, 10], [66, 10], [65, 10]][:rng.choice([3, 4])]
            items.append([TAGOF[n], (''.join('%02x%02x' % (a, b) for a, b in v) + '00' * 16)[:32], n, v])
        elif k == 'len':
            v = rng.choice([0, 1, 1000, 2 ** 40])
            items.append([TAGOF[n], '%016x' % v, n, v])
        elif k == 'rational':
            a, b = rng.choice([(25, 1), (30000, 1001), (48000, 1), (16, 9)])
            items.append([TAGOF[n], '%08x%08x' % (a, b), n, [a, b]])
        else:
            a, v = gvalue(rng, k, [])
            items.append([TAGOF[n], a, n, v])
    return items


def gen_link(rng, i):
    mobs = [rb(rng, 32).hex() for _ in range(rng.choice([1, 2, 3]))]
    pk = []
    for j, mob in enumerate(mobs):
        tracks = []
        idn = rng.sample([0, 1, 2, 3, 4, 7, 99, 2 ** 31 - 1], 4) if rng.random() < .5 else [1, 2, 3, 4]
        for s in range(rng.choice([0, 1, 2, 4])):
            kind = rng.choice(['MXFSequence', 'MXFSequence', 'MXFSourceClip', 'MXFTimecode', 'MXFFiller', 'MXFScopeReference', 'MXFPulldown', 'MXFEssenceGroup'])
            comps = [['MXFSourceClip' if kind == 'MXFEssenceGroup' else rng.choice(['MXFSourceClip', 'MXFSourceClip', 'MXFFiller']), rng.choice([0, 1, 1000, 2 ** 33]), rng.choice([0, 5, 2 ** 33]), rng.choice(mobs + ['00' * 32]), rng.randrange(5)]
                     for _ in range(rng.choice([0, 1, 2, 5]) if kind in ('MXFSequence', 'MXFEssenceGroup') else 1)]
            tracks.append(dict(id=idn[s], name=rng.choice([None, 'V%d' % s, 'T\u00e4']), rate=rng.choice([[25, 1], [30000, 1001]]), origin=rng.choice([0, 3, -2]), number=rng.choice([None, 0, 1, 2 ** 31]), scope=[rng.randrange(3), rng.randrange(9)], pull=[rng.randrange(4), rng.randrange(2), rng.choice([0, 3, 2 ** 31 - 1])], kind=kind,
                               comps=comps, fps=rng.choice([25, 30]), drop=rng.randrange(2), start=rng.choice([0, 90000, 2 ** 35]), dd=rng.randrange(2), cls=rng.choice(['MXFTrack'] * 4 + ['MXFStaticTrack', 'MXFEventTrack'])))
        cls = None if j == 0 else rng.choice(sorted(DESC))
        pk.append(dict(mob=mob, name=rng.choice([None, 'clip', 'n\u00e4me']), tracks=tracks, desc=cls, items=gdesc(rng, cls) if cls else [], time=[rng.randrange(1970, 2100), rng.randrange(1, 13), rng.randrange(1, 29), 1, 2, 3],
                       comments=[['Tape', 'x1'], ['Scene', '\u00e4']][:rng.randrange(3)]))
    return dict(packages=pk, seed=rng.randrange(10 ** 9), again=rng.random() < .2)


PULLS = ['TwoThreePD', 'PALPD', 'OneToOneNTSC', 'OneToOnePAL']
DIRS = ['TapeToFilmSpeed', 'FilmToTapeSpeed']
DD = ['01030202-0100-0000-060e-2b3404010101', '01030202-0200-0000-060e-2b3404010101']      # picture, sound


def link_file(inp):
    rng = random.Random(inp['seed'])
    ids = {}
    ident = lambda k: ids.setdefault(k, rb(rng, 16).hex())
    sets = []
    def add(cls, name, items):
        sets.append([cls, [[0x3c0a, ident(name), None, None]] + [[t, h, None, None] for t, h in items], rng.randrange(9), rng.random() < .2])
        return ident(name)
    refs = lambda hs: '%08x%08x' % (len(hs), 16) + ''.join(hs)
    text = lambda s: s.encode('utf-16be').hex()
    pks = []
    for j, p in enumerate(inp['packages']):
        trs = []
        for k, t in enumerate(p['tracks']):
            w = (j, k)
            dd = (0x0201, rev(DD[t['dd']].replace('-', '')))
            def comp(name, c):
                cls, n, start, mob, slot = c
                items = [dd, (0x0202, '%016x' % n)]
                if cls == 'MXFSourceClip':
                    items += [(0x1201, '%016x' % start), (0x1101, mob), (0x1102, '%08x' % slot)]
                return add(cls, name, items)
            if t['kind'] == 'MXFSequence':
                cs = [comp(w + (q,), c) for q, c in enumerate(t['comps'])]
                seg = add('MXFSequence', w + ('seq',), [dd, (0x0202, '%016x' % sum(c[1] for c in t['comps'])), (0x1001, refs(cs))])
            elif t['kind'] == 'MXFTimecode':
                seg = add('MXFTimecode', w + ('tc',), [(0x0201, rev('01030201010000000' + '60e2b3404010101')), (0x0202, '%016x' % t['comps'][0][1]), (0x1502, '%04x' % t['fps']), (0x1503, '%02x' % t['drop']), (0x1501, '%016x' % t['start'])])
            elif t['kind'] == 'MXFScopeReference':
                seg = add('MXFScopeReference', w + ('c',), [dd, (0x0202, '%016x' % t['comps'][0][1]), (0x0e01, '%08x' % t['scope'][0]), (0x0e02, '%08x' % t['scope'][1])])
            elif t['kind'] == 'MXFEssenceGroup':
                cs = [comp(w + (q,), c) for q, c in enumerate(t['comps'])]
                seg = add('MXFEssenceGroup', w + ('g',), [dd, (0x0202, '%016x' % 7), (0x0501, refs(cs))])
            elif t['kind'] == 'MXFPulldown':
                c = comp(w + ('c',), t['comps'][0])
                seg = add('MXFPulldown', w + ('p',), [dd, (0x0202, '%016x' % t['comps'][0][1]), (0x0d01, c), (0x0d02, '%02x' % t['pull'][0]), (0x0d03, '%02x' % t['pull'][1]), (0x0d04, '%08x' % t['pull'][2])])
            else:
                seg = comp(w + ('c',), [t['kind']] + t['comps'][0][1:])
            items = [(0x4801, '%08x' % t['id']), (0x4b01, '%08x%08x' % tuple(t['rate'])), (0x4b02, '%016x' % (t['origin'] % 2 ** 64)), (0x4803, seg)]
            if t['name'] is not None:
                items.append((0x4802, text(t['name'])))
            if t['number'] is not None:
                items.append((0x4804, '%08x' % t['number']))
            trs.append(add(t['cls'], w, items))
        d = p['time']
        stamp = '%04x' % d[0] + ''.join('%02x' % x for x in d[1:]) + '00'
        items = [(0x4401, p['mob']), (0x4403, refs(trs)), (0x4404, stamp), (0x4405, stamp)]
        if p['name'] is not None:
            items.append((0x4402, text(p['name'])))
        if p['comments']:
            items.append((0x4406, refs([add('MXFTaggedValue', (j, 'tag', a), [(0x5001, text(a)), (0x5003, rev('00060e2b340104014c00021001000000') + '01' + b.encode('utf-16le').hex() + '0000')]) for a, b in p['comments']])))
        if p['desc']:
            loc = []
            items.append((0x4701, add(p['desc'], (j, 'desc'), [(t, h) for t, h, n, v in p['items']] + loc)))
        pks.append(add('MXFMaterialPackage' if not p['desc'] else 'MXFSourcePackage', (j,), items))
    sto = add('MXFContentStorage', 'storage', [(0x1901, refs(pks))])
    add('MXFPreface', 'preface', [(0x3b03, sto)])
    rng.shuffle(sets)
    return build(dict(sets=sets, dyn={str(0x9001): 'a0240060-94eb-75cb-ce2a-ca5051ab11d3', str(0x9002): 'a0240060-94eb-75cb-ce2a-ca4d51ab11d3'}, kag=1, form=4, containers=1, seed=inp['seed'], closed=True, index=0, body=1, pattern='01010100'))


class Shared(object):
    f, n = None, 0

    def get(self):
        import aaf2
        if self.f is None or self.n > 40:
            self.f, self.n = aaf2.open(), 0
        self.n += 1
        return self.f


SHARED = Shared()


def check_link(inp):
    from aaf2 import mxf, components
    f = SHARED.get()
    SHARED.f = None          # a file in which a case went wrong is not used again
    d = scratch()
    try:
        path = os.path.join(d, 'a.mxf')
        with open(path, 'wb') as o:
            o.write(link_file(inp))
        m = mxf.MXFFile(path)
        mobs = m.link(f)
        if inp['again'] and m.link(f):
            return 'linked twice'
    finally:
        shutil.rmtree(d)
    if len(mobs) != len(inp['packages']):
        return '%d mobs of %d packages' % (len(mobs), len(inp['packages']))
    for mob, p in zip(mobs, inp['packages']):
        r = linked(f, mob, p)
        if r:
            return '%s %s: %s' % (type(mob).__name__, p['mob'][:6], r)
    for mob in mobs:
        f.content.mobs.pop(mob.mob_id)
    SHARED.f = f


def linked(f, mob, p):
    if mob_hex(mob.mob_id) != p['mob'] or f.content.mobs.get(mob.mob_id) is not mob:
        return 'mob id %s' % mob.mob_id
    if type(mob).__name__ != ('SourceMob' if p['desc'] else 'MasterMob'):
        return 'wrong class'
    if p['name'] is not None and mob.name != p['name']:
        return 'name %r, not %r' % (mob.name, p['name'])
    for k in ('CreationTime', 'LastModified'):
        t = mob[k].value
        if [t.year, t.month, t.day, t.hour, t.minute, t.second] != p['time']:
            return '%s is %s' % (k, t)
    got = [(c.name, c.value) for c in mob['UserComments'].value] if 'UserComments' in mob else []
    if got != [tuple(c) for c in p['comments']]:
        return 'comments %r, not %r' % (got, p['comments'])
    tracks = [t for t in p['tracks'] if t['cls'] == 'MXFTrack']
    slots = list(mob.slots)
    if [s.slot_id for s in slots] != [t['id'] for t in tracks]:
        return 'slots %r, not %r' % ([s.slot_id for s in slots], [t['id'] for t in tracks])
    for s, t in zip(slots, tracks):
        g = s['EditRate'].value
        if [g.numerator, g.denominator] != t['rate'] or s['Origin'].value != t['origin']:
            return 'slot %d: edit rate %s, origin %s' % (t['id'], g, s['Origin'].value)
        if t['name'] is not None and s.name != t['name']:
            return 'slot %d: name %r, not %r' % (t['id'], s.name, t['name'])
        if (s['PhysicalTrackNumber'].value if 'PhysicalTrackNumber' in s else None) != t['number']:
            return 'slot %d: track number' % t['id']
        seg = s.segment
        kind = t['kind'][3:]
        if type(seg).__name__ != kind:
            return 'slot %d has a %s' % (t['id'], type(seg).__name__)
        if kind == 'Timecode':
            g = [seg.length, seg['FPS'].value, int(seg['Drop'].value), seg['Start'].value]
            w = [t['comps'][0][1], t['fps'], t['drop'], t['start']]
            if g != w:
                return 'timecode %r, not %r' % (g, w)
            continue
        if kind == 'ScopeReference':
            if [seg['RelativeScope'].value, seg['RelativeSlot'].value, seg.length] != t['scope'] + [t['comps'][0][1]]:
                return 'scope reference'
            continue
        if kind == 'Pulldown':
            g = [seg['PulldownKind'].value, seg['PulldownDirection'].value, seg['PhaseFrame'].value, seg.length]
            w = [PULLS[t['pull'][0]], DIRS[t['pull'][1]], t['pull'][2], t['comps'][0][1]]
            if g != w:
                return 'pulldown %r, not %r' % (g, w)
        if kind == 'EssenceGroup' and seg.length != 7:
            return 'essence group of length %r' % seg.length
        cs = list(seg.components) if kind == 'Sequence' else list(seg['Choices'].value) if kind == 'EssenceGroup' else [seg['InputSegment'].value] if kind == 'Pulldown' else [seg]
        if kind == 'Sequence' and seg.length != sum(c[1] for c in t['comps']):
            return 'sequence of length %r' % seg.length
        if len(cs) != len(t['comps']):
            return '%d components of %d' % (len(cs), len(t['comps']))
        for c, (k, n, start, mid, sid) in zip(cs, t['comps']):
            if kind not in ('Sequence', 'EssenceGroup', 'Pulldown'):
                k = t['kind']
            if type(c).__name__ != k[3:] or c.length != n:
                return '%s of length %r, not %s of %r' % (type(c).__name__, c.length, k[3:], n)
            if c.media_kind != ['Picture', 'Sound'][t['dd']] and str(c.datadef.auid) != DD[t['dd']]:
                return 'data definition %r' % c.media_kind
            if k == 'MXFSourceClip':
                g = [c['StartTime'].value, mob_hex(c['SourceID'].value), c['SourceMobSlotID'].value]
                if g != [start, mid, sid]:
                    return 'clip %r, not %r' % (g, [start, mid, sid])
    if p['desc']:
        q = mob.descriptor
        if type(q).__name__ != DESC[p['desc']][0]:
            return 'descriptor %s' % type(q).__name__
        for t, h, n, v in p['items']:
            g = q[n].value
            k = DV.get(n, 'u32')
            if k == 'rational':
                g = [g.numerator, g.denominator] if [g.numerator, g.denominator] != v else v
            elif k == 'layout':
                g = [[x['Code'], x['Size']] for x in g][:len(v)]
                codes = {82: 'CompRed', 71: 'CompGreen', 66: 'CompBlue', 65: 'CompAlpha'}
                g = [[a, b] for a, b in g]
                v = [[codes[a] if isinstance(x[0], str) else a, b] for (a, b), x in zip(v, g)]
            elif k == 'lines2':
                g = list(g)
            if g != v:
                return 'descriptor: %s is %r, stored %r' % (n, g, v)


def shrink_link(inp):
    for ps in drop_chunks(inp['packages']):
        if ps:
            yield dict(inp, packages=ps)
    for j, p in enumerate(inp['packages']):
        for ts in drop_chunks(p['tracks']):
            yield dict(inp, packages=inp['packages'][:j] + [dict(p, tracks=ts)] + inp['packages'][j + 1:])


def run_link(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen_link, check_link, nq=600, shrink=shrink_link)


def rep(m, name):
    rng = random.Random(3)
    for i in range(60):
        r = check_walk(gen_walk(rng, i))
        if r:
            return r
    return None


UNITS = [Unit('numbers', numbers, [U + n for n in sorted(NUM)], rep, covers=['entry'] + sorted(NUM)),
         Unit('length of a packet', ber, [M + 'ber_length', U + 'int_from_bytes'], rep, covers=['entry', 'short', 'long']),
         Unit('walk over packets', walk, [M + 'iter_kl'], rep, covers=['entry', 'packet', 'end']),
         Unit('walk over tags', tags, [M + 'iter_tags'], rep, covers=['entry', 'tag', 'end']),
         Unit('array of references', array, [M + 'decode_strong_ref_array'], rep, covers=['entry', 'done']),
         Unit('primer', primer, [M + 'MXFFile.read_primer'], rep, covers=['entry', 'done']),
         Unit('extent of the header', header, [M + 'MXFFile.read_header', M + 'MXFFile.round_to_kag'], rep, covers=['entry']),
         Unit('object of a set', obj, [M + 'MXFFile.read_object'], rep, covers=['entry', 'known']),
         Unit('values of a set', properties, [M + 'MXFObject.read_properties'], rep, covers=['entry', 'plain', 'named']),
         Unit('keys of the sets', classes, [M + 'register_mxf_class'], rep, covers=['entry'])]
UNITS += [Unit('tags of %s' % c, meaning(c), [M + '%s.read_tag' % c], rep, covers=['entry', 'known', 'other']) for c in
          ('MXFPreface', 'MXFContentStorage', 'MXFMaterialPackage', 'MXFTrack', 'MXFSourceClip', 'MXFCDCIDescriptor', 'MXFNetworkLocator', 'MXFEssenceData', 'MXFTaggedValue')]
UNITS += [Unit('link of %s' % c, mxflink.linking(c, mxflink.TABLE[c][0], **mxflink.TABLE[c][1]), [M + '%s.link' % c], rep, covers=['entry', 'done'], timeout=180) for c in sorted(mxflink.TABLE)]
UNITS += [Unit('references of a set', mxflink.references, [M + 'MXFObject.iter_strong_refs', M + 'MXFObject.resolve_ref', M + 'MXFFile.resolve'], rep,
               covers=['entry', 'object', 'end', 'resolved', 'refused']),
          Unit('sets of a file', mxflink.file_read, [M + 'MXFFile.__init__'], rep, covers=['entry', 'primer', 'set', 'end']),
          Unit('link of a file', mxflink.file_link, [M + 'MXFFile.link'], rep, covers=['entry', 'done'])]
BOUNDED = [Bounded('walks', run_walk, 'random files of 0 to 30 packets, lengths 0 to 2^62 in every length form, the file moved by the user in between; primers of up to 40 entries', [M + 'iter_kl', M + 'ber_length', M + 'MXFFile.read_primer'], check_walk, budget=4),
           Bounded('files', run_file, 'random MXF files: partition pack (alignment grids 0 to 4096, up to 40 containers), primer with own tags, up to 20 metadata sets of all classes with values of every kind, fill, '
                   'index and body partitions; every set and value compared with what was stored', [M + 'MXFFile', M + 'MXFObject.read_properties'], check_file, budget=8),
           Bounded('links', run_link, 'random MXF files of 1 to 3 packages with tracks, sequences, clips, timecode, comments and descriptors of 8 kinds linked into an AAF file; every value of the mobs compared',
                   [M + 'MXFPackage.link', M + 'MXFTrack.link', M + 'MXFSequence.link', M + 'MXFSourceClip.link', M + 'MXFTimecode.link', M + 'MXFCDCIDescriptor.link', M + 'MXFPCMDescriptor.link'], check_link, budget=8)]
