"""P20: imported essence is stored and exported without change.

Streams are cells at positions: Piece(p, n) is the n bytes which stand at p in the source.  Sinks prove that every piece continues where the last one ended, so what they hold is a prefix of the source."""
import os, random, struct, wave, io as _io
from fractions import Fraction
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec, Val
from pydv.seq import mk, sym_bytes, val_eq
from pydv.runner import Unit, Bounded
from specs.common import drive, AafFiles, drop_chunks
from specs.aafsym import Content, Rd

MB = 'mobs.SourceMob.'

# SMPTE ST 2019-1: size of a frame by compression id
HD = {1235: 917504, 1237: 606208, 1238: 917504, 1241: 917504, 1242: 606208, 1243: 917504, 1244: 606208, 1250: 458752, 1251: 458752, 1252: 303104,
      1253: 188416, 1256: 1835008, 1258: 212992, 1259: 417792, 1260: 835584}
# and the ratio of the resolution independent ones
HR = {1270: (57344, 255), 1271: (28672, 255), 1272: (28672, 255), 1273: (18944, 255), 1274: (5888, 255)}
# the last but two bytes of the compression ids
AUIDS = {1235: '7101', 1237: '7103', 1238: '7104', 1241: '7107', 1242: '7108', 1243: '7109', 1244: '710a', 1250: '7110', 1251: '7111', 1252: '7112',
         1253: '7113', 1256: '7116', 1258: '7118', 1259: '7119', 1260: '711a', 1270: '7124', 1271: '7125', 1272: '7126', 1273: '7127', 1274: '7128'}


def hr_size(cid, w, h):
    num, den = HR[cid]
    s = -(-h // 16) * -(-w // 16) * num // den
    s = (s + 2048) // 4096 * 4096
    return max(s, 8192)


class Piece(object):
    __slots__ = ('p', 'n')

    def __init__(self, p, n): self.p, self.n = p, n
    def pv_len(self): return self.n
    def __bool__(self): return bool(self.n > 0)
    __nonzero__ = __bool__


class Source(object):
    """n cells, read from the front"""

    def __init__(self, n): self.n, self.pos = n, 0

    def read(self, k=-1):
        rest = self.n - self.pos
        got = ite(k < rest, k, rest)
        prove(k >= 0, 'a size is read')
        r = Piece(self.pos, got)
        self.pos = self.pos + got
        return r

    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass


class Sink(object):
    """holds the first `count` cells of the source"""

    def __init__(self): self.count, self.closed = 0, 0

    def write(self, d):
        prove(isinstance(d, Piece), 'cells of the source are written')
        prove(val_eq(d.p, self.count), 'written behind the last ones')
        self.count = self.count + d.n
        return d.n

    writeframesraw = writeframes = write
    def close(self): self.closed += 1


# -- splitting a stream into frames

class Frames(LoopSpec):
    name = 'frames'
    fn = 'iter_dnx_stream'
    def __init__(self, h): self.h = h
    def match(self, L, env): return not L.isfor
    def ghost0(self, L, env): return dict(p=0)
    def fresh(self, L): return dict(p=fresh_int('p', 0))
    def constraint(self, L, g): return [0 <= g['p'], g['p'] <= self.h['f'].n]
    def state(self, L, g): return {(self.h['f'], 'pos'): g['p']}

    def iteration(self, L, g):
        self.h['p'] = g['p']
        del self.h['got'][:]
        if self.h['whole']:
            # frames follow each other: where the stream has not ended there is a whole one
            p, n = g['p'], self.h['f'].n
            assume(implies(p < n, p + self.h['Z'](p) <= n))

    def next(self, L, g, env):
        prove(len(self.h['got']) == 1, 'one packet per frame')
        n, p = self.h['f'].n, g['p']
        q = p + self.h['Z'](p)
        return dict(p=ite(q < n, q, n))

    def measure(self, L, g): return self.h['f'].n - g['p']


class Joined(object):
    """the io.BytesIO a packet is put together with"""

    def __init__(self): self.start, self.n = None, 0
    def __enter__(self): return self
    def __exit__(self, *a): return False

    def write(self, d):
        if self.start is None:
            self.start = d.p
        prove(val_eq(d.p, self.start + self.n), 'the rest of the frame follows its header')
        self.n = self.n + d.n

    def getvalue(self): return Piece(self.start, self.n)


def split(whole):
    def body(P):
        from pydv import loops
        v = P.video
        f = Source(fresh_int('bytes', 0))
        Z = UF('frame size', 1, 640)
        h = dict(f=f, Z=Z, p=0, got=[], whole=whole)

        def header(d):
            prove(and_(val_eq(d.p, h['p']), val_eq(d.n, 640)), 'the header is the first 640 bytes')
            return (('cid', d.p), ('width', d.p), ('height', d.p), ('depth', d.p), ('interlaced', d.p))

        def size(cid, width=None, height=None):
            prove(cid[0] == 'cid' and width[0] == 'width' and height[0] == 'height', 'size from the id, the width and the height')
            return Z(cid[1])
        v.read_dnx_frame_header, v.dnx_frame_size, v.BytesIO = header, size, Joined
        loops.ACTIVE[:] = [[Frames(h)]]
        ctx().cover('entry')
        for d in v.iter_dnx_stream(f):
            h['got'].append(d)
            p, n = h['p'], f.n
            prove(isinstance(d, Piece) and val_eq(d.p, p), 'begins where the last frame ended')
            z = Z(p)
            if whole:
                prove(val_eq(d.n, z), 'has the size its header defines')
            else:
                prove(val_eq(d.n, ite(p + z < n, z, n - p)), 'has the size its header defines, or what the stream has of it')
            ctx().cover('frame')
        if whole:
            prove(val_eq(h['p'], f.n), 'ends where the stream ends')
        else:
            prove(f.n - h['p'] < 640, 'no header is left')
        ctx().cover('end')
    return body


def header(P):
    n = fresh_int('bytes', 0, note=True)
    B = UF('b', 1, 0, 255)
    d = mk('bytes', n=n, f=B)
    at = [B(k) for k in range(45)] if n >= 640 else None
    ctx().cover('entry')
    try:
        r = P.video.read_dnx_frame_header(d)
    except (ValueError, NotImplementedError) as e:
        if at is None:
            ctx().cover('short')
            return
        hd = and_(at[0] == 0, at[1] == 0, at[2] == 2, at[3] == 0x80, at[4] == 1)
        off = at[2] * 256 + at[3]
        hr = and_(at[0] == 0, at[1] == 0, at[4] == 3, 0x280 <= off, off <= 0x2170, at[3] % 4 == 0)
        depth = at[33] // 32
        prove(or_(not_(or_(hd, hr)), depth < 1, depth > 3, (at[44] // 64) % 2 == 1), 'frames with a good header are taken')
        ctx().cover('refused')
        return
    prove(at is not None, 'a whole header')
    if at is None:
        return
    cid, width, height, depth, inter = r
    w = lambda k, m: sum([at[k + j] * (1 << 8 * (m - 1 - j)) for j in range(m)], 0)
    c = w(40, 4)
    prove(val_eq(cid, ite(c >= 1 << 31, c - (1 << 32), c)), 'the compression id')
    prove(val_eq(width, w(26, 2)), 'the width')
    prove(val_eq(height, w(24, 2)), 'the height')
    prove(val_eq(depth, 6 + 2 * (at[33] // 32)), 'the bits of a component')
    prove(iff(inter, (at[5] // 2) % 2 == 1), 'interlaced')
    ctx().cover('read')


def sizes(P):
    v = P.video
    ctx().cover('entry')
    cids = sorted(HD) + sorted(HR)
    cid = cids[ctx().choose(len(cids))]
    w, h = fresh_int('width', 0, 65535, note=True), fresh_int('height', 0, 65535, note=True)
    r = v.dnx_frame_size(cid, w, h)
    if cid in HD:
        prove(val_eq(r, HD[cid]), 'size of compression id %d' % cid)
    else:
        num, den = HR[cid]
        blocks = ((h + 15) // 16) * ((w + 15) // 16)
        prove(val_eq(r, ite((blocks * num // den + 2048) // 4096 * 4096 < 8192, 8192, (blocks * num // den + 2048) // 4096 * 4096)), 'size of compression id %d' % cid)
    prove(r >= 640, 'longer than its header')
    a = v.dnx_compression_auids[cid]
    prove(str(a) == '04010202-%s-0000-060e-2b34040101%s' % (AUIDS[cid], '0d' if cid in HR else '0a'), 'compression of %d' % cid)
    ctx().cover('done')


# -- mobs

class Prop(object):
    def __init__(self): self.value = None


class Props(object):
    """an object whose properties are given values"""
    length = None

    def __init__(self): self.p = {}

    def __getitem__(self, k):
        if k not in self.p:
            self.p[k] = Prop()
        return self.p[k]

    def get(self, k): return self.p[k].value if k in self.p else None
    def values(self): return {k: v.value for k, v in self.p.items()}


class Slot(object):
    slot_id = 1

    def __init__(self, rate):
        self.edit_rate = rate
        self.segment = Props()


class Mob(object):
    """a source mob; its methods are the functions of /repo"""

    def __init__(self, offline):
        self.sink, self.slot, self.descriptor, self.log = Sink(), None, None, []
        self.offline = offline
        class Lookup(object):
            def __getattr__(s, k): return lambda v: (k, v)
        class Create(object):
            def __getattr__(s, k):
                def make():
                    self.log.append(k)
                    return Props()
                return make
        class Root(object): pass
        self.root = Root()
        self.root.dictionary, self.root.create = Lookup(), Create()

    def create_essence(self, edit_rate=None, media_kind='picture', slot_id=None, offline=False):
        prove(self.slot is None, 'one slot')
        self.slot, self.kind = Slot(edit_rate), media_kind
        prove(bool(offline) == self.offline, 'essence unless offline')
        if offline:
            return None, self.slot
        mob = self
        class Data(object):
            def open(s, mode='r'):
                prove(mode == 'w', 'opened for writing')
                return mob.sink
        return Data(), self.slot


def tape_of():
    return Props() if ctx().choose(2) else None


def length_of():
    k = ctx().choose(2)
    if k:
        n = fresh_int('asked', 1)
        return n
    return None


class Files(object):
    """io: opens the one input file"""
    DEFAULT_BUFFER_SIZE = 8192

    def __init__(self, path, f): self.path, self.f = path, f

    def open(self, path, mode='r', **k):
        prove(path is self.path and mode == 'rb', 'the given file, read as bytes')
        return self.f


class Packet(object):
    def __init__(self, i, p, n): self.i, self.p, self.n = i, p, n
    def pv_len(self): return self.n


class Import(LoopSpec):
    name = 'packets'
    fn = 'import_dnxhd_essence'
    def __init__(self, h): self.h = h
    def match(self, L, env): return L.isfor

    def state(self, L, g):
        h, i = self.h, L.idx
        m = h['mob']
        first = bool(i == 0)
        st = {'cid': Val(None if first else h['cid'], lambda cur: cur is None if first else cur is h['cid']),
              (m.sink, 'count'): 0 if m.offline else h['start'](i)}
        if not first:
            st['i'] = i
        return st

    def iteration(self, L, g):
        h = self.h
        h['i'] = L.idx
        # what the descriptor holds at this point
        d = h['mob'].descriptor
        for k in list(d.p):
            if k in h['want']:
                del d.p[k]
        if not bool(L.idx == 0):
            for k, v in h['want'].items():
                d[k].value = v

    def next(self, L, g, env):
        h = self.h
        check_first(h)
        return g


def check_first(h):
    d = h['mob'].descriptor
    for k, v in h['want'].items():
        got = d.get(k)
        prove(got is not None, '%s is recorded' % k)
        prove(val_eq(got, v) if isinstance(v, (SInt, str, int)) else got == v, '%s of the frames' % k)


def video(P):
    from pydv import loops
    m = P.mobs
    offline = bool(ctx().choose(2))
    mob = Mob(offline)
    n = fresh_int('frames', 1)
    Z, S = UF('size', 1, 640), UF('start', 1, 0)
    assume(S(0) == 0)

    def start(i):
        r = S(i)
        assume(implies(and_(0 <= i, i < n), S(i + 1) == r + Z(i)))
        return r
    source, path = Source(0), object()
    cids = sorted(HD) + sorted(HR)
    width, height, cid = fresh_int('width', 0, 65535), fresh_int('height', 0, 65535), cids[ctx().choose(2) * 19]
    depth, inter = (8, 10, 12)[ctx().choose(3)], bool(ctx().choose(2))
    h = dict(mob=mob, n=n, start=start, cid=cid, i=0)
    h['want'] = dict(StoredWidth=width, StoredHeight=height, ComponentWidth=depth, FrameLayout='SeparateFields' if inter else 'FullFrame',
                     FrameSampleSize=Z(0), HorizontalSubsampling=2, Compression=m.video.dnx_compression_auids[cid])

    def packets(f):
        prove(f is source, 'the packets of the given file')
        class It(object):
            def pv_lazy(s):
                def at(i):
                    start(i)
                    return Packet(i, start(i), Z(i))
                return mk('list', n=n, f=at)
        return It()

    def first(p):
        prove(isinstance(p, Packet) and val_eq(p.i, 0), 'described by the first frame')
        ctx().cover('first')
        return (cid, width, height, depth, inter)
    m.io = Files(path, source)
    m.video.iter_dnx_stream, m.video.read_dnx_frame_header = packets, first
    mob.sink.write = lambda d: write(mob.sink, d)

    def write(s, d):
        prove(isinstance(d, Packet) and not offline, 'frames are written')
        prove(val_eq(d.i, h['i']), 'the frame of this turn')
        s.count = s.count + d.n
    rate, tape, length = object(), tape_of(), length_of()
    loops.ACTIVE[:] = [[Import(h)]]
    ctx().cover('entry')
    slot = m.SourceMob.import_dnxhd_essence(mob, path, rate, tape, length, offline)
    prove(slot is mob.slot and slot.edit_rate is rate and mob.kind == 'picture', 'the slot')
    d = mob.descriptor
    prove(mob.log == ['CDCIDescriptor'], 'one descriptor')
    prove(d.get('SampleRate') is rate, 'the sample rate is the edit rate')
    prove(val_eq(d.length, n), 'Length is the number of frames')
    prove(val_eq(slot.segment.length, n if length is None else length), 'the clip is as long as asked, or as the stream')
    if tape is not None:
        prove(slot.segment is tape, 'the clip of the tape')
    prove(val_eq(mob.sink.count, 0 if offline else start(n)), 'all bytes of all frames')
    check_first(h)
    ctx().cover('frames')


class Copy(LoopSpec):
    """cells go from a source to a sink"""
    name = 'cells'

    def __init__(self, fn, f, sink, step): self.fn, self.f, self.sink, self.step = fn, f, sink, step
    def match(self, L, env): return not L.isfor
    def ghost0(self, L, env): return dict(p=self.f.pos)
    def fresh(self, L): return dict(p=fresh_int('p', 0))
    def constraint(self, L, g): return [0 <= g['p'], g['p'] <= self.f.n]
    def state(self, L, g): return {(self.f, 'pos'): g['p'], (self.sink, 'count'): g['p']}

    def next(self, L, g, env):
        prove(self.f.pos > g['p'], 'goes on')
        return dict(p=self.f.pos)

    def measure(self, L, g): return self.f.n - g['p']


def audio(P):
    from pydv import loops
    m = P.mobs
    offline = bool(ctx().choose(2))
    mob = Mob(offline)
    rate, chans, width, align, n = fresh_int('rate', 1), fresh_int('channels', 1, 65535), fresh_int('width', 2, 3), fresh_int('align', 0, 65535), fresh_int('frames', 0)
    path = object()
    fs, total = fresh_int('bytes of a frame', 1), fresh_int('bytes', 0)
    assume(fs == chans * width)
    assume(total == n * fs)
    src = Source(total)
    src.readframes = lambda k: Source.read(src, k * fs)
    src.getframerate, src.getnchannels, src.getsampwidth = lambda: rate, lambda: chans, lambda: width
    src.getblockalign, src.getnframes = lambda: align, lambda: n

    def reader(p):
        prove(p is path, 'the given file')
        return src
    m.audio.WaveReader = reader
    scaled = fresh_int('rescaled', 0)
    edit = object() if ctx().choose(2) else None
    m.AAFRational = lambda x: ('rational', x)

    def rescale(v, old, new):
        """contract: exact"""
        prove(and_(val_eq(v, n), val_eq(old, rate)), 'the frames at their rate')
        given = new[1] if isinstance(new, tuple) else new
        prove(given is edit if edit is not None else val_eq(given, rate), 'to the edit rate')
        return scaled
    m.rescale = rescale
    tape, length = tape_of(), length_of()
    loops.ACTIVE[:] = [[Copy('import_audio_essence', src, mob.sink, rate)]]
    ctx().cover('entry')
    slot = m.SourceMob.import_audio_essence(mob, path, edit, tape, length, offline)
    d = mob.descriptor
    prove(slot is mob.slot and mob.kind == 'sound', 'the slot')
    prove(slot.edit_rate is edit if edit is not None else val_eq(slot.edit_rate, rate), 'the edit rate asked for, or that of the samples')
    prove(mob.log == ['PCMDescriptor'], 'one descriptor')
    for k, v in (('Channels', chans), ('BlockAlign', align), ('SampleRate', rate), ('AudioSamplingRate', rate), ('QuantizationBits', 8 * width)):
        prove(val_eq(d.get(k), v), '%s of the file' % k)
    prove(implies(align == chans * width, val_eq(d.get('AverageBPS'), rate * chans * width)), 'AverageBPS of the file')
    prove(val_eq(d.length, n), 'Length is the number of frames')
    prove(val_eq(slot.segment.length, scaled if length is None else length), 'the clip is as long as asked, or as the samples')
    if tape is not None:
        prove(slot.segment is tape, 'the clip of the tape')
    prove(val_eq(mob.sink.count, 0 if offline else total), 'every byte of every frame is stored')
    ctx().cover('offline' if offline else 'stored')


def export(P):
    from pydv import loops
    m = P.mobs
    rate, chans, bits, n = fresh_int('rate', 1, (1 << 32) - 1), fresh_int('channels', 1, 65535), fresh_int('bytes of a sample', 1, 8) * 8, fresh_int('bytes', 0)
    src, sink, path = Source(n), Sink(), object()
    head = {}
    sink.setnchannels = lambda v: head.update(channels=v)
    sink.setframerate = lambda v: head.update(rate=v)
    sink.setsampwidth = lambda v: head.update(width=v)

    def write(d):
        prove(len(head) == 3, 'the header is known')
        Sink.write(sink, d)
    sink.writeframesraw = sink.writeframes = write

    def writer(p):
        prove(p is path, 'the given file')
        return sink
    m.audio.wave.Wave_write = writer
    m.audio.wave.open = lambda p, mode=None: writer(p)
    class Desc(m.essence.PCMDescriptor):
        def __init__(s): pass
        def __new__(c): return object.__new__(c)
        def __getitem__(s, k):
            r = Prop()
            r.value = {'Channels': chans, 'SampleRate': rate, 'QuantizationBits': bits, 'AudioSamplingRate': rate}[k]
            return r
    class Ess(object):
        def open(s, mode='r'):
            prove(mode == 'r', 'opened for reading')
            return src
    class M(object): pass
    mob = M()
    mob.descriptor, mob.essence = Desc(), Ess()
    loops.ACTIVE[:] = [[Copy('export_audio', src, sink, None)]]
    ctx().cover('entry')
    m.SourceMob.export_audio(mob, path)
    prove(and_(val_eq(head['channels'], chans), val_eq(head['rate'], rate), val_eq(head['width'], bits // 8)), 'the format of the essence')
    prove(val_eq(sink.count, n), 'every byte is exported')
    prove(sink.closed == 1, 'the file is closed')
    ctx().cover('done')


def fmt(P):
    a = P.audio
    c = Content()
    f = Rd(c)
    tag, bits = c.le(0, 2), c.le(14, 2)
    rd = object.__new__(a.WaveReader)
    ctx().cover('entry')
    known = or_(tag == 1, tag == 0xFFFE)
    width = (bits + 7) // 8
    try:
        rd._read_fmt_chunk(f)
    except a.wave.Error:
        prove(or_(not_(known), width < 2, width > 3), '16 and 24 bit PCM is read')
        ctx().cover('refused')
        return
    finally:
        rd._i_opened_the_file = None
    prove(and_(known, 2 <= width, width <= 3), 'nothing else is')
    prove(val_eq(rd._nchannels, c.le(2, 2)), 'channels')
    prove(val_eq(rd._framerate, c.le(4, 4)), 'rate')
    prove(val_eq(rd.getblockalign(), c.le(12, 2)), 'block align')
    prove(val_eq(rd._sampwidth, width), 'bytes of a sample')
    prove(val_eq(rd._framesize, c.le(2, 2) * width), 'bytes of a frame')
    ctx().cover('read')


def master(which):
    def body(P):
        m = P.mobs
        n = fresh_int('length', 0)
        path, rate, tape, length = object(), object() if ctx().choose(2) or which == 'video' else None, tape_of(), length_of()
        offline = bool(ctx().choose(2))
        made = []
        own = object()
        class Src(object):
            def imp(s, p, r=None, t=None, l=None, o=False):
                prove(p is path and r is rate and t is tape and l is length and o is offline, 'imported as asked')
                sl = Slot(own)
                sl.slot_id = 7
                sl.segment.length = n
                made.append(sl)
                return sl
            import_dnxhd_essence = import_audio_essence = imp
            def create_source_clip(s, slot_id=None, start=None, length=None, media_kind=None):
                prove(slot_id == 7 and start is None and media_kind == ('picture' if which == 'video' else 'sound'), 'refers to the imported slot')
                return Props()
        src, mobs = Src(), []
        class X(object): pass
        mm = X()
        mm.name, mm.root = 'name', X()
        mm.root.create, mm.root.content = X(), X()
        mm.root.create.SourceMob = lambda name=None: src
        mm.root.content.mobs = mobs
        slots = []
        def slot(edit_rate, slot_id=None):
            s = Slot(edit_rate)
            slots.append(s)
            return s
        mm.create_timeline_slot = slot
        ctx().cover('entry')
        fn = m.MasterMob.import_dnxhd_essence if which == 'video' else m.MasterMob.import_audio_essence
        r = fn(mm, path, rate, tape, length, offline)
        prove(mobs == [src] and len(slots) == 1 and r is slots[0], 'one source mob in the file, one slot')
        prove(r.edit_rate is (rate if rate is not None else own), 'its edit rate')
        prove(val_eq(r.segment.length, n), 'as long as the imported')
        ctx().cover('done')
    return body


# -- bounded

def cells(rng, n):
    return rng.randbytes(min(n, 65536)) * (n // 65536 + 1) if n > 65536 else rng.randbytes(n)


def riff(chunks):
    body = b''.join(k + struct.pack('<I', len(d)) + d + b'\0' * (len(d) & 1) for k, d in chunks)
    return b'RIFF' + struct.pack('<I', len(body) + 4) + b'WAVE' + body


def wav(inp, data):
    ch, rate, bits = inp['channels'], inp['rate'], inp['bits']
    w = (bits + 7) // 8
    fm = struct.pack('<HHLLHH', 0xFFFE if inp['ext'] else 1, ch, rate, rate * ch * w, ch * w, w * 8 if inp['ext'] else bits)
    if inp['ext']:
        fm += struct.pack('<HHL', 22, bits, 0) + bytes.fromhex('0100000000001000800000aa00389b71')
    chunks = [(b'fmt ', fm)]
    if inp['junk']:
        chunks.insert(inp['junk'] % 2, (b'JUNK', b'x' * (inp['junk'] * 3)))
    chunks.append((b'data', data))
    if inp['junk'] > 2:
        chunks.append((b'LIST', b'after'))
    return riff(chunks)


RATES = [None, '10/49', '1/49', '2/49', '1/107', 25, '24000/1001', '30000/1001', 29.97, 24, '60000/1001', '25/1', '1/3', 90000, '48000/1']


def agen(rng, i):
    rate = rng.choice([7, 8000, 8000, 11025, 32000, 44100, 48000, 96000, 192000, 1, 7, 47952, rng.randrange(1, 200000)])
    ch = rng.choice([1, 2, 2, 3, 6, 8, 16])
    bits = rng.choice([16, 24, 16, 24, 20, 12, 9])
    w = (bits + 7) // 8
    top = min((600000 if rng.random() < .1 else 60000) // (ch * w), rate * 400)
    n = rng.choice([0, 1, 2, rng.randrange(0, 50), rng.randrange(0, top + 1), min(rate, top), min(2 * rate, top), min(rate + 1, top), max(0, min(rate - 1, top))])
    edit = rng.choice(RATES) if rng.random() < .6 else '%d/%d' % (rng.randrange(1, 200), rng.randrange(1, 120))
    if edit is not None and rng.random() < .7:
        # a whole number of edit units
        k = [int(k) for k in (j * rate / exact(edit) for j in range(1, 60)) if k.denominator == 1 and k <= top]
        n = rng.choice(k or [n])
    return dict(kind='audio', rate=rate, channels=ch, bits=bits, frames=n, ext=rng.random() < .3, junk=rng.choice([0, 0, 1, 2, 3]), edit=edit, master=rng.random() < .4,
                length=rng.choice([None, None, None, 5]), offline=rng.random() < .1, reopen=rng.random() < .12, seed=rng.randrange(1 << 30))


def dnx_header(cid, w, h, depth, inter, off, rng):
    b = bytearray(rng.randbytes(640))
    b[0:6] = struct.pack('>IBB', 0x280 if cid in HD else off, 1 if cid in HD else 3, (rng.randrange(256) & ~2) | (2 if inter else 0))
    b[24:28] = struct.pack('>HH', h, w)
    b[33] = ((depth - 6) // 2 << 5) | rng.randrange(32)
    b[40:44] = struct.pack('>I', cid)
    b[44] &= 0xBF
    return bytes(b)


def vgen(rng, i):
    cid = rng.choice(sorted(HD) if rng.random() < .1 else sorted(HR))
    if cid in HR:
        w, h = rng.choice([(1920, 1080)] + [(64, 64), (16, 16), (256, 120), (300, 200), (rng.randrange(1, 600), rng.randrange(1, 200))] * 4 + [(rng.randrange(1, 4096), rng.randrange(1, 1200)), (1, 40000), (40000, 17)])
        size = hr_size(cid, w, h)
    else:
        w, h = rng.choice([(1920, 1080), (1280, 720), (1440, 1080), (960, 720)])
        size = HD[cid]
    n = rng.choice([1, 2, 3, rng.randrange(1, 12)])
    n = min(n, max(1, 4000000 // size))
    return dict(kind='video', cid=cid, w=w, h=h, depth=rng.choice([8, 10, 12]), inter=rng.random() < .3, off=rng.choice([0x280, 0x284, 0x2170, 0x1000]), frames=n, edit=rng.choice(RATES[1:]),
                master=rng.random() < .4, length=rng.choice([None, None, 3]), offline=rng.random() < .1, reopen=rng.random() < .12, seed=rng.randrange(1 << 30), vary=rng.random() < .2)


def gen(rng, i):
    return (agen if rng.random() < .6 else vgen)(rng, i)


def exact(e):
    if isinstance(e, float):
        return Fraction(e).limit_denominator(100000)
    return Fraction(e)


SHARED = []


def memory():
    """a file in memory; used again unless the case fails or it grew"""
    import aaf2
    f = SHARED.pop() if SHARED else aaf2.open()
    del SHARED[:]
    return f if len(f.content.mobs) < 60 else aaf2.open()


def check(inp):
    rng = random.Random(inp['seed'])
    with AafFiles() as files:
        p = files.path('input')
        if inp['kind'] == 'audio':
            w = (inp['bits'] + 7) // 8
            data = cells(rng, inp['frames'] * inp['channels'] * w)[:inp['frames'] * inp['channels'] * w]
            open(p, 'wb').write(wav(inp, data))
            frames, edit = inp['frames'], inp['edit'] or inp['rate']
        else:
            parts = []
            for k in range(inp['frames']):
                cid, w, h = inp['cid'], inp['w'], inp['h']
                if inp['vary'] and k:
                    cid, w, h = rng.choice([(1274, 64, 64), (1253, 1920, 1080), (1273, 33, 17)])
                size = HD[cid] if cid in HD else hr_size(cid, w, h)
                hd = dnx_header(cid, w, h, inp['depth'], inp['inter'], inp['off'], rng)
                parts.append(hd + cells(rng, size - 640)[:size - 640])
            data = b''.join(parts)
            open(p, 'wb').write(data)
            frames, edit = inp['frames'], inp['edit']
            from aaf2 import video as V
            with open(p, 'rb') as g:
                if list(V.iter_dnx_stream(g)) != parts:
                    return 'split into other frames'
        f = files.open('a.aaf') if inp['reopen'] else memory()
        m = f.create.MasterMob('m') if inp['master'] else f.create.SourceMob('s')
        f.content.mobs.append(m)
        fn = m.import_audio_essence if inp['kind'] == 'audio' else m.import_dnxhd_essence
        slot = fn(p, inp['edit'], length=inp['length'], offline=inp['offline'])
        ids = m.mob_id, slot.slot_id
        if inp['reopen']:
            f.close()
            f = files.open('a.aaf', 'r')
            m = f.content.mobs.get(ids[0])
            slot = m.slot_at(ids[1])
        if inp['kind'] == 'audio':
            want = int(Fraction(frames) * exact(edit) / inp['rate'])
        else:
            want = frames
        want = inp['length'] or want
        if slot.segment.length != want:
            return 'clip of %r, not %r' % (slot.segment.length, want)
        if Fraction(slot.edit_rate.numerator, slot.edit_rate.denominator) != exact(edit):
            return 'edit rate %r, not %r' % (slot.edit_rate, edit)
        src = m
        if inp['master']:
            src = slot.segment.mob
            if src is None or src.slot_at(slot.segment.slot_id).segment.length != want:
                return 'the clip does not refer to the imported essence'
        d = src.descriptor
        exp = dict(Length=frames)
        if inp['kind'] == 'audio':
            w = (inp['bits'] + 7) // 8
            exp.update(Channels=inp['channels'], SampleRate=inp['rate'], AudioSamplingRate=inp['rate'], QuantizationBits=8 * w, BlockAlign=inp['channels'] * w,
                       AverageBPS=inp['rate'] * inp['channels'] * w)
        else:
            exp.update(SampleRate=exact(edit))
            if frames:
                exp.update(StoredWidth=inp['w'], StoredHeight=inp['h'], ComponentWidth=inp['depth'], FrameSampleSize=len(parts[0]),
                           FrameLayout='SeparateFields' if inp['inter'] else 'FullFrame', ImageAspectRatio=Fraction(inp['w'], inp['h']), HorizontalSubsampling=2)
        for k, v in sorted(exp.items()):
            got = d.get(k).value
            if (Fraction(got.numerator, got.denominator) != v) if isinstance(v, Fraction) else got != v:
                return '%s is %r, not %r' % (k, got, v)
        if inp['kind'] == 'video' and frames and str(d['Compression'].value) != '04010202-%s-0000-060e-2b34040101%s' % (AUIDS[inp['cid']], '0d' if inp['cid'] in HR else '0a'):
            return 'compression %s' % d['Compression'].value
        if inp['offline']:
            SHARED.extend([] if inp['reopen'] else [f])
            return None if src.essence is None else 'essence of an offline import'
        s = src.essence.open('r')
        got = s.read()
        if got != data:
            k = next((k for k in range(min(len(got), len(data))) if got[k] != data[k]), min(len(got), len(data)))
            return 'essence of %d bytes, imported %d, differs at %d' % (len(got), len(data), k)
        if inp['kind'] == 'audio':
            q = files.path('out.wav')
            src.export_audio(q)
            raw = open(q, 'rb').read()
            with wave.open(q, 'rb') as r:
                if (r.getnchannels(), r.getframerate(), r.getsampwidth(), r.getnframes()) != (inp['channels'], inp['rate'], w, frames):
                    return 'exported as %r' % (r.getparams(),)
                if r.readframes(frames + 1) != data:
                    return 'other samples are exported'
        if not inp['reopen']:
            SHARED.append(f)
    return None


def shrink(inp):
    n = inp['frames']
    for k in (0, 1, n // 2, n - 1):
        if (inp['kind'] == 'video') <= k < n:
            yield dict(inp, frames=k)
    for k, v in (('junk', 0), ('ext', False), ('reopen', False), ('master', False), ('length', None), ('edit', 25)):
        if k in inp and inp[k] != v:
            yield dict(inp, **{k: v})


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check, nq=1500, shrink=shrink)


def rep(m, name): return None


def rep_size(m, name):
    from aaf2 import video as V
    w, h = m.get('width', 1920), m.get('height', 1080)
    for cid in sorted(HD) + sorted(HR):
        got, want = V.dnx_frame_size(cid, w, h), HD[cid] if cid in HD else hr_size(cid, w, h)
        if got != want:
            return 'a frame of %d, %dx%d has %r bytes, not %d' % (cid, w, h, got, want)
        if str(V.dnx_compression_auids[cid]) != '04010202-%s-0000-060e-2b34040101%s' % (AUIDS[cid], '0d' if cid in HR else '0a'):
            return 'compression of %d' % cid
    return None


UNITS = [Unit('frames of a stream', split(True), ['video.iter_dnx_stream'], rep, covers=['entry', 'frame', 'end']),
         Unit('frames of a cut stream', split(False), ['video.iter_dnx_stream'], rep, covers=['entry', 'frame', 'end']),
         Unit('header of a frame', header, ['video.read_dnx_frame_header', 'video.valid_dnx_prefix', 'utils.int_from_bytes'], rep, covers=['entry', 'short', 'refused', 'read']),
         Unit('size of a frame', sizes, ['video.dnx_frame_size'], rep_size, covers=['entry', 'done']),
         Unit('import of video', video, [MB + 'import_dnxhd_essence'], rep, covers=['entry', 'first', 'frames']),
         Unit('import of audio', audio, [MB + 'import_audio_essence'], rep, covers=['entry', 'offline', 'stored']),
         Unit('export of audio', export, [MB + 'export_audio'], rep, covers=['entry', 'done']),
         Unit('format of a wave file', fmt, ['audio.WaveReader._read_fmt_chunk', 'audio.WaveReader.getblockalign'], rep, covers=['entry', 'refused', 'read']),
         Unit('master mob of video', master('video'), ['mobs.MasterMob.import_dnxhd_essence'], rep, covers=['entry', 'done']),
         Unit('master mob of audio', master('audio'), ['mobs.MasterMob.import_audio_essence'], rep, covers=['entry', 'done'])]
BOUNDED = [Bounded('imports', run, 'WAVE files (any rate, 1-16 channels, 9-24 bits, extensible, extra chunks, up to 600 kB) and DNxHD/DNxHR streams (every id, up to 12 frames or 4 MB) imported '
                   'into source or master mobs, sometimes offline or reopened; essence, descriptor, lengths, exported file compared', [MB + 'import_audio_essence', MB + 'import_dnxhd_essence', MB + 'export_audio'],
                   check, budget=10)]
ASSUMPTIONS = []
