"""P05: the 128 byte directory record"""
import struct
from pydv.core import *
from pydv.core import ctx
from pydv.seq import sym_bytes, prove_eq, mk, val_eq, sum_le, le_bytes
from pydv.runner import Unit, Bounded, Lemma, plain
from specs.common import drive, Mem

TYPES = {0: 'empty', 1: 'storage', 2: 'stream', 3: 'lock bytes', 4: 'property', 5: 'root storage'}
NULL = 0xFFFFFFFF
# field: (offset, size)
LAYOUT = dict(name=(0, 66), type=(66, 1), color=(67, 1), left_id=(68, 4), right_id=(72, 4), child_id=(76, 4),
              class_id=(80, 16), flags=(96, 4), create_time=(100, 8), modify_time=(108, 8), sector_id=(116, 4), byte_size=(120, 8))


class Base(object):
    @property
    def sector_size(self):
        m = ctx().memo
        if 'ss' not in m:
            m['ss'] = (4096, 512)[ctx().choose(2)]
        return m['ss']


class Store(Base):
    mode = 'rb'


class StoreW(Base):
    """ghost directory: records which entries were marked as modified"""
    mode = 'rb+'

    def __init__(self):
        self.modified = {}

    def write_modified_dir_entries(self):
        raise Unsupported('flush')


def entry(P, name='rec', store=None):
    s = sym_bytes(name, 128, 'bytearray')
    old = list(s.items)
    return P.cfb.DirEntry(store or Store(), 7, data=s), old


def data(e):
    d = e.data
    return [d[i] for i in range(128)]


def frame(e, old, field, nm):
    o, n = LAYOUT[field]
    d = data(e)
    prove(and_(*[d[i] == old[i] for i in range(128) if not o <= i < o + n]), nm + ' frame: other fields unchanged')
    return d[o:o + n]


def reads(P):
    """the getters read their own bytes (all 2^1024 records)"""
    e, old = entry(P)
    ctx().cover('entry')
    for f in ('left_id', 'right_id', 'child_id', 'sector_id'):
        o, n = LAYOUT[f]
        v = getattr(e, f)
        raw = sum_le(old[o:o + n])
        if v is None:
            prove(raw == NULL, f + ' None only for the null value')
        else:
            prove(and_(v == raw, raw != NULL), f + ' value')
    prove_eq(mk('bytes', items=data(e)), old, 'getters change nothing')


def reads2(P):
    e, old = entry(P)
    ctx().cover('entry')
    for f in ('flags', 'create_time', 'modify_time', 'byte_size'):
        o, n = LAYOUT[f]
        prove(getattr(e, f) == sum_le(old[o:o + n]), f + ' value')
    c = e.class_id
    z = and_(*[b == 0 for b in old[80:96]])
    if c is None:
        prove(z, 'class_id None only for zeros')
    else:
        prove(not_(z), 'class_id not None')
        prove_eq(c.bytes_le, old[80:96], 'class_id bytes')
    prove(iff(e.color == 'black', old[67] == 1), 'color')
    prove(iff(e.red, old[67] != 1), 'red')
    prove_eq(mk('bytes', items=data(e)), old, 'getters change nothing')


def read_type(P):
    e, old = entry(P)
    ctx().cover('entry')
    t = e.type
    for k, v in TYPES.items():
        prove(iff(old[66] == k, t == v), 'type ' + v)


def set_sid(f):
    def body(P):
        e, old = entry(P)
        ctx().cover('entry')
        v = fresh_int('value', 0, NULL - 1, note=True)
        setattr(e, f, v)
        got = frame(e, old, f, f)
        prove_eq(mk('bytes', items=got), le_bytes(v, 4), f + ' layout')
        r = getattr(e, f)
        prove(r is not None and r == v, f + ' reads back')
        setattr(e, f, None)
        got = frame(e, old, f, f + ' none')
        prove_eq(mk('bytes', items=got), [255] * 4, f + ' None is the null value')
        prove(getattr(e, f) is None, f + ' None reads back')
    return body


def set_int(f, n):
    def body(P):
        e, old = entry(P)
        ctx().cover('entry')
        v = fresh_int('value', 0, 256 ** n - 1, note=True)
        setattr(e, f, v)
        got = frame(e, old, f, f)
        prove_eq(mk('bytes', items=got), le_bytes(v, n), f + ' layout')
        prove(getattr(e, f) == v, f + ' reads back')
    return body


def set_enum(P):
    for k, v in TYPES.items():
        e, old = entry(P, 'rec')
        e.type = v
        got = frame(e, old, 'type', 'type')
        prove(and_(got[0] == k, e.type == v), 'type ' + v)
    for k, v in ((0, 'red'), (1, 'black')):
        e, old = entry(P, 'rec')
        e.color = v
        got = frame(e, old, 'color', 'color')
        prove(and_(got[0] == k, e.color == v, e.red == (v == 'red')), 'color ' + v)
        e, old = entry(P, 'rec')
        e.red = (v == 'red')
        got = frame(e, old, 'color', 'red')
        prove(and_(got[0] == k, e.color == v, e.red == (v == 'red')), 'red ' + v)
    e, old = entry(P, 'rec')
    for f in ('type', 'color'):
        try:
            setattr(e, f, 'no such value')
            prove(False, f + ' refuses unknown values')
        except ValueError:
            pass
        prove_eq(mk('bytes', items=data(e)), old, f + ' refusal changes nothing')
    ctx().cover('entry')


def set_class(P):
    e, old = entry(P)
    ctx().cover('entry')
    s = sym_bytes('le', 16)
    le = list(s.items)
    a = P.auid.AUID(bytes_le=s)
    e.class_id = a
    got = frame(e, old, 'class_id', 'class_id')
    prove_eq(mk('bytes', items=got), le, 'class_id layout')
    c = e.class_id
    if c is None:
        prove(and_(*[b == 0 for b in le]), 'class_id null only for zeros')
    else:
        prove_eq(c.bytes_le, le, 'class_id reads back')
    e.class_id = None
    got = frame(e, old, 'class_id', 'class_id none')
    prove_eq(mk('bytes', items=got), [0] * 16, 'class_id None')
    prove(e.class_id is None, 'class_id None reads back')


def name_lengths(lo, hi):
    def body(P):
        n = lo + ctx().choose(hi - lo + 1)
        e, old = entry(P)
        cs = []
        for i in range(n):
            c = fresh_int('c%d' % i, 1, 0xFFFF)
            assume(not_(and_(c >= 0xD800, c <= 0xDFFF)))
            cs.append(c)
        ctx().note('chars', mk('list', items=cs))
        ctx().cover('entry')
        e.name = mk('str', items=cs)
        got = frame(e, old, 'name', 'name')
        want = sum([[c % 256, c // 256] for c in cs], [])
        want += [0] * (64 - len(want)) + [2 * n + 2, 0]
        prove_eq(mk('bytes', items=got), want, 'name layout: utf-16, zero padded, size with terminator')
        prove_eq(e.name, cs, 'name reads back')
        # a record read from disk gives the same name
        f = P.cfb.DirEntry(Store(), 7, data=mk('bytearray', items=data(e)))
        prove_eq(f.name, cs, 'name reads back from the record')
    return body


def modified(P):
    """every store of a field records the entry as modified (so that it is written)"""
    ctx().cover('entry')
    for f, v in (('name', 'abc'), ('type', 'stream'), ('color', 'red'), ('red', True), ('left_id', 3), ('right_id', None),
                 ('child_id', 9), ('class_id', None), ('flags', 1), ('create_time', 2), ('modify_time', 3), ('sector_id', 4), ('byte_size', 5)):
        st = StoreW()
        e, old = entry(P, 'rec', st)
        setattr(e, f, v)
        prove(7 in st.modified and st.modified[7] is e, f + ' marks the entry modified')


def blank(P):
    """a new entry: no links, no name, nothing else"""
    e = P.cfb.DirEntry(Store(), 3)
    ctx().cover('entry')
    for f in ('left_id', 'right_id', 'child_id', 'sector_id', 'class_id'):
        prove(getattr(e, f) is None, 'new entry: %s is None' % f)
    prove(e.byte_size == 0 and e.flags == 0 and e.dir_id == 3, 'new entry: sizes zero')
    d = data(e)
    want = [255] * 12
    prove_eq(mk('bytes', items=d[68:80]), want, 'new entry link bytes')
    prove_eq(mk('bytes', items=d[116:120]), [255] * 4, 'new entry sector bytes')


# ---------------------------------------------------------------- concrete
FIELDS = list(LAYOUT)


def legal(c):
    return 0 < c < 0x10000 and not 0xD800 <= c <= 0xDFFF


def rand_value(rng, f):
    if f == 'name':
        n = rng.choice([1, 2, 15, 30, 31, rng.randrange(32)])
        return ''.join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0x100, 0xD800), 0xFFFD, 1])) for _ in range(n))
    if f == 'type':
        return rng.choice(list(TYPES.values()))
    if f == 'color':
        return rng.choice(['red', 'black'])
    if f == 'class_id':
        return rng.choice([None, bytes(rng.randrange(256) for _ in range(16)), bytes(15) + b'\1'])
    n = LAYOUT[f][1]
    v = rng.choice([0, 1, 255, 256, 256 ** n - 1, 256 ** (n - 1), rng.randrange(256 ** n)])
    if f.endswith('_id') and (v == NULL or rng.random() < .2):
        return None
    return v


def gen(rng, i):
    base = bytes(rng.randrange(256) for _ in range(128))
    nm = rand_value(rng, 'name').encode('utf-16le')
    base = (nm + bytes(64 - len(nm)) + struct.pack('<H', min(64, len(nm) + 2)) + bytes([rng.randrange(6), rng.randrange(2)]) + base[68:]) if rng.random() < .9 else bytes(128)
    ops = []
    for _ in range(rng.randrange(1, 8)):
        f = rng.choice(FIELDS)
        ops.append([f, rand_value(rng, f)])
    return dict(base=base, ops=ops, ss=rng.choice([512, 4096]))


def enc(f, v):
    o, n = LAYOUT[f]
    if f == 'name':
        d = v.encode('utf-16le')
        return d + bytes(64 - len(d)) + struct.pack('<H', min(64, len(d) + 2))
    if f == 'type':
        return bytes([[k for k in TYPES if TYPES[k] == v][0]])
    if f == 'color':
        return bytes([1 if v == 'black' else 0])
    if f == 'class_id':
        return bytes(16) if v is None else v
    if v is None:
        return b'\xff\xff\xff\xff'
    return v.to_bytes(n, 'little')


_st = {}


def storage(ss):
    """a real container, for what the stand-in does not have"""
    if ss not in _st:
        from aaf2 import cfb
        _st[ss] = cfb.CompoundFileBinary(Mem(b'', 'wb+'), 'wb+', ss)
    return _st[ss]


def check(inp):
    aaf2 = plain()
    from aaf2 import cfb, auid

    class St(object):
        mode = 'rb+'
        modified = {}
        def write_modified_dir_entries(self): pass
        def __getattr__(self, n): return getattr(storage(inp.get('ss', 4096)), n)
    st = St()
    rec = bytearray(inp['base'])
    e = cfb.DirEntry(st, 5, data=bytearray(inp['base']))
    if inp['base'] == bytes(128):
        e = cfb.DirEntry(st, 5)
        rec = bytearray(e.data)
        want = bytearray(128)
        for f in ('left_id', 'right_id', 'child_id', 'sector_id'):
            o, n = LAYOUT[f]
            want[o:o + n] = b'\xff' * 4
        if rec != want:
            return 'new record is %s' % rec.hex()
    for f, v in inp['ops']:
        st.modified.clear()
        setattr(e, f, auid.AUID(bytes_le=v) if f == 'class_id' and v is not None else v)
        o, n = LAYOUT[f]
        rec[o:o + n] = enc(f, v)
        if bytes(e.data) != bytes(rec):
            return 'after %s = %r record differs at %s' % (f, v, [i for i in range(128) if e.data[i] != rec[i]])
        if st.modified.get(5) is not e:
            return 'storing %s does not mark the record modified' % f
        for ent in (e, cfb.DirEntry(st, 5, data=bytearray(rec))):
            for g in FIELDS:
                o, n = LAYOUT[g]
                raw = bytes(rec[o:o + n])
                got = getattr(ent, g)
                if g == 'name':
                    size = struct.unpack('<H', raw[64:])[0]
                    want = raw[:size].decode('utf-16le').split('\0')[0]
                elif g == 'type':
                    want = TYPES.get(raw[0], 'unknown')
                elif g == 'color':
                    want = 'black' if raw == b'\1' else 'red'
                elif g == 'class_id':
                    want = None if raw == bytes(16) else raw
                    got = bytes(got.bytes_le) if got is not None else None
                else:
                    want = int.from_bytes(raw, 'little')
                    if g.endswith('_id') and want == NULL:
                        want = None
                if got != want:
                    return 'after %s = %r, %s reads %r, stored %r' % (f, v, g, got, want)
            if ent.red != (ent.color == 'red'):
                return 'red/color disagree'
    return None


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check, 1500, 60000)


def replay(m, name):
    """the model gives a record and a value: replay it through the field store"""
    f = name.split(' ')[0]
    base = bytes(m.get('rec', bytes(128)))
    ops = []
    if f in LAYOUT:
        if 'value' in m:
            ops = [[f, m['value']], [f, None]] if f.endswith('_id') else [[f, m['value']]]
        elif 'le' in m:
            ops = [['class_id', bytes(m['le'])], ['class_id', None]]
        elif 'chars' in m:
            ops = [['name', ''.join(chr(c) for c in m['chars'])]]
        elif f == 'type':
            ops = [['type', v] for v in TYPES.values()]
        else:
            ops = [['color', 'red'], ['color', 'black']]
    # keep the parts of the record which are not under test legal
    b = bytearray(base)
    if f != 'name' or True:
        b[0:66] = enc('name', 'ab')
    if b[66] > 5:
        b[66] = 2
    for ss in (4096, 512):
        r = check(dict(base=bytes(b), ops=ops or [['flags', 1]], ss=ss))
        if r:
            return r
    return None


D = 'cfb.DirEntry.'
U = ['utils.unpack_u16le_from', 'utils.unpack_u32le_from', 'utils.unpack_u64le_from', 'utils.decode_sid', 'utils.encode_sid']
NA = ['names are sequences of 1..31 UTF-16 code units outside the surrogate range and without NUL']
UNITS = [
    Unit('links-read', reads, [D + f for f in ('left_id', 'right_id', 'child_id', 'sector_id')] + U, replay, covers=['entry']),
    Unit('scalars-read', reads2, [D + f for f in ('flags', 'create_time', 'modify_time', 'byte_size', 'class_id', 'color', 'red')] + U, replay, covers=['entry']),
    Unit('type-read', read_type, [D + 'type'], replay, covers=['entry']),
    Unit('type-color-set', set_enum, [D + 'type', D + 'color', D + 'red'], replay, covers=['entry']),
    Unit('class_id-set', set_class, [D + 'class_id'], replay, covers=['entry']),
    Unit('marks-modified', modified, [D + 'mark_modified'], replay, covers=['entry']),
    Unit('new-entry', blank, [D + '__init__'], replay, covers=['entry']),
    Unit('name-0-15', name_lengths(0, 15), [D + 'name', 'utils.decode_utf16le'], replay, covers=['entry'], assumptions=NA),
    Unit('name-16-31', name_lengths(16, 31), [D + 'name', 'utils.decode_utf16le'], replay, covers=['entry'], assumptions=NA),
]
for _f in ('left_id', 'right_id', 'child_id', 'sector_id'):
    UNITS.append(Unit(_f + '-set', set_sid(_f), [D + _f] + U, replay, covers=['entry']))
for _f, _n in (('flags', 4), ('create_time', 8), ('modify_time', 8), ('byte_size', 8)):
    UNITS.append(Unit(_f + '-set', set_int(_f, _n), [D + _f] + U, replay, covers=['entry']))
UNITS.append(Lemma('lemma: the bytes of a number exist and are unique', 'digits.lean', ['bytes_of_number']))
BOUNDED = [Bounded('records', run, 'random and boundary records, 1-7 stores each, every field compared after every store',
                   [D + f for f in LAYOUT], check, shards=4, budget=6)]
LEVEL = 'proof'
