"""P09: MobID representations"""
from pydv.core import *
from pydv.core import ctx
from pydv.seq import sym_bytes, prove_eq, mk, val_eq, sum_le, le_bytes
from pydv.libs import PvUUID, PERM
from pydv.text import nib_char
from pydv.runner import Unit, Bounded, Lemma, plain
from specs.common import drive

SWAP = [0x06, 0x0e, 0x2b, 0x34, 0x7f, 0x7f]


def big(bs):
    r = 0
    for b in bs:
        r = r * 256 + b
    return r


def hexs(bs, upper=False):
    out = []
    for b in bs:
        out += [nib_char(b // 16, upper), nib_char(b % 16, upper)]
    return out


def fields_be(le):
    """bytes in text order for the ordinary layout: label, length, instance, Data1..3 big endian, Data4"""
    return le[:16] + [le[19], le[18], le[17], le[16], le[21], le[20], le[23], le[22]] + le[24:]


def swapped(le):
    return and_(le[11] == 0, *[le[24 + i] == SWAP[i] for i in range(6)])


def ambiguous(le):
    """ordinary layout whose text looks half swapped (known finding: not invertible)"""
    t = fields_be(le)[16:22]
    return and_(le[11] == 0, not_(swapped(le)), *[t[i] == SWAP[i] for i in range(6)])


def text_of(le, half, upper=False):
    f = fields_be(le)
    if half:
        f = f[:16] + f[24:] + f[16:24]
    d = hexs(f, upper)
    out = [ord(c) for c in 'urn:smpte:umid:']
    for g in range(8):
        out += ([46] if g else []) + d[8 * g:8 * g + 8]
    return out


def sym(P, name='le'):
    s = sym_bytes(name, 32)
    le = list(s.items)
    return P.mobid.MobID(bytes_le=s), le


def views(P):
    m, le = sym(P)
    ctx().cover('entry')
    prove_eq(m.bytes_le, le, 'bytes kept')
    prove(m.int == big(le), 'int is the big endian value of the stored bytes')
    prove(m.__int__() == big(le), '__int__')
    prove_eq(m.SMPTELabel, le[:12], 'SMPTELabel')
    prove(m.length == le[12], 'length')
    prove(and_(m.instanceHigh == le[13], m.instanceMid == le[14], m.instanceLow == le[15]), 'instance bytes')
    prove(and_(m.Data1 == sum_le(le[16:20]), m.Data2 == sum_le(le[20:22]), m.Data3 == sum_le(le[22:24])), 'Data1-3')
    prove_eq(m.Data4, le[24:], 'Data4')
    prove_eq(m.material.bytes_le, le[16:], 'material')
    prove_eq(m.bytes_le, le, 'views change nothing')


def from_int(P):
    m, le = sym(P)
    ctx().cover('entry')
    b = P.mobid.MobID(int=big(le))
    prove_eq(b.bytes_le, le, 'MobID(int=m.int) == m')
    c = P.mobid.MobID(bytes_le=mk('bytes', items=[0] * 32))
    c.int = big(le)
    prove_eq(c.bytes_le, le, 'int setter')


def from_dict(P):
    m, le = sym(P)
    ctx().cover('entry')
    d = m.to_dict()
    b = P.mobid.MobID()
    b.from_dict(d)
    prove_eq(b.bytes_le, le, 'from_dict(to_dict()) == m')
    prove(and_(d['length'] == le[12], d['instanceHigh'] == le[13], d['instanceMid'] == le[14], d['instanceLow'] == le[15]), 'dict fields')
    prove_eq(d['SMPTELabel'], le[:12], 'dict label')
    x = d['material']
    prove(and_(x['Data1'] == sum_le(le[16:20]), x['Data2'] == sum_le(le[20:22]), x['Data3'] == sum_le(le[22:24])), 'dict material')
    prove_eq(x['Data4'], le[24:], 'dict Data4')


def urn(P):
    m, le = sym(P)
    t = m.urn
    ctx().cover('entry')
    half = bool(swapped(le))
    prove_eq(t, text_of(le, half), 'text layout')
    prove_eq(m.__repr__(), text_of(le, half), 'repr is the text form')


def parse(half, upper):
    def body(P):
        m, le = sym(P)
        s = swapped(le)
        assume(s if half else not_(s))
        if not half:
            assume(not_(ambiguous(le)))
        ctx().cover('entry')
        b = P.mobid.MobID(mk('str', items=text_of(le, half, upper)))
        prove_eq(b.bytes_le, le, 'parsing the text gives the value back')
    return body


def setters(P):
    c = ctx()
    m, le = sym(P)
    which = c.choose(10)
    c.cover('entry')

    def fr(lo, hi, want, nm):
        got = [m.bytes_le[i] for i in range(32)]
        prove(and_(*[got[i] == le[i] for i in range(32) if not lo <= i < hi]), nm + ' changes only its bytes')
        prove_eq(mk('bytes', items=got[lo:hi]), want, nm + ' stored')
    if which == 0:
        v = sym_bytes('v', 12).items
        m.SMPTELabel = mk('list', items=list(v))
        fr(0, 12, v, 'SMPTELabel')
    elif which == 1:
        v = sym_bytes('v', 8).items
        m.Data4 = mk('list', items=list(v))
        fr(24, 32, v, 'Data4')
    elif which == 2:
        s = sym_bytes('v', 16)
        v = list(s.items)
        m.material = P.auid.AUID(bytes_le=s)
        fr(16, 32, v, 'material')
    elif which == 3:
        v = sym_bytes('v', 16).items
        m.material = PvUUID([v[PERM[i]] for i in range(16)])
        fr(16, 32, v, 'material')
    elif which < 7:
        f, o, n = [('Data1', 16, 4), ('Data2', 20, 2), ('Data3', 22, 2)][which - 4]
        v = fresh_int('value', 0, 256 ** n - 1, note=True)
        setattr(m, f, v)
        fr(o, o + n, le_bytes(v, n), f)
        prove(getattr(m, f) == v, f + ' reads back')
    else:
        for k, f in enumerate(('length', 'instanceHigh', 'instanceMid', 'instanceLow')):
            if which == 7 + min(k, 2):
                v = fresh_int('value', 0, 255, note=True)
                old = [m.bytes_le[i] for i in range(32)]
                setattr(m, f, v)
                got = [m.bytes_le[i] for i in range(32)]
                prove(and_(*[got[i] == old[i] for i in range(32) if i != 12 + k]), f + ' changes only its byte')
                prove(and_(got[12 + k] == v, getattr(m, f) == v), f + ' stored')


def order(P):
    a, l1 = sym(P, 'le')
    b, l2 = sym(P, 'le2')
    ctx().cover('entry')
    same = and_(*[x == y for x, y in zip(l1, l2)])
    prove(iff(a == b, same), 'eq iff same bytes')
    n1, n2 = big(l1), big(l2)
    prove(iff(a < b, n1 < n2), 'lt')
    prove(iff(a <= b, n1 <= n2), 'le')
    prove(iff(a > b, n1 > n2), 'gt')
    prove(iff(a >= b, n1 >= n2), 'ge')


def own(P):
    """a MobID never shares storage with the bytes it was built from"""
    s = sym_bytes('le', 32, 'bytearray')
    le = list(s.items)
    m = P.mobid.MobID(bytes_le=s)
    ctx().cover('entry')
    m.length = 77
    prove_eq(s, le, 'source bytes untouched')
    prove(P.mobid.MobID().int == 0, 'default is zero')


def unique(P):
    m = P.mobid.MobID.new()
    ctx().cover('entry')
    prove_eq(m.SMPTELabel, [6, 10, 0x2b, 0x34, 1, 1, 1, 5, 1, 1, 15, 0x20], 'standard label')
    prove(and_(m.length == 0x13, m.instanceHigh == 0, m.instanceMid == 0, m.instanceLow == 0), 'standard length and instance')


# ---------------------------------------------------------------- concrete
def cbe(le):
    return le[:16] + le[16:20][::-1] + le[20:22][::-1] + le[22:24][::-1] + le[24:]


def ctext(le):
    f = cbe(le)
    if le[11] == 0 and list(le[24:30]) == SWAP:
        f = f[:16] + f[24:] + f[16:24]
    h = f.hex()
    return 'urn:smpte:umid:' + '.'.join(h[8 * i:8 * i + 8] for i in range(8))


def camb(le):
    return le[11] == 0 and list(le[24:30]) != SWAP and list(cbe(le)[16:22]) == SWAP


def gen(rng, i):
    k = rng.randrange(6)
    if k == 0:
        le = bytearray(rng.randrange(256) for _ in range(32))
    elif k == 1:
        le = bytearray(rng.choice((0, 1, 0x7f, 0x80, 0xff)) for _ in range(32))
    elif k == 2:
        le = bytearray(32)
        le[rng.randrange(32)] = rng.randrange(1, 256)
    else:
        le = bytearray.fromhex('060a2b340101010501010f2013000000') + bytearray(rng.randrange(256) for _ in range(16))
        if rng.random() < .8:
            le[24:30] = bytes(SWAP)
        if rng.random() < .8:
            le[11] = 0
        if rng.random() < .3:
            le[24 + rng.randrange(6)] ^= 1 << rng.randrange(8)
    if i in (3, 5):        # the recorded ambiguous family
        le[11] = 0
        le[16:22] = bytes([0x34, 0x2b, 0x0e, 0x06, 0x7f, 0x7f])
        le[24] = 1
    o = bytearray(le)
    o[rng.randrange(32)] ^= rng.choice([0, 1, 0x80])
    vals = dict(SMPTELabel=[rng.randrange(256) for _ in range(12)], length=rng.randrange(256), instanceHigh=rng.randrange(256),
                instanceMid=rng.randrange(256), instanceLow=rng.randrange(256), Data1=rng.randrange(1 << 32), Data2=rng.randrange(1 << 16),
                Data3=rng.randrange(1 << 16), Data4=[rng.randrange(256) for _ in range(8)])
    return dict(le=bytes(le), le2=bytes(o), vals=vals)


POS = dict(SMPTELabel=(0, 12), length=(12, 1), instanceHigh=(13, 1), instanceMid=(14, 1), instanceLow=(15, 1), Data1=(16, 4), Data2=(20, 2),
           Data3=(22, 2), Data4=(24, 8))


def check(inp):
    plain()
    import uuid
    from aaf2.mobid import MobID
    from aaf2.auid import AUID
    le, le2 = bytes(inp['le']), bytes(inp.get('le2') or inp['le'])
    src = bytearray(le)
    m = MobID(bytes_le=src)
    src[0] ^= 255
    if any(le) and bytes(m.bytes_le) != le:
        return 'bytes not kept for %s' % le.hex()
    m = MobID(bytes_le=le)
    if m.int != int.from_bytes(le, 'big') or int(m) != m.int:
        return 'int view of %s' % le.hex()
    for f, (o, n) in POS.items():
        v = getattr(m, f)
        w = list(le[o:o + n]) if n > 4 else int.from_bytes(le[o:o + n], 'little')
        if (list(v) if n > 4 else v) != w:
            return 'field %s of %s is %r' % (f, le.hex(), v)
    if bytes(m.material.bytes_le) != le[16:]:
        return 'material of %s' % le.hex()
    if m.urn != ctext(le) or str(m) != ctext(le):
        return 'text of %s is %s, expected %s' % (le.hex(), m.urn, ctext(le))
    if bytes(m.bytes_le) != le:
        return 'views changed the value'
    forms = {'int': lambda: MobID(int=m.int), 'bytes': lambda: MobID(bytes_le=m.bytes_le)}
    if not camb(le):
        t = ctext(le)
        forms.update(text=lambda: MobID(t), upper=lambda: MobID(t.upper()), bare=lambda: MobID(t[15:].replace('.', '')),
                     mobid=lambda: MobID(m), hex0=lambda: MobID('0x' + t[15:].replace('.', '')))
    def fd():
        x = MobID()
        x.from_dict(m.to_dict())
        return x
    forms['dict'] = fd
    for k, f in forms.items():
        b = f()
        if bytes(b.bytes_le) != le:
            return 'built from %s: %s, expected %s' % (k, bytes(b.bytes_le).hex(), le.hex())
        if not (b == m) or b != m or hash(b) != hash(m) or b < m or b > m or not b <= m or not b >= m:
            return 'comparison of equal values built from %s (%s)' % (k, le.hex())
    o = MobID(bytes_le=le2)
    i1, i2 = int.from_bytes(le, 'big'), int.from_bytes(le2, 'big')
    if any(le) and any(le2):
        if ((m == o) != (le == le2) or (m != o) != (le != le2) or (m < o) != (i1 < i2) or (m > o) != (i1 > i2)
                or (m <= o) != (i1 <= i2) or (m >= o) != (i1 >= i2)):
            return 'comparison of %s with %s' % (le.hex(), le2.hex())
        if len({m: 1, o: 2}) != (1 if le == le2 else 2):
            return 'dictionary keys %s %s' % (le.hex(), le2.hex())
    cur = bytearray(le)
    m = MobID(bytes_le=le)
    for f, v in (inp.get('vals') or {}).items():
        setattr(m, f, v)
        p, n = POS[f]
        cur[p:p + n] = bytes(v) if isinstance(v, list) else v.to_bytes(n, 'little')
        if bytes(m.bytes_le) != bytes(cur):
            return 'setting %s to %r gives %s, expected %s' % (f, v, bytes(m.bytes_le).hex(), bytes(cur).hex())
    u = uuid.UUID(bytes=le[:16])
    for x in (u, AUID(bytes_le=u.bytes_le)):
        m = MobID(bytes_le=le)
        m.material = x
        if bytes(m.bytes_le) != le[:16] + u.bytes_le:
            return 'setting material to %s' % u
    a, b = MobID.new(), MobID.new()
    if a == b or bytes(a.bytes_le[:16]).hex() != '060a2b340101010501010f2013000000':
        return 'new ids %s %s' % (a, b)
    return None


def check_amb(inp):
    """the recorded family: text of a value is the text of another value"""
    plain()
    from aaf2.mobid import MobID
    le = bytes(inp['le'])
    m = MobID(bytes_le=le)
    b = MobID(str(m))
    if bytes(b.bytes_le) != le:
        return 'MobID(str(m)) != m for %s' % le.hex()


def check2(inp):
    r = check(inp)
    if r is None and camb(inp['le']):
        r = check_amb(inp)
        return r and 'ambiguous text: ' + r
    return r


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check2, 1200, 60000,
                 keyof=lambda i, r: 'ambiguous-half-swapped-text' if r.startswith('ambiguous text: ') else None)


def replay(m, name):
    vals = {}
    for f in POS:
        if f in name and 'value' in m:
            vals = {f: m['value']}
        elif f in name and 'v' in m and f in ('SMPTELabel', 'Data4'):
            vals = {f: list(m['v'])}
    from specs.common import guarded
    return guarded(check, dict(le=bytes(m.get('le', bytes(32))), le2=bytes(m['le2']) if 'le2' in m else None, vals=vals))


M = 'mobid.MobID.'
UNITS = [
    Unit('views', views, [M + x for x in ('__init__', 'int', 'SMPTELabel', 'length', 'instanceHigh', 'instanceMid', 'instanceLow',
                                          'Data1', 'Data2', 'Data3', 'Data4', 'material')] + ['utils.int_from_bytes'], replay, covers=['entry']),
    Unit('int', from_int, [M + 'int', M + '__init__', 'utils.bytes_from_int'], replay, covers=['entry']),
    Unit('dict', from_dict, [M + 'from_dict', M + 'to_dict'], replay, covers=['entry']),
    Unit('text', urn, [M + 'urn', M + '__repr__'], replay, covers=['entry']),
    Unit('parse', parse(False, False), [M + 'urn (setter)'], replay, covers=['entry'],
         assumptions=['values whose ordinary text looks half swapped are excluded (known finding)']),
    Unit('parse-half-swapped', parse(True, False), [M + 'urn (setter)'], replay, covers=['entry']),
    Unit('parse-upper', parse(False, True), [M + 'urn (setter)'], replay, covers=['entry'], timeout=120),
    Unit('setters', setters, [M + f for f in POS] + [M + 'material'], replay, covers=['entry']),
    Unit('order', order, [M + x for x in ('__eq__', '__lt__', '__le__', '__gt__', '__ge__')], replay, covers=['entry']),
    Unit('ownership', own, [M + '__init__'], replay, covers=['entry']),
    Unit('new', unique, ['mobid.UniqueMobID'], replay, covers=['entry']),
]
UNITS.append(Lemma('lemma: the bytes of a number exist and are unique', 'digits.lean', ['bytes_of_number']))
BOUNDED = [Bounded('values', run, 'random, boundary and half-swapped values, every constructor, view and setter', [M + 'urn'], check2, shards=4, budget=6)]
LEVEL = 'proof'
