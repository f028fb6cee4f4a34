"""P08: AUID representations are mutually consistent and lossless"""
import uuid
from pydv.core import *
from pydv.core import ctx
from pydv.seq import *
from pydv.seq import sym_bytes, prove_eq, seqof, mk, val_eq
from pydv.text import nib_char
from pydv.libs import PvUUID, hex_digits, sum_le, PERM
from pydv.runner import Unit, Bounded, Lemma, plain

LE = PERM      # bytes_le[i] = bytes_be[PERM[i]]


def be_of(le):
    return [le[PERM[i]] for i in range(16)]


def spec_int(le):
    be = be_of(le)
    r = 0
    for b in be:
        r = r * 256 + b
    return r


def note_le(name='le'):
    s = sym_bytes(name, 16)
    return s, list(s.items)


def u_bytes_le(P):
    """construction from 16 stored bytes: every view is the spec function"""
    s, le = note_le()
    A = P.auid.AUID
    a = A(bytes_le=s)
    ctx().cover('entry')
    prove_eq(a.bytes_le, le, 'bytes_le kept')
    prove_eq(a.bytes_be, be_of(le), 'bytes_be is the field-swapped order')
    prove(a.int == spec_int(le), 'int is the big endian value')
    prove_eq(a.hex, sum([hex_digits(b, 2) for b in be_of(le)], []), 'hex is 32 digits of bytes_be')
    prove(val_eq(a.uuid, PvUUID(be_of(le))) , 'uuid equal')
    prove(a.data1 == sum_le(le[0:4]), 'data1')
    prove(a.data2 == sum_le(le[4:6]), 'data2')
    prove(a.data3 == sum_le(le[6:8]), 'data3')
    prove_eq(a.data4, le[8:], 'data4')
    prove_eq(a.bytes_le, le, 'views do not modify the value')


def u_text(P):
    """repr/str text form: 8-4-4-4-12 digits; parsing it gives the value back"""
    s, le = note_le()
    A = P.auid.AUID
    a = A(bytes_le=s)
    t = a.__repr__()
    d = sum([hex_digits(b, 2) for b in be_of(le)], [])
    want = d[:8] + [45] + d[8:12] + [45] + d[12:16] + [45] + d[16:20] + [45] + d[20:]
    prove_eq(t, want, 'text form')
    ctx().cover('entry')
    b = A(t)
    prove_eq(b.bytes_le, le, 'AUID(str(a)) == a')
    b = A(a.hex)
    prove_eq(b.bytes_le, le, 'AUID(a.hex) == a')


def variant(name, mkinput):
    def body(P):
        s, le = note_le()
        A = P.auid.AUID
        ctx().cover('entry')
        b = mkinput(A, le)
        prove_eq(b.bytes_le, le, name)
    return body


def digits(le, upper=False):
    d = []
    for b in be_of(le):
        for nib in (b // 16, b % 16):
            d.append(nib_char(nib, upper))
    return d


def dashed(d):
    return d[:8] + [45] + d[8:12] + [45] + d[12:16] + [45] + d[16:20] + [45] + d[20:]


def S(codes):
    return mk('str', items=codes)


def u_eqhash(P):
    A = P.auid.AUID
    s1, l1 = note_le('le')
    s2, l2 = note_le('le2')
    a, b = A(bytes_le=s1), A(bytes_le=s2)
    same = and_(*[x == y for x, y in zip(l1, l2)])
    ctx().cover('entry')
    r = (a == b)
    prove(iff(r, same), 'eq iff same 16 bytes')
    lt = a < b
    prove(iff(lt, spec_int(l1) < spec_int(l2)), 'lt is the order of int')
    # uuid objects of the same value are equal
    prove(iff(a == PvUUID(be_of(l2)), same), 'eq with uuid.UUID')


def u_copy(P):
    """an AUID built from another shares no storage with it"""
    A = P.auid.AUID
    s, le = note_le()
    a = A(bytes_le=s)
    b = A(a)
    ctx().cover('entry')
    prove_eq(b.bytes_le, le, 'copy equal')
    prove(a.bytes_le is not b.bytes_le, 'copy owns its bytes')
    c = A(bytes_le=a.bytes_le)
    prove(c.bytes_le is not a.bytes_le, 'bytes_le copied')


def u_setbe(P):
    A = P.auid.AUID
    s, le = note_le()
    a = A(int=0)
    prove(a.int == 0, 'zero')
    a.bytes_be = mk('bytes', items=be_of(le))
    ctx().cover('entry')
    prove_eq(a.bytes_le, le, 'bytes_be setter')


def replay(m, name):
    A = plain().auid.AUID
    le = bytes(m['le'])
    le2 = bytes(m.get('le2', le))
    return check_one(A, le, le2)


def check_one(A, le, le2):
    u = uuid.UUID(bytes_le=le)
    v = uuid.UUID(bytes_le=le2)
    a = A(bytes_le=le)

    def bad(what, got=None):
        return 'AUID(bytes_le=%s): %s%s' % (le.hex(), what, '' if got is None else ' (got %r)' % (got,))
    if bytes(a.bytes_le) != le: return bad('bytes_le')
    if bytes(a.bytes_be) != u.bytes: return bad('bytes_be', bytes(a.bytes_be).hex())
    if a.int != u.int: return bad('int', a.int)
    if a.hex != u.hex: return bad('hex', a.hex)
    if str(a) != str(u): return bad('str', str(a))
    if a.uuid != u: return bad('uuid')
    if a.data1 != u.fields[0]: return bad('data1')
    if a.data2 != u.fields[1]: return bad('data2')
    if a.data3 != u.fields[2]: return bad('data3')
    if bytes(a.data4) != u.bytes[8:]: return bad('data4')
    t = str(u)
    forms = dict(str=t, upper=t.upper(), braces='{%s}' % t, urn='urn:uuid:' + t, hex=u.hex, hexup=u.hex.upper())
    for k, f in forms.items():
        try:
            if bytes(A(f).bytes_le) != le: return bad('parse of %r' % f)
        except Exception as e:
            return bad('parse of %r raised %r' % (f, e))
    for k, kw in dict(int=dict(int=u.int), bytes_be=dict(bytes_be=u.bytes), uuid=dict(hex=u), auid=dict(hex=a)).items():
        b = A(**kw)
        if bytes(b.bytes_le) != le: return bad('construct from ' + k)
        if not (a == b) or a != b: return bad('equality with one constructed from ' + k)
        if hash(a) != hash(b): return bad('hash differs for equal values (%s)' % k)
    b = A(bytes_le=le2)
    if (a == b) != (le == le2): return bad('eq vs %s' % le2.hex())
    if (a < b) != (u.int < v.int): return bad('lt vs %s' % le2.hex())
    if (a == v) != (le == le2): return bad('eq with uuid %s' % v)
    c = A(a)
    before = bytes(a.bytes_le)
    c.bytes_be = v.bytes
    if bytes(c.bytes_le) != le2: return bad('bytes_be setter')
    if bytes(a.bytes_le) != before: return bad('copy shares storage')
    if len({a: 1, b: 2}) != (1 if le == le2 else 2): return bad('dict keying')
    return None


BADHEX = ['', '0', 'g' * 32, '0' * 31, '0' * 33, 'urn:uuid:', '{}', 'zz010101-0204-0000-060e-2b3402060101',
          '0d010101-0204-0000-060e-2b340206010', '0d010101-0204-0000-060e-2b34020601011']


def run(rng, budget, tier, shard):
    import time
    A = plain().auid.AUID
    end = time.time() + budget
    n, seen, samples = 0, set(), []
    if shard == 0:
        for h in BADHEX:
            n += 1
            try:
                A(h)
            except ValueError:
                continue
            return dict(evaluations=n, distinct=n, violation=dict(what='malformed text %r accepted' % h, input=dict(hex=h), key='badhex'))
        try:
            A()
            return dict(evaluations=n, distinct=n, violation=dict(what='AUID() accepted', input={}, key='empty'))
        except TypeError:
            pass
    while time.time() < end and n < (2500 if tier == 'quick' else 100000):
        k = rng.randrange(4)
        if k == 0:
            le = bytes(rng.randrange(256) for _ in range(16))
        elif k == 1:
            le = bytes(rng.choice((0, 1, 0x7f, 0x80, 0xff)) for _ in range(16))
        elif k == 2:
            le = bytearray(16); le[rng.randrange(16)] = rng.randrange(256); le = bytes(le)
        else:
            le = bytes([rng.randrange(256)] * 16)
        le2 = bytearray(le)
        if rng.random() < .7:
            le2[rng.randrange(16)] ^= 1 << rng.randrange(8)
        le2 = bytes(le2)
        n += 1
        seen.add(le)
        r = check_one(A, le, le2)
        if r:
            return dict(evaluations=n, distinct=len(seen), violation=dict(what=r, input=dict(le=le, le2=le2)))
        if len(samples) < 1:
            samples.append(le.hex())
    return dict(evaluations=n, distinct=len(seen), samples=samples)


def breplay(i):
    A = plain().auid.AUID
    if 'le' in i:
        return check_one(A, bytes(i['le']), bytes(i.get('le2', i['le'])))
    try:
        A(i['hex'])
        return 'accepted'
    except ValueError:
        return None


F = ['auid.AUID.__init__']
G = ['auid.AUID.' + x for x in ('bytes_be', 'int', 'hex', 'uuid', 'data1', 'data2', 'data3', 'data4')]
UNITS = [
    Unit('views', u_bytes_le, F + G, replay, covers=['entry']),
    Unit('text-roundtrip', u_text, F + ['auid.AUID.__repr__', 'auid.AUID.hex'], replay, covers=['entry']),
    Unit('from-int', variant('from int', lambda A, le: A(int=spec_int(le))), F, replay,
         assumptions=['uuid.UUID(int=v).bytes_le is the RFC 4122 little-endian layout (stdlib)'], covers=['entry']),
    Unit('from-bytes_be', variant('from bytes_be', lambda A, le: A(bytes_be=mk('bytes', items=be_of(le)))), F, replay, covers=['entry']),
    Unit('from-uuid', variant('from uuid', lambda A, le: A(P_uuid(le))), F, replay, covers=['entry']),
    Unit('from-urn', variant('urn form', lambda A, le: A(S([ord(c) for c in 'urn:uuid:'] + dashed(digits(le))))), F, replay, covers=['entry']),
    Unit('from-braces', variant('brace form', lambda A, le: A(S([123] + dashed(digits(le)) + [125]))), F, replay, covers=['entry']),
    Unit('from-upper', variant('upper case', lambda A, le: A(S(dashed(digits(le, True))))), F, replay, covers=['entry'], timeout=90),
    Unit('eq-lt', u_eqhash, ['auid.AUID.__eq__', 'auid.AUID.__lt__'], replay, covers=['entry']),
    Unit('copy', u_copy, F, replay, covers=['entry']),
    Unit('set-bytes_be', u_setbe, ['auid.AUID.bytes_be'], replay, covers=['entry']),
]


def P_uuid(le):
    return PvUUID(be_of(le))


UNITS.append(Lemma('lemma: the bytes of a number exist and are unique', 'digits.lean', ['bytes_of_number']))
BOUNDED = [Bounded('values', run, 'random and boundary 16-byte values, every constructor and view against uuid.UUID; '
                   'malformed texts from a fixed list', G, breplay, shards=4, budget=6)]
LEVEL = 'proof'
