S = {}
S['P01-seek-slack'] = dict(prop='P01', edits=[('cfb.py', '''        if offset > self.dir.byte_size:
            # logging.debug("overseek''', '''        allocated = len(self.fat_chain) * self.sector_size()
        if self.dir.byte_size < offset < allocated:
            # the last sector has room, nothing to allocate
            self.dir.byte_size = offset

        if offset > self.dir.byte_size:
            # logging.debug("overseek''')], demo='''
from io import BytesIO
from aaf2.cfb import CompoundFileBinary
ss = CompoundFileBinary(BytesIO(), 'wb+')
s = ss.open('/a', 'w')
s.write(b'x' * 9000)
s.truncate(8500)
s.seek(8800)
s.seek(0)
d = bytes(s.read())
assert d == b'x' * 8500 + bytes(300), 'stale bytes show up behind the old end'
''', needs='a stream is cut inside its last sector and then extended by a seek that ends in the same sector', breaks='the extension shows the old bytes instead of zeros')
S['P02-truncate-multiple'] = dict(prop='P02', edits=[('cfb.py', '''        sector_count = (size + sector_size - 1) // sector_size

        if len(self.fat_chain) > sector_count:''', '''        sector_count = size // sector_size + 1

        if len(self.fat_chain) > sector_count:''')], demo='''
from io import BytesIO
from aaf2.cfb import CompoundFileBinary
ss = CompoundFileBinary(BytesIO(), 'wb+')
for size, cut, unit in ((20000, 8192, 4096), (1000, 640, 64)):
    s = ss.open('/a%d' % size, 'w')
    s.write(b'x' * size)
    s.truncate(cut)
    assert len(s.fat_chain) == cut // unit, 'stream of %d bytes owns %d sectors' % (cut, len(s.fat_chain))
''', needs='a stream truncated to an exact multiple of its sector size', breaks='the stream keeps one sector more than its size requires')
S['P02-rmtree-first'] = dict(prop='P02', edits=[('cfb.py', '''            for item in streams:
                self.free_fat_chain(item.sector_id, item.byte_size < self.min_stream_max_size)
''', '''            for item in streams:
                if item.sector_id:
                    self.free_fat_chain(item.sector_id, item.byte_size < self.min_stream_max_size)
''')], demo='''
from io import BytesIO
from aaf2.cfb import CompoundFileBinary, FREESECT
ss = CompoundFileBinary(BytesIO(), 'wb+')
ss.makedir('/d')
s = ss.open('/d/a', 'w')
s.write(b'x' * 200)
assert s.fat_chain[0] == 0
ss.rmtree('/d')
assert all(v == FREESECT for v in ss.minifat), 'mini sectors without an owner'
''', needs='the tree removed holds the stream that starts at mini sector 0', breaks='the mini sectors of that stream stay allocated without an owner')
S['P03-ministream-end'] = dict(prop='P03', edits=[('cfb.py', '''            for i,v in enumerate(reversed(self.minifat)):
                if v != FREESECT:
                    break
''', '''            for i,v in enumerate(reversed(self.minifat)):
                if v == ENDOFCHAIN:
                    break
''')], demo='''
import os, tempfile
from aaf2.cfb import CompoundFileBinary
p = os.path.join(tempfile.mkdtemp(), 'x')
try:
    with open(p, 'wb+') as f:
        ss = CompoundFileBinary(f, 'wb+')
        ss.open('/a', 'w').write(b'a' * 100)
        ss.open('/b', 'w').write(b'b' * 60)
        ss.open('/d', 'w').write(b'd' * 3000)
        ss.remove('/d')
        # the mini sectors of d are used again, last one first
        ss.open('/e', 'w').write(b'e' * 3000)
        ss.close()
    with open(p, 'rb') as f:
        ss = CompoundFileBinary(f, 'rb')
        assert bytes(ss.open('/e').read()) == b'e' * 3000
        n = max(max(ss.open(q).fat_chain) for q in ('/a', '/b', '/e')) + 1
        assert ss.root.byte_size >= n * 64, 'mini stream ends before its last mini sector'
finally:
    os.remove(p)
    os.rmdir(os.path.dirname(p))
''', needs='the last mini sector in use is not the end of a chain, as after mini sectors are used again in another order', breaks='the mini stream is recorded shorter than the mini sectors in use')
S['P04-stale-children'] = dict(prop='P04', edits=[('cfb.py', '''        if entry.dir_id in self.children_cache:
            del self.children_cache[entry.dir_id]

''', '')], demo='''
from io import BytesIO
from aaf2.cfb import CompoundFileBinary
ss = CompoundFileBinary(BytesIO(), 'wb+')
ss.makedir('/a')
ss.makedir('/a/x')
ss.rmtree('/a')
for i in range(40):
    ss.makedir('/n%d' % i)
    assert not list(ss.listdir('/n%d' % i)), 'a new storage has children'
''', needs='a storage is removed together with its content and its directory record is used for a new storage', breaks='the new storage lists the children of the removed one')
S['P05-size-512'] = dict(prop='P05', edits=[('cfb.py', '''        value = unpack_u64le_from(self.data, 120)
        return value
''', '''        value = unpack_u64le_from(self.data, 120)
        if self.storage.sector_size == 512:
            # only 32 bits are used in version 3 files
            value &= 0x7FFFFFFF
        return value
''')], demo='''
from io import BytesIO
from aaf2.cfb import CompoundFileBinary, DirEntry
ss = CompoundFileBinary(BytesIO(), 'wb+', sector_size=512)
e = DirEntry(ss, None)
for v in (0, 4096, 0x7fffffff, 0x80000000, 0xffffffff):
    e.byte_size = v
    assert e.byte_size == v, 'size %d reads back as %d' % (v, e.byte_size)
''', needs='a container with 512 byte sectors and a size of 2 GB or more', breaks='the size reads back without its upper bits')
S['P06-free-end'] = dict(prop='P06', edits=[('cfb.py', '''        while b != ENDOFCHAIN:
            sectors.append(b)
            b = fat[b]
''', '''        while b not in (ENDOFCHAIN, FREESECT):
            sectors.append(b)
            b = fat[b]
''')], demo='''
from io import BytesIO
from aaf2.cfb import CompoundFileBinary, FREESECT, ENDOFCHAIN
ss = CompoundFileBinary(BytesIO(), 'wb+')
ss.open('/a', 'w').write(bytes(4096 * 6))
c = ss.open('/a').fat_chain
ss.fat[c[3]] = FREESECT
try:
    r = ss.get_fat_chain(c[0])
except Exception:
    pass
else:
    raise AssertionError('a chain that never ends was returned: %r' % (r,))
''', needs='a table in which a chain runs into a free sector', breaks='the walk returns a made-up short chain instead of raising')
S['P07-store-again'] = dict(prop='P07', edits=[('cache.py', '''            node.value = value
            self.make_first(node)
            self.head = node
            return
''', '''            node.value = value
            return
''')], demo='''
from aaf2.cache import LRUCacheDict
c = LRUCacheDict(3)
for k in 'abcd':
    c[k] = k
c['a'] = 'A'
c['e'] = 'e'
assert 'a' in c and 'b' not in c, 'the key just stored was evicted'
''', needs='a key already present is stored again and then the cache overflows', breaks='storing does not count as use, the wrong key is evicted')
S['P08-order-fields'] = dict(prop='P08', edits=[('auid.py', '''            return self.int < other.int
''', '''            return ((self.data1, self.data2, self.data3, self.bytes_le[8]) <
                    (other.data1, other.data2, other.data3, other.bytes_le[8]))
''')], demo='''
from aaf2.auid import AUID
for bit in range(128):
    a, b = AUID(int=1 << 127), AUID(int=(1 << 127) ^ (1 << bit))
    assert (a < b) == (a.int < b.int) and (b < a) == (b.int < a.int), 'order differs from the 128 bit value at bit %d' % bit
''', needs='two ids that differ only in their last seven bytes', breaks='neither is smaller than the other although they differ')
S['P09-half-swap'] = dict(prop='P09', edits=[('mobid.py', '''                   data[2] == 0x2B and data[3] == 0x34 and
                   data[4] == 0x7F and data[5] == 0x7F):
''', '''                   data[2] == 0x2B and data[3] == 0x34 and
                   data[4] == 0x7F):
''')], demo='''
from aaf2.mobid import MobID
for x in (0x7f, 0x7e, 0x00):
    m = MobID()
    m.SMPTELabel = [6, 14, 43, 52, 1, 1, 1, 5, 1, 1, 15, 0]
    m.Data1, m.Data2, m.Data3 = 0x060e2b34, 0x7f00 | x, 0x2a80
    m.Data4 = [1, 2, 3, 4, 5, 6, 7, 8]
    assert MobID(m.urn) == m, 'text form does not give the id back for %02x' % x
''', needs='an id whose material number begins with 060e2b34.7f but not 7f7f', breaks='parsing the text form swaps the halves of the material number')
S['P10-negative-denominator'] = dict(prop='P10', edits=[('rational.py', '''        # don't find the gcd
        #g = gcd(numerator, denominator)
''', '''        # don't find the gcd
        #g = gcd(numerator, denominator)
        if denominator < 0:
            numerator, denominator = -numerator, -denominator
''')], demo='''
from aaf2.rational import AAFRational
import aaf2
r = AAFRational(24, -1)
assert (r.numerator, r.denominator) == (24, -1), 'pair not kept'
with aaf2.open() as f:
    t = f.metadict.lookup_typedef('Rational')
    d = t.encode(AAFRational(5, -2147483648))
    v = t.decode(d)
    assert (v.numerator, v.denominator) == (5, -2147483648)
''', needs='a pair with a negative denominator', breaks='the sign moves to the numerator, the smallest denominator does not fit any more')
S['P11-empty-element'] = dict(prop='P11', edits=[('types.py', '''        if data[i] == 0x00 and data[i+1] == 0x00:
            yield data[start:i].decode("utf-16le")
            start = i+2
''', '''        if data[i] == 0x00 and data[i+1] == 0x00:
            if i > start:
                yield data[start:i].decode("utf-16le")
            start = i+2
''')], demo='''
import aaf2
from aaf2.types import iter_utf16_array
from aaf2.utils import encode_utf16_array
for v in (['a', 'b'], ['a', '', 'b'], ['']):
    assert list(iter_utf16_array(encode_utf16_array(v))) == v, v
''', needs='an array of texts with an empty member', breaks='the empty member disappears, later members move')
S['P12-remove-only'] = dict(prop='P12', edits=[('properties.py', '''        result = func(self, *args, **kwargs)
        self.mark_modified()
        return result
''', '''        result = func(self, *args, **kwargs)
        if self.pid in self.parent.property_entries:
            self.mark_modified()
        return result
''')], demo='''
import os, tempfile
import aaf2
p = os.path.join(tempfile.mkdtemp(), 'x.aaf')
try:
    with aaf2.open(p, 'w') as f:
        m = f.create.MasterMob('a')
        m['UsageCode'].value = 'Usage_TopLevel'
        f.content.mobs.append(m)
        k = m.mob_id
    with aaf2.open(p, 'rw') as f:
        f.content.mobs[k]['UsageCode'].value = None
    with aaf2.open(p) as f:
        assert 'UsageCode' not in f.content.mobs[k], 'a deleted property came back'
finally:
    os.remove(p)
    os.rmdir(os.path.dirname(p))
''', needs='a later session that changes nothing of an object but sets a property to None', breaks='the property is there again after reopening')
S['P13-replace-owned'] = dict(prop='P13', edits=[('properties.py', '''        if value.root is not self.parent.root:
            raise AAFAttachError("Object is from a different root")

        if value.dir:
            raise AAFAttachError("Object already attached")

        obj = self.get(index, None)
        if obj:
            obj.detach()
''', '''        if value.root is not self.parent.root:
            raise AAFAttachError("Object is from a different root")

        obj = self.get(index, None)
        if obj:
            obj.detach()
''')], demo='''
import aaf2
with aaf2.open() as f:
    m = f.create.MasterMob('a')
    f.content.mobs.append(m)
    s = [m.create_timeline_slot(25) for i in range(3)]
    for x in s:
        x.segment = f.create.Filler()
    try:
        m.slots[0] = s[2]
    except Exception:
        pass
    else:
        raise AssertionError('an object owned already was accepted')
    assert list(m.slots) == s and all(x.dir for x in s), 'a refused replacement changed something'
''', needs='an item of a vector is replaced by an object that is owned already', breaks='the item replaced is detached before the replacement is refused')
S['P15-explicit-pid'] = dict(prop='P15', edits=[('metadict.py', '''        elif pid >= 0x8000:
            self.root.metadict.local_pids.add(pid)

        p = PropertyDef(''', '''
        p = PropertyDef(''')], demo='''
import aaf2
from aaf2.auid import AUID
with aaf2.open() as f:
    cd = f.metadict.register_classdef('SeedThing', AUID('11111111-0000-0000-060e-2b3402060101'), 'InterchangeObject', True)
    pid = max(p for p in range(0xff00, 0xffff) if p not in f.metadict.local_pids and p < f.metadict.next_pid)
    cd.register_propertydef('First', AUID('33333333-0000-0000-060e-2b3401010101'), pid, 'aafString', True)
    pids = [cd.register_propertydef('P%d' % i, AUID('33333334-0000-0000-060e-2b34010101%02x' % i), None, 'aafString', True).pid for i in range(4)]
    assert pid not in pids, 'an id in use was assigned again'
''', needs='a property is registered with an explicit dynamic id and later ones without', breaks='a generated id repeats the explicit one')
S['P16-remap-known'] = dict(prop='P16', edits=[('core.py', '''            if pid >= 0x8000 and root is not self.root:
''', '''            if pid >= 0x8000 and root is not self.root and not new_obj.classdef.get_propertydef_from_pid(pid):
''')], demo='''
import aaf2
from aaf2.auid import AUID
def props(f, names):
    cd = f.metadict.register_classdef('SeedThing', AUID('11111111-0000-0000-060e-2b3402060101'), 'InterchangeObject', True)
    for n in names:
        cd.register_propertydef('Seed' + n, AUID('33333333-0000-0000-060e-2b34010101%02x' % ord(n)), None, 'aafString', True)
with aaf2.open() as a:
    with aaf2.open() as b:
        props(a, 'xyz')
        props(b, 'zyx')
        o = a.create.SeedThing()
        for n in 'xyz':
            o['Seed' + n].value = n
        c = o.copy(root=b)
        assert [c['Seed' + n].value for n in 'xyz'] == list('xyz'), 'values moved to other properties'
''', needs='both files know the class but gave the ids of its extension properties in another order', breaks='values arrive in other properties of the copy')
S['P18-transition-end'] = dict(prop='P18', edits=[('components.py', '''                if position <= edit_unit < position + component.length:
                    return index
''', '''                if position <= edit_unit <= position + component.length:
                    return index
''')], demo='''
import aaf2
with aaf2.open() as f:
    s = f.create.Sequence('picture')
    for kind, n in (('Filler', 10), ('Transition', 4), ('Filler', 10)):
        c = getattr(f.create, kind)()
        c.length = n
        s.components.append(c)
    assert [s.index_at_time(t) for t in (5, 6, 9, 10, 11)] == [0, 1, 1, 2, 2]
''', needs='the time is exactly the end of a transition', breaks='the transition is found although its interval has ended')
S['P18-nested-scope'] = dict(prop='P18', edits=[('mobslots.py', '''                length = max(length, slot.length)
''', '''                length = slot.length or length
''')], demo='''
import aaf2
with aaf2.open() as f:
    n = f.create.NestedScope()
    for k in (5, 9, 7):
        c = f.create.Filler()
        c.length = k
        n.slots.append(c)
    slot = f.create.TimelineMobSlot(1, segment=n)
    assert slot.length == 9
''', needs='a nested scope whose longest track is not the last', breaks='the length of the slot is too short')
S['P19-extrapolate'] = dict(prop='P19', edits=[('misc.py', '''        if t <= p1.time or index + 1 >= len(pointlist):
            return float(p1.value)
''', '''        if t == p1.time or index + 1 >= len(pointlist):
            return float(p1.value)
''')], demo='''
import aaf2
with aaf2.open() as f:
    from aaf2.auid import AUID
    pd = f.create.ParameterDef(AUID(int=77), 'p', 'd', 'Rational')
    f.dictionary.register_def(pd)
    lin = f.create.InterpolationDef(AUID('5b6c85a4-0ede-11d3-80a9-006008143e6f'), 'L', 'd')
    f.dictionary.register_def(lin)
    v = f.create.VaryingValue(pd, lin)
    v.add_keyframe(10, 1)
    v.add_keyframe(20, 5)
    assert v.value_at(0) == 1.0 and v.value_at(9.5) == 1.0, 'curve leaves the end value before the first keyframe'
    assert v.value_at(15) == 3.0
''', needs='a time before the first keyframe of a linear curve with at least two keyframes', breaks='the line goes on before the first keyframe instead of keeping its value')
S['P20-macroblocks'] = dict(prop='P20', edits=[('video.py', '''    size = ((height + 15) // 16) * ((width + 15) // 16) * ratio[0] // ratio[1]
''', '''    size = (height * width + 255) // 256 * ratio[0] // ratio[1]
''')], demo='''
from aaf2.video import dnx_frame_size
for w, h in ((1920, 1080), (1001, 1), (4096, 2160), (300, 250), (2048, 857)):
    for cid, r in ((1271, 28672), (1273, 18944), (1274, 5888)):
        n = -(-h // 16) * -(-w // 16) * r // 255
        n = max((n + 2048) // 4096 * 4096, 8192)
        assert dnx_frame_size(cid, w, h) == n, (cid, w, h)
''', needs='DNxHR frames whose width or height is not a multiple of 16', breaks='frames are cut at the wrong size')
S['P21-pixel-layout'] = dict(prop='P21', edits=[('mxf.py', '''    layout = []
    for i in range(8):
''', '''    layout = []
    for i in range(7):
''')], demo='''
from io import BytesIO
from aaf2.mxf import decode_pixel_layout
d = bytes(bytearray([70, 8, 82, 8, 71, 8, 66, 8, 65, 8, 114, 8, 103, 8, 98, 8]))
assert len(decode_pixel_layout(BytesIO(d))) == 8
assert len(decode_pixel_layout(BytesIO(d[:6] + bytes(10)))) == 3
''', needs='an RGBA descriptor that uses all eight components of its pixel layout', breaks='the last component is dropped')
S['P23-stored-creator'] = dict(prop='P23', edits=[('file.py', '''        def create_instance(*args, **kwargs):
            return self.create_instance(name, args, kwargs)

        return create_instance
''', '''        def create_instance(*args, **kwargs):
            return self.create_instance(self.__dict__.get('last', name), args, kwargs)

        if name in AAFClassName_dict:
            self.__dict__['last'] = name
        return create_instance
''')], demo='''
import aaf2
with aaf2.open() as f:
    a = f.create.Filler
    b = f.create.Sequence
    assert type(a()).__name__ == 'Filler' and type(b()).__name__ == 'Sequence'
''', needs='creators stored and used after another class was asked for', breaks='an object of the class asked for last is created')
S['P14-target-cache'] = dict(prop='P14', edits=[('file.py', '''    def resovle_weakref(self, index, ref_pid, ref):
        parent, p = self.weakref_prop(index)
        return p[ref]
''', '''    def resovle_weakref(self, index, ref_pid, ref):
        # the target sets do not move
        targets = self.__dict__.setdefault('weakref_targets', {})
        if index not in targets:
            targets[index] = self.weakref_prop(index)
        parent, p = targets[index]
        return p[ref]
''')], demo='''
import aaf2
from aaf2.auid import AUID
with aaf2.open() as f:
    m = f.create.MasterMob('a')
    f.content.mobs.append(m)
    c = f.create.Filler('picture')
    assert c.datadef.auid == f.dictionary.lookup_datadef('picture').auid
    old = f.dictionary
    new = f.create.Dictionary()
    new.setup_defaults()
    f.header['Dictionary'].value = new
    assert c.datadef is f.dictionary.lookup_datadef('picture'), 'resolves to an object of the replaced dictionary'
''', needs='the object holding the target collection is replaced after a reference has been resolved', breaks='references resolve to objects that are not in the collection any more')
