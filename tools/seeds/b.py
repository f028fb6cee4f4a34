S = {}
S['P13-rename-reuse'] = dict(prop='P13', edits=[('properties.py', '''        # remove reference
        self.objects.pop(old_key)
        local_key''', '''        # remove reference
        local_key''')], demo='''
import aaf2
from aaf2.mobid import MobID
with aaf2.open() as f:
    ids = [MobID(int=k) for k in (1, 2, 3)]
    a = f.create.MasterMob('a')
    a.mob_id = ids[0]
    f.content.mobs.append(a)
    a.mob_id = ids[1]
    b = f.create.MasterMob('b')
    b.mob_id = ids[0]
    f.content.mobs.append(b)
    a2 = f.content.mobs[ids[1]]
    assert a2.dir is not None, 'renamed mob was thrown out'
    assert a2.name == 'a' and f.content.mobs[ids[0]].name == 'b'
''', needs='a member of the mob set gets a new id and then another mob is added with the old id', breaks='the renamed member is detached although it is still in the set')
S['P14-vector-duplicates'] = dict(prop='P14', edits=[('properties.py', '''        for item in values:
            self.references.append(item.unique_key)
''', '''        for item in values:
            if not self.references or self.references[-1] != item.unique_key:
                self.references.append(item.unique_key)
''')], demo='''
import aaf2
from aaf2.auid import AUID
from aaf2.model import classdefs
with aaf2.open() as f:
    cd = f.metadict.register_classdef('SeedThing', AUID('11111111-0000-0000-060e-2b3402060101'), 'InterchangeObject', True)
    cd.register_propertydef('SeedRefs', AUID('33333333-0000-0000-060e-2b3401010101'), None, 'kAAFTypeID_DataDefinitionWeakReferenceVector', True)
    o = f.create.SeedThing()
    dd = [f.dictionary.lookup_datadef(n) for n in ('Picture', 'Sound')]
    want = [dd[0], dd[1], dd[1], dd[0]]
    o['SeedRefs'].value = want
    assert [x.auid for x in o['SeedRefs'].value] == [x.auid for x in want], 'members lost'
''', needs='a weak reference vector with the same object twice in a row', breaks='the repeated reference is dropped, later members move')
S['P15-member-name-length'] = dict(prop='P15', edits=[('properties.py', '''            propdef = self.propertydef
            self.index_name = mangle_name(propdef.property_name, self.pid, 32-10)
            self.data = self.encode(self.index_name)

        for item in values:
            key = item.unique_key''', '''            propdef = self.propertydef
            self.index_name = mangle_name(propdef.property_name, self.pid, 32-6)
            self.data = self.encode(self.index_name)

        for item in values:
            key = item.unique_key''')], demo='''
import aaf2
from aaf2.auid import AUID
with aaf2.open() as f:
    cd = f.metadict.register_classdef('SeedThing', AUID('11111111-0000-0000-060e-2b3402060101'), 'InterchangeObject', True)
    cd.register_propertydef('AnExtraordinarilyLongPropertyName', AUID('33333333-0000-0000-060e-2b3401010101'), 0xFFAB, 'kAAFTypeID_MobStrongReferenceSet', True)
    o = f.create.SeedThing()
    p = o['AnExtraordinarilyLongPropertyName']
    p.next_free_key = 0x123456
    m = f.create.MasterMob('a')
    p.append(m)
    n = p.index_ref_name(m.mob_id)
    assert len(n) <= 31, (n, len(n))
''', needs='an owned set whose property name is long and whose member counter has reached 0x1000', breaks='the storage name of the member does not fit in 31 characters')
S['P16-vector-alias'] = dict(prop='P16', edits=[('properties.py', '''            p.references = list(self.references)
            p.index_name = self.index_name
            p.next_free_key = self.next_free_key
            p.last_free_key = self.last_free_key
            p.data = self.data
''', '''            p.references = self.references
            p.index_name = self.index_name
            p.next_free_key = self.next_free_key
            p.last_free_key = self.last_free_key
            p.data = self.data
''')], demo='''
import aaf2
with aaf2.open() as f:
    m = f.create.MasterMob('a')
    for k in range(4):
        m.create_timeline_slot('25/1')
    c = m.copy()
    c.slots.pop(1)
    assert len(m.slots) == 4, 'source changed'
    assert [s.slot_id for s in m.slots] == [1, 2, 3, 4]
''', needs='an object with a vector of owned objects is copied in its file and the copy is edited', breaks='the copy shares its index with the source: editing one changes the other')
S['P18-stored-length'] = dict(prop='P18', edits=[('mobslots.py', '''        if isinstance(segment, components.Sequence):
            length = 0
''', '''        if isinstance(segment, components.Sequence):
            length = segment.getvalue('Length') or 0
            if length:
                return length
''')], demo='''
import aaf2
with aaf2.open() as f:
    m = f.create.MasterMob('a')
    s = m.create_timeline_slot(25)
    s.segment = f.create.Sequence('picture', 30)
    s.segment.components.append(f.create.Filler('picture', 30))
    s.segment.components.append(f.create.Filler('picture', 12))
    assert s.length == 42, s.length
''', needs='a sequence whose own stored length is older than its last component', breaks='the slot reports the outdated length')
S['P19-tolerance'] = dict(prop='P19', edits=[('misc.py', '''            if float(nearest.time) == float(time):''', '''            if abs(float(nearest.time) - float(time)) < 1e-6:''')], demo='''
import aaf2
from aaf2.rational import AAFRational
with aaf2.open() as f:
    pd = f.create.ParameterDef('9d2ea893-0968-11d3-8a38-0050040ef7d2', 'Level', '', f.metadict.lookup_typedef('Rational'))
    f.dictionary.register_def(pd)
    f.dictionary.register_def(f.create.InterpolationDef(aaf2.misc.LinearInterp, 'Linear', 'l')) if not f.dictionary.get('InterpolationDefinitions').get(aaf2.misc.LinearInterp) else None
    v = f.create.VaryingValue(pd, f.dictionary.lookup_interperlationdef(aaf2.misc.LinearInterp))
    ts = [AAFRational(k, 4000000) for k in range(3)]
    for t in ts:
        v.add_keyframe(t, t)
    assert [float(p.time) for p in v['PointList']] == [float(t) for t in ts], [p.time for p in v['PointList']]
''', needs='two keyframes less than a microsecond apart', breaks='the second keyframe replaces the first')
S['P20-first-frame-size'] = dict(prop='P20', edits=[('video.py', '''    while True:
        dnx_header = f.read(640)''', '''    frame_size = None
    while True:
        dnx_header = f.read(640)'''), ('video.py', '''        frame_size = dnx_frame_size(cid, width, height)

''', '''        if frame_size is None:
            frame_size = dnx_frame_size(cid, width, height)

''')], demo='''
import io, struct
from aaf2 import video
def frame(cid, n, w=1920, h=1080):
    head = bytearray(640)
    head[0:5] = b'\\x00\\x00\\x02\\x80\\x01'
    struct.pack_into('>HH', head, 24, h, w)
    head[0x21] = 0x38
    struct.pack_into('>I', head, 40, cid)
    size = video.dnx_frame_size(cid, w, h)
    return bytes(head) + bytes(bytearray([n])) * (size - 640)
fs = [frame(1253, 1), frame(1235, 2), frame(1253, 3)]
got = list(video.iter_dnx_stream(io.BytesIO(b''.join(fs))))
assert got == fs, [len(x) for x in got]
''', needs='a stream whose frames do not all have the same compression id', breaks='later frames are cut with the size of the first')
S['P21-ber-readinto'] = dict(prop='P21', edits=[('mxf.py', '''        length = int_from_bytes(data, byte_order='big')
    return length''', '''        length = int_from_bytes(data[-4:], byte_order='big')
    return length''')], demo='''
import io
from aaf2 import mxf
for n in (1, 2, 3, 4, 5, 8):
    for v in (5, 0x7f, 0x1234567890):
        if v < 256 ** n:
            b = io.BytesIO(bytes(bytearray([0x80 + n])) + bytes(bytearray((v >> (8 * (n - 1 - k))) & 255 for k in range(n))))
            assert mxf.ber_length(b) == v, (n, v)
''', needs='a packet of 4 GiB or more (long form length with 5 or more significant bytes)', breaks='the length loses its upper bytes, the walk goes on inside the packet')
S['P21-empty-tag'] = dict(prop='P21', edits=[('mxf.py', '''        if size:
            yield tag, f.read(size)
        length -= 4 + size''', '''        if not size:
            break
        yield tag, f.read(size)
        length -= 4 + size''')], demo='''
import io
from aaf2 import mxf
b = io.BytesIO(b'\\x44\\x02\\x00\\x00' + b'\\x44\\x01\\x00\\x02ab')
assert list(mxf.iter_tags(b, 10)) == [(0x4401, b'ab')], 'tags after an empty one are lost'
''', needs='a metadata set with an item of length zero before other items', breaks='the items after it are not decoded')
S['P22-diamond'] = dict(prop='P22', edits=[('mobs.py', '''                if mob.mob_id not in visited:
                    visited.add(mob.mob_id)
                    if mob is not self:
                        yield mob''', '''                visited.add(mob.mob_id)
                if mob is not self:
                    yield mob''')], demo='''
import aaf2
with aaf2.open() as f:
    ms = [f.create.MasterMob(str(k)) for k in range(3)]
    f.content.mobs.extend(ms)
    def ref(a, b):
        s = a.create_timeline_slot(25)
        s.segment = f.create.SourceClip(0, 10, b.mob_id, 1, media_kind='picture')
    ref(ms[0], ms[1])
    ref(ms[0], ms[2])
    ref(ms[0], ms[1])
    got = [m.name for m in ms[0].dependant_mobs()]
    assert sorted(got) == ['1', '2'], got
''', needs='two references from one mob to the same mob', breaks='the mob is enumerated twice')

S['P16-extenum-rename'] = dict(prop='P16', edits=[('types.py', '''            if val == element_auid:
                return
            if name == element_name:
                return

            element_values.append(val)
            element_names.append(name)

        element_names.append(element_name)
        element_values.append(element_auid)
''', '''            if name == element_name:
                return

            element_values.append(val)
            element_names.append(name)

        element_names.append(element_name)
        element_values.append(element_auid)
''')], demo='''
import aaf2
with aaf2.open() as f:
    t = f.metadict.lookup_typedef('UsageType')
    before = dict(t.elements)
    auid, name = sorted(before.items(), key=lambda x: x[1])[0]
    f.metadict.register_typedef_model({'extenums': {'UsageType': (str(t.auid), {str(auid): 'SomeOtherName'})}})
    assert t.elements == before, 'existing value renamed'
''', needs='an element is registered under a new name with the id of an existing element of an extendible enumeration', breaks='the existing element is renamed: values stored under its name are read back as another name')
S['P17-unsorted'] = dict(prop='P17', edits=[('mobs.py', '''        slots.sort()
        if slot_id is None:
''', '''        if slot_id is None:
''')], demo='''
import aaf2
with aaf2.open() as f:
    m = f.create.MasterMob('a')
    m.create_timeline_slot(25, 3)
    m.create_timeline_slot(25, 1)
    m.create_timeline_slot(25, 2)
    m.create_timeline_slot(25)
    assert sorted(s.slot_id for s in m.slots) == [1, 2, 3, 4], [s.slot_id for s in m.slots]
''', needs='a mob whose slot ids are not in increasing order', breaks='the new slot gets an id in use')
S['P21-zero-value'] = dict(prop='P21', edits=[('mxf.py', '''        for key in ('SlotID', 'SlotName', 'EditRate', 'PhysicalTrackNumber', 'Origin'):
            if key in self.data:
''', '''        for key in ('SlotID', 'SlotName', 'EditRate', 'PhysicalTrackNumber', 'Origin'):
            if self.data.get(key):
''')], demo='''
import io
import aaf2
from aaf2 import mxf
from aaf2.auid import AUID
class Seg(object):
    def link(self):
        return f.create.Filler('picture', 5)
class Root(object):
    def resolve(self, ref):
        return Seg()
with aaf2.open() as f:
    r = Root()
    r.aaf = f
    t = mxf.MXFTrack()
    t.root = r
    t.data['Segment'] = AUID(int=5)
    t.read_tag(0x4801, bytes(bytearray(4)))
    t.read_tag(0x4804, bytes(bytearray(4)))
    s = t.link()
    assert s.slot_id == 0, s.slot_id
    assert s.getvalue('PhysicalTrackNumber') == 0
''', needs='an MXF track whose track id or number is zero', breaks='the zero is not carried over to the mob slot, which is left without an id')
S['P22-missing-break'] = dict(prop='P22', edits=[('mobs.py', '''                    if not ref_mob:
                        continue''', '''                    if not ref_mob:
                        break''')], demo='''
import aaf2
with aaf2.open() as f:
    ms = [f.create.MasterMob(str(k)) for k in range(3)]
    f.content.mobs.extend(ms[:2])
    def ref(a, b):
        s = a.create_timeline_slot(25)
        s.segment = f.create.SourceClip(0, 10, b.mob_id, 1, media_kind='picture')
    ref(ms[0], ms[2])
    ref(ms[0], ms[1])
    got = [m.name for m in ms[0].dependant_mobs()]
    assert got == ['1'], got
''', needs='a reference to a mob that is not in the file before other references', breaks='the mobs referenced after it are not enumerated')
S['P23-parent-helper'] = dict(prop='P23', edits=[('file.py', '''        classobj = self.root.metadict.lookup_class(name)

        # obj''', '''        classobj = self.root.metadict.lookup_class(name)
        for c in classdef.relatives():
            # closest class with a helper
            if classobj is not AAFObject:
                break
            classobj = self.root.metadict.lookup_class(c.class_name)

        # obj''')], demo='''
import aaf2
from aaf2.auid import AUID
with aaf2.open() as f:
    auid = AUID('11111111-0000-0000-060e-2b3402060101')
    f.metadict.register_classdef('SeedFiller', auid, 'Filler', True)
    o = f.create.SeedFiller()
    assert o.class_id == auid, o.class_id
''', needs='a registered class without a helper below one with a helper', breaks='an object of the parent class is made')
