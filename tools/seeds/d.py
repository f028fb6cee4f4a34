S = {}
S['P06-start-meet'] = dict(prop='P06', edits=[('cfb.py', '''                    if a == b:
                        raise CompoundFileBinaryError('cyclic''', '''                    if a == b and b != start_sid:
                        raise CompoundFileBinaryError('cyclic''')], demo='''
import resource, signal
from array import array
from io import BytesIO
resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))
signal.alarm(20)
from aaf2.cfb import CompoundFileBinary, CompoundFileBinaryError
ss = CompoundFileBinary(BytesIO(), 'wb+')
ss.fat = array(str('I'), [1, 2, 0, 4, 3])
for start in (0, 3):
    try:
        ss.get_fat_chain(start)
    except CompoundFileBinaryError:
        continue
    assert False, 'a ring was accepted as a chain'
''', needs='a table in which the chain is a pure ring through its start sector', breaks='the walk never ends')
S['P10-limit'] = dict(prop='P10', edits=[('rational.py', '''value.limit_denominator(0x7FFFFFFF)''', '''value.limit_denominator(0x7FFFFF)''')], demo='''
from aaf2.rational import AAFRational
r = AAFRational(1.0 / 2 ** 25)
assert (r.numerator, r.denominator) == (1, 2 ** 25), r
r = AAFRational(12345.0 + 2 ** -17)
assert float(r) == 12345.0 + 2 ** -17
''', needs='a float whose exact pair has a denominator above 8388607', breaks='a float that equals a 32 bit pair is rounded')
S['P13-set-truncate'] = dict(prop='P13', edits=[('properties.py', '''                write_u32le(f, 1)
                f.write(key.bytes_le)

            s.write(f.getvalue())
            s.truncate()''', '''                write_u32le(f, 1)
                f.write(key.bytes_le)

            s.write(f.getvalue())
            if count:
                s.truncate()''')], demo='''
import os, tempfile, aaf2
p = os.path.join(tempfile.mkdtemp(), 'x.aaf')
with aaf2.open(p, 'w') as f:
    a, b = f.create.CompositionMob('a'), f.create.CompositionMob('b')
    f.content.mobs.extend([a, b])
    ids = a.mob_id, b.mob_id
with aaf2.open(p, 'rw') as f:
    for i in ids:
        f.content.mobs.pop(i)
with aaf2.open(p) as f:
    assert len(f.content.mobs) == 0
''', needs='a set emptied in a later session than the one that filled it', breaks='the file cannot be read any more')
S['P17-sorted-lookup'] = dict(prop='P17', edits=[('mobs.py', '''        for slot in self.slots:
            if slot.slot_id == slot_id:
                return slot
        raise IndexError''', '''        for slot in self.slots:
            if slot.slot_id == slot_id:
                return slot
            if slot.slot_id > slot_id and slot_id > 0:
                break
        raise IndexError''')], demo='''
import aaf2
f = aaf2.open()
if f:
    m = f.create.MasterMob('m')
    f.content.mobs.append(m)
    ids = [m.create_timeline_slot(25, i).slot_id for i in (5, 2, 9, 1)]
    for i in ids:
        assert m.slot_at(i).slot_id == i
''', needs='slots that are not in the order of their ids', breaks='slot_at misses slots behind one with a larger id')
S['P23-remember-unknown'] = dict(prop='P23', edits=[('file.py', '''        classdef = self.root.metadict.lookup_classdef(name)
        if classdef is None:
            raise ValueError("no class found with name: %s" % name)
''', '''        unknown = self.__dict__.setdefault('unknown', set())
        classdef = None
        if name not in unknown:
            classdef = self.root.metadict.lookup_classdef(name)
        if classdef is None:
            # no need to search again
            unknown.add(name)
            raise ValueError("no class found with name: %s" % name)
''')], demo='''
import aaf2
from aaf2.auid import AUID
with aaf2.open() as f:
    try:
        f.create.DemoThing()
        assert False
    except ValueError:
        pass
    c = f.metadict.register_classdef('DemoThing', AUID(int=4711), 'InterchangeObject', True)
    o = f.create.DemoThing()
    assert o.classdef is c and o.root is f
''', needs='a class asked for before it was registered', breaks='the name stays refused after the class is known')
S['P23-first-root'] = dict(prop='P23', edits=[('file.py', '''        obj = classobj.__new__(classobj)
        obj.root = self.root
        obj.__init__(*args, **kwargs)
''', '''        obj = classobj.__new__(classobj)
        obj.root = self.root
        if args and isinstance(args[0], AAFObject):
            obj.root = args[0].root
        obj.__init__(*args, **kwargs)
''')], demo='''
import aaf2
with aaf2.open() as f, aaf2.open() as g:
    d = f.dictionary.lookup_operationdef('Dissolve') if False else None
    dd = f.dictionary.lookup_datadef('picture')
    try:
        o = g.create.Filler(dd, 10)
    except Exception:
        o = None
    assert o is None or o.root is g, 'object of another file'
''', needs='a constructor given an object of another file', breaks='the new object belongs to the other file')
S['P21-static-tags'] = dict(prop='P21', edits=[('mxf.py', '''            tags[tag] = uid

        return tags''', '''            if tag >= 0x8000:
                # the others are static
                tags[tag] = uid

        return tags''')], demo='''
from io import BytesIO
from struct import pack
from aaf2 import mxf
uid = bytes(range(16))
m = mxf.MXFFile.__new__(mxf.MXFFile)
tags = m.read_primer(BytesIO(pack('>II', 2, 18) + pack('>H', 0x3c0a) + uid + pack('>H', 0x8001) + uid), 44)
assert sorted(tags) == [0x3c0a, 0x8001], tags
''', needs='a primer that lists static tags', breaks='tags of the primer are dropped')
S['P12-empty-value'] = dict(prop='P12', edits=[('core.py', '''                data = f.read(byte_size)
                p = property_formats[format](self, pid, format, version)''', '''                if not byte_size:
                    continue
                data = f.read(byte_size)
                p = property_formats[format](self, pid, format, version)''')], demo='''
import os, tempfile, aaf2
p = os.path.join(tempfile.mkdtemp(), 'x.aaf')
with aaf2.open(p, 'w') as f:
    m = f.create.SourceMob('m')
    d = f.create.CDCIDescriptor()
    m.descriptor = d
    for k, v in (('SampleRate', 25), ('StoredWidth', 1), ('StoredHeight', 1), ('FrameLayout', 'FullFrame'), ('ImageAspectRatio', '1/1'), ('ComponentWidth', 8), ('HorizontalSubsampling', 2), ('Length', 1), ('ContainerFormat', f.dictionary.lookup_containerdef('AAF'))):
        d[k].value = v
    d['VideoLineMap'].value = []
    f.content.mobs.append(m)
with aaf2.open(p) as f:
    d = list(f.content.mobs)[0].descriptor
    assert 'VideoLineMap' in d and list(d['VideoLineMap'].value) == []
''', needs='a value that takes no bytes', breaks='the property is gone after reopening')
S['P20-twenty-bits'] = dict(prop='P20', edits=[('audio.py', '''(sampwidth + 7) // 8''', '''sampwidth // 8''')], demo='''
import os, tempfile, struct, aaf2
p = os.path.join(tempfile.mkdtemp(), 'x.wav')
data = bytes(range(30))
fmt = struct.pack('<HHLLHH', 1, 1, 48000, 48000 * 3, 3, 20)
with open(p, 'wb') as o:
    body = b'WAVEfmt ' + struct.pack('<L', len(fmt)) + fmt + b'data' + struct.pack('<L', len(data)) + data
    o.write(b'RIFF' + struct.pack('<L', len(body)) + body)
with aaf2.open() as f:
    m = f.create.MasterMob('m')
    f.content.mobs.append(m)
    m.import_audio_essence(p)
    e = list(f.content.essencedata)[0]
    assert e.open('r').read() == data
    assert e.mob.descriptor.length == 10
''', needs='a WAVE file with 20 bit samples in 3 byte containers', breaks='length and sample size do not match the source')
