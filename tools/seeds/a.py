S = {}
S['P01-full-sector-cache'] = dict(prop='P01', edits=[('cfb.py', '''            if sid in sector_cache:
                del sector_cache[sid]

            f.seek(seek_pos)
            f.write(mv[:byte_writeable])''', '''            # a cached copy only has to go if the rest of the sector is still needed
            if sid in sector_cache and byte_writeable < full_sector_size:
                del sector_cache[sid]

            f.seek(seek_pos)
            f.write(mv[:byte_writeable])''')], demo='''
import io
from aaf2.cfb import CompoundFileBinary
c = CompoundFileBinary(io.BytesIO(), 'wb+', sector_size=512)
s = c.open('/a', 'rw')
s.write(b'a' * 8192)
s.seek(0)
assert s.read() == b'a' * 8192
s.seek(1024)
s.write(b'b' * 512)
s.seek(0)
assert s.read() == b'a' * 1024 + b'b' * 512 + b'a' * (8192 - 1536), 'old data returned'
''', needs='a stream that has been read, then a write covering exactly one whole sector of it, then a read of that sector', breaks='reads return the bytes before the last write')
S['P02-remove-4096'] = dict(prop='P02', edits=[('cfb.py', '''        # remove stream data
        if entry.type == "stream":
            self.free_fat_chain(entry.sector_id, entry.byte_size < self.min_stream_max_size)''', '''        # remove stream data
        if entry.type == "stream":
            self.free_fat_chain(entry.sector_id, entry.byte_size <= self.min_stream_max_size)''')], demo='''
import io
from aaf2.cfb import CompoundFileBinary
c = CompoundFileBinary(io.BytesIO(), 'wb+', sector_size=4096)
for k in range(20):
    c.open('/keep%d' % k, 'w').write(bytes(bytearray([k])) * 64)
c.open('/a', 'w').write(b'x' * 4096)
c.remove('/a')
for k in range(20):
    c.open('/new%d' % k, 'w').write(b'n' * 64)
for k in range(20):
    assert bytes(c.open('/keep%d' % k).read()) == bytes(bytearray([k])) * 64, k
used = sum(1 for v in c.fat if v == 0xFFFFFFFF)
c.open('/a', 'w').write(b'x' * 4096)
assert sum(1 for v in c.fat if v == 0xFFFFFFFF) == used - 1
c.remove('/a')
assert sum(1 for v in c.fat if v == 0xFFFFFFFF) == used, 'sector lost'
''', needs='removing a stream of exactly 4096 bytes, the first size that is kept in whole sectors', breaks='the mini sector with the number of its first sector is freed while another stream owns it, and its own sector is never freed')
S['P03-difat-link'] = dict(prop='P03', edits=[('cfb.py', '''            for i in range(self.sector_size // 4):
                write_u32le(f, table[i])

            sid = table[-1]''', '''            for i in range(self.sector_size // 4 - 1):
                write_u32le(f, table[i])

            sid = table[-1]
            if sid == ENDOFCHAIN:
                write_u32le(f, sid)''')], demo='''
import os, shutil, tempfile
from aaf2.cfb import CompoundFileBinary
d = tempfile.mkdtemp()
m = open(d + '/x', 'wb+')
c = CompoundFileBinary(m, 'wb+', sector_size=512)
s = c.open('/big', 'w')
n = (109 + 127 + 3) * 128 * 512
data = b'0123456789abcdef' * (1 << 16)
done = 0
while done < n:
    s.write(data)
    done += len(data)
c.close()
m.close()
m = open(d + '/x', 'rb')
shutil.rmtree(d)
c = CompoundFileBinary(m, 'rb')
s = c.open('/big')
assert s.dir.byte_size == done
s.seek(done - 16)
assert bytes(s.read()) == b'0123456789abcdef'
''', needs='a file of 512 byte sectors so large that its table of FAT sectors needs two DIFAT sectors (over 15 MB)', breaks='the first DIFAT sector has no link to the second, the rest of the FAT is lost on reopen')
S['P04-case-order'] = dict(prop='P04', edits=[('cfb.py', '''            # compare not case senstive
            return self.name.upper() < other.upper()''', '''            # compare not case senstive
            return self.name.lower() < other.lower()''')], demo='''
import io
from aaf2.cfb import CompoundFileBinary
c = CompoundFileBinary(io.BytesIO(), 'wb+', sector_size=512)
for n in ('a_x', 'abx', 'aZx', 'aAx'):
    c.makedir('/' + n)
order = []


def walk(e):
    if e is None:
        return
    walk(e.left())
    order.append(e.name)
    walk(e.right())


walk(c.root.child())
assert order == sorted(order, key=lambda n: (len(n), n.upper())), order
''', needs='two names of one length that differ where one has a letter and the other a character between Z and a, such as an underscore', breaks='siblings are not stored in the order the format prescribes (upper case comparison), other readers do not find them')
S['P04-move-cache'] = dict(prop='P04', edits=[('cfb.py', '''        src_entry.parent = None
        src_entry.name = dst_basename
        dst_entry.add_child(src_entry)

        self.children_cache[dst_entry.dir_id][src_entry.name] = src_entry
''', '''        src_entry.parent = None
        if src_entry.name.upper() != dst_basename.upper():
            src_entry.name = dst_basename
        dst_entry.add_child(src_entry)

        self.children_cache[dst_entry.dir_id][src_entry.name] = src_entry
''')], demo='''
import io
from aaf2.cfb import CompoundFileBinary
c = CompoundFileBinary(io.BytesIO(), 'wb+', sector_size=512)
c.makedir('/one')
c.makedir('/two')
c.open('/one/name', 'w').write(b'data')
c.move('/one/name', '/two/Name')
assert not c.exists('/one/name')
assert c.exists('/two/Name') and sorted(c.listdir_dict('/two')) == ['Name'], sorted(c.listdir_dict('/two'))
''', needs='moving an entry to another folder under a name that differs from the old one in case only', breaks='the entry is not found under the name it was moved to')
S['P05-filetime'] = dict(prop='P05', edits=[('cfb.py', '''    def flags(self, value):
''', '''    def flags(self, value):
        value &= 0x7fffffff
''')], demo='''
import io
from aaf2.cfb import CompoundFileBinary
c = CompoundFileBinary(io.BytesIO(), 'wb+', sector_size=512)
e = c.makedir('/one')
e.flags = 0x80000001
assert e.flags == 0x80000001, e.flags
''', needs='state bits with the highest bit set', breaks='the stored state bits differ from the ones assigned')
S['P06-self-loop'] = dict(prop='P06', edits=[('cfb.py', '''        while b != ENDOFCHAIN:
            sectors.append(b)
            b = fat[b]
            if a != ENDOFCHAIN:
                a = fat[a]
                if a != ENDOFCHAIN:
                    a = fat[a]
                    if a == b:
                        raise''', '''        while b != ENDOFCHAIN:
            sectors.append(b)
            b = fat[b]
            if a != ENDOFCHAIN:
                a = fat[a]
                if a != ENDOFCHAIN:
                    a = fat[a]
                    if a == b and a != start_sid:
                        raise''')], demo='''
import io, signal
from array import array
from aaf2.cfb import CompoundFileBinary, CompoundFileBinaryError
signal.alarm(20)
import resource
resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
c = CompoundFileBinary(io.BytesIO(), 'wb+', sector_size=512)
c.fat = array('I', [1, 2, 3, 4, 0, 0xFFFFFFFE])
try:
    c.get_fat_chain(0)
except CompoundFileBinaryError:
    pass
else:
    assert False
''', needs='a sector chain that leads back to its own first sector', breaks='reading the chain of a damaged file never ends')
S['P07-del-order'] = dict(prop='P07', edits=[('cache.py', '''        self.make_first(node)
        self.head = node.next
''', '''        self.make_first(node)
        self.head = node
''')], demo='''
from aaf2.cache import LRUCacheDict
c = LRUCacheDict(4)  # keeps 5
for k in range(5):
    c[k] = k
del c[2]
c[5] = 5
assert [k for k in range(6) if k in c] == [0, 1, 3, 4, 5], [k for k in range(6) if k in c]
c[6] = 6
assert [k for k in range(7) if k in c] == [1, 3, 4, 5, 6]
''', needs='a full cache, a removal and then an insertion', breaks='an entry that was used recently is dropped although a slot is free')
S['P08-data4'] = dict(prop='P08', edits=[('auid.py', '''    def __lt__(self, other):
        if isinstance(other, (AUID,)):
            return self.int < other.int''', '''    def __lt__(self, other):
        if isinstance(other, (AUID,)):
            return self.bytes_le < other.bytes_le''')], demo='''
from aaf2.auid import AUID
a, b = AUID('01000002-0000-0000-0000-000000000000'), AUID('02000001-0000-0000-0000-000000000000')
assert a < b and not b < a
assert sorted([b, a]) == [a, b]
''', needs='comparing two ids whose first group differs in more than one byte', breaks='ids do not sort like the numbers they stand for')
S['P09-material'] = dict(prop='P09', edits=[('mobid.py', '''        if bytes_le:
            self.bytes_le = bytearray(bytes_le)
        else:''', '''        if bytes_le and any(bytearray(bytes_le)[16:]):
            self.bytes_le = bytearray(bytes_le)
        else:''')], demo='''
from aaf2.mobid import MobID
b = bytes(bytearray(range(16))) + bytes(bytearray(16))
m = MobID(bytes_le=b)
assert bytes(m.bytes_le) == b
''', needs='a mob id whose last 16 bytes (the material) are all zero', breaks='the id read from stored bytes is not the stored id')

S['P10-decimal-exp'] = dict(prop='P10', edits=[('rational.py', '                            denominator *= 10**-exp', '                            denominator = 10**-exp')], demo='''
from aaf2.rational import AAFRational
assert float(AAFRational('15e-1')) == 1.5
assert float(AAFRational('1.5e-1')) == 0.15, AAFRational('1.5e-1')
''', needs='a text with both a decimal fraction and a negative exponent', breaks='the rational is not the number written')
S['P11-text-array'] = dict(prop='P11', edits=[('types.py', '''    for i in range(0, len(data), 2):
        if data[i] == 0x00 and data[i+1] == 0x00:
            yield data[start:i].decode("utf-16le")
            start = i+2''', '''    end = data.find(b"\\0\\0")
    while end != -1:
        end += (end - start) % 2
        yield data[start:end].decode("utf-16le")
        start = end + 2
        end = data.find(b"\\0\\0", start)''')], demo='''
from aaf2.types import iter_utf16_array
from aaf2.utils import encode_utf16_array
for names in (['abc', '', 'x'], [u'a\\u0100b', 'c'], ['']):
    got = list(iter_utf16_array(encode_utf16_array(names)))
    assert got == names, (got, names)
''', needs='a name in which a character with a zero low byte (U+0100, U+0200, ...) follows a Latin-1 character', breaks='text arrays (names of enum members) are cut inside a character')
S['P12-same-value'] = dict(prop='P12', edits=[('properties.py', '''        self.data = self.typedef.encode(value)
        # the value set last''', '''        data = self.typedef.encode(value)
        if data == self.data:
            return

        self.data = data
        # the value set last''')], demo='''
import aaf2
with aaf2.open() as f:
    m = f.create.MasterMob('x')
    f.content.mobs.append(m)
    p = m['Name']
    p.value = None
    assert m.get('Name', allkeys=False) is None
    p.value = 'x'
    assert m.name == 'x', m.name
''', needs='removing a property and then giving the same property object the value it had before', breaks='the property stays absent')
S['P17-explicit-zero'] = dict(prop='P17', edits=[('mobs.py', '''        if slot_id is None:
            slot_id = 1
            if slots and slots[0] == 0:''', '''        if not slot_id:
            slot_id = 1
            if slots and slots[0] == 0:''')], demo='''
import aaf2
f = aaf2.open()
m = f.create.MasterMob('x')
f.content.mobs.append(m)
s = m.create_timeline_slot(25, 0)
assert s.slot_id == 0, s.slot_id
try:
    m.create_timeline_slot(25, 0)
except ValueError:
    pass
else:
    assert False, 'taken id accepted'
''', needs='asking for slot id 0', breaks='the slot gets another id, and a second request for id 0 is not refused')
for k in [k for k in S if not S[k]['demo']]:
    del S[k]
