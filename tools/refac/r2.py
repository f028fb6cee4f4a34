R = [
('utils.py', """    value  = buffer[offset]
    value += buffer[offset+1] << 8
    value += buffer[offset+2] << 16
    value += buffer[offset+3] << 24
    return value

def unpack_u64le""", """    value = 0
    for i in range(4):
        value += buffer[offset+i] << (8 * i)
    return value

def unpack_u64le"""),
('utils.py', """        for i, byte in enumerate(data):
            num += byte << ((length-i) * 8)
        return num
""", """        for i in range(len(data)):
            num = (num << 8) + data[i]
        return num
"""),
('utils.py', """    for ch in squeeze_name(name, max_size):
        # not allowed in a storage name or more then one utf-16 unit
        if ch in "/\\\\:!" or not 0x20 <= ord(ch) <= 0xFFFF:
            ch = "_"
        new_name += ch
    return "%s-%s" % (new_name, p)
""", """    for ch in squeeze_name(name, max_size):
        new_name += storage_char(ch)
    return new_name + "-" + p

def storage_char(ch):
    # not allowed in a storage name or more then one utf-16 unit
    n = ord(ch)
    if n < 0x20 or n > 0xFFFF or ch in "/\\\\:!":
        return "_"
    return ch
"""),
('utils.py', """    half = size//2
    new_name = ""
    for i in range(size):
        if i < half:
            ch = name[i]
        elif i == half:
            ch = '-'
        else:
            ch = name[len(name) - (size-i)]
        new_name += ch

    return new_name
""", """    half = size//2
    tail = size - half - 1
    new_name = name[:half] + '-'
    if tail:
        new_name += name[len(name) - tail:]
    return new_name
"""),
('mobs.py', """        slots = [slot.slot_id for slot in self.slots]
        slots.sort()
        if slot_id is None:
            slot_id = 1
            if slots and slots[0] == 0:
                slot_id = 0

            # first gap, slot ids of existing files can be repeated
            for e in slots:
                if e == slot_id:
                    slot_id += 1
        elif slot_id in slots:
            raise ValueError("slot id: %d already exists" % slot_id)
""", """        slots = sorted(slot.slot_id for slot in self.slots)
        if slot_id is not None:
            if slot_id in slots:
                raise ValueError("slot id: %d already exists" % slot_id)
        else:
            slot_id = self.free_slot_id(slots)
"""),
('mobs.py', "    def create_empty_sequence_slot(self, edit_rate, slot_id=None,", """    def free_slot_id(self, used):
        # first gap, slot ids of existing files can be repeated
        slot_id = 0 if used and used[0] == 0 else 1
        for e in used:
            if e == slot_id:
                slot_id += 1
        return slot_id

    def create_empty_sequence_slot(self, edit_rate, slot_id=None,"""),
('mobs.py', """            children_processed = True
            in_progress.add(mob.mob_id)

            for obj, _ in mob.walk_references(topdown=True):
                if isinstance(obj, SourceReference):
                    ref_mob = obj.mob
                    if not ref_mob:
                        continue
                    # references back to a mob being processed are cycles
                    if ref_mob.mob_id not in visited and ref_mob.mob_id not in in_progress:
                        stack.append(ref_mob)
                        children_processed = False

            if children_processed:
""", """            in_progress.add(mob.mob_id)
            waiting = []

            for obj, _ in mob.walk_references(topdown=True):
                ref_mob = obj.mob if isinstance(obj, SourceReference) else None
                if not ref_mob:
                    continue
                # references back to a mob being processed are cycles
                ref_id = ref_mob.mob_id
                if not (ref_id in visited or ref_id in in_progress):
                    waiting.append(ref_mob)

            stack.extend(waiting)
            if not waiting:
"""),
('properties.py', """        for obj in value:
            i = len(self.references)
            self.references.append(self.next_free_key)
            self.objects[i] = obj
            self.next_free_key += 1
""", """        for i, obj in enumerate(value, len(self.references)):
            self.objects[i] = obj
            self.references.append(self.next_free_key)
            self.next_free_key += 1
"""),
('properties.py', """            count = read_u32le(f)
            self.next_free_key = read_u32le(f)
            self.last_free_key = read_u32le(f)

            pack_fmt = str("<%dI" % count)
            self.references = list(struct.unpack(pack_fmt, f.read(4 * count)))
""", """            count = read_u32le(f)
            self.next_free_key = read_u32le(f)
            self.last_free_key = read_u32le(f)
            self.references = []
            for i in range(count):
                self.references.append(read_u32le(f))
"""),
('properties.py', """        # decrement all cached object with > index -1
        objects = {}
        for key, value in self.objects.items():
            if key == index:
                item = value
            elif key > index:
                objects[key-1] = value
            else:
                objects[key] = value
""", """        # decrement all cached object with > index -1
        item = self.objects.pop(index)
        objects = {}
        for key, value in self.objects.items():
            if key > index:
                key -= 1
            objects[key] = value
"""),
('properties.py', """        for key in self.references:
            obj = self.read_object(key)
            yield (key, obj)

    def values(self):
        for key, obj in self.items():
            yield obj
""", """        for key in self.references:
            yield key, self.read_object(key)

    def values(self):
        for key in self.references:
            yield self.read_object(key)
"""),
('properties.py', """        obj = self.objects.get(key, None)
        if obj:
            return obj

        ref = self.index_ref_name(key)
        dir_entry = self.parent.dir.get(ref)
        obj = self.parent.root.manager.read_object(dir_entry)
        self.objects[key] = obj
        return obj
""", """        obj = self.objects.get(key, None)
        if not obj:
            obj = self.load(key)
            self.objects[key] = obj
        return obj

    def load(self, key):
        dir_entry = self.parent.dir.get(self.index_ref_name(key))
        return self.parent.root.manager.read_object(dir_entry)
"""),
('properties.py', """        # copy stream data
        while byte_size > 0:
            d = a.read(read_size)
            b.write(d)
            byte_size -= len(d)
""", """        # copy stream data
        copied = 0
        while copied < byte_size:
            d = a.read(read_size)
            b.write(d)
            copied += len(d)
"""),
('properties.py', """        if ref_classdef.auid == CLASSDEF_AUID:""", """        if ref_classdef.auid == CLASSDEF_AUID:""") if False else
('auid.py', """        return hash(bytes(self.bytes_le))
""", """        value = bytes(self.bytes_le)
        return hash(value)
"""),
('auid.py', """        hex = '%032x' % self.int
        return '%s-%s-%s-%s-%s' % (
            hex[:8], hex[8:12], hex[12:16], hex[16:20], hex[20:])
""", """        h = self.hex
        return '-'.join((h[:8], h[8:12], h[12:16], h[16:20], h[20:]))
"""),
('rational.py', """                        if exp >= 0:
                            numerator *= 10**exp
                        else:
                            denominator *= 10**-exp
""", """                        if exp < 0:
                            denominator *= 10**-exp
                        else:
                            numerator *= 10**exp
"""),
('mobslots.py', """            length = 0
            for c in segment.components:
                if isinstance(c, components.Transition):
                    length -= c.length
                else:
                    length += c.length
            return length
""", """            return sum((-c.length if isinstance(c, components.Transition) else c.length) for c in segment.components)
"""),
('misc.py', """            index = self.nearest_index(time)
            nearest = pointlist[index]
            if float(nearest.time) == float(time):
                pointlist[index] = cp
            elif nearest.time > time:
                # earlier than the first keyframe
                pointlist.insert(index, cp)
            else:
                pointlist.insert(index+1, cp)
        else:
            pointlist.append(cp)

        return cp
""", """            self.place(pointlist, cp, time)
        else:
            pointlist.append(cp)

        return cp

    def place(self, pointlist, cp, time):
        index = self.nearest_index(time)
        nearest = pointlist[index]
        if float(nearest.time) == float(time):
            pointlist[index] = cp
            return
        # else it may be earlier than the first keyframe
        pointlist.insert(index if nearest.time > time else index + 1, cp)
"""),
('misc.py', """        # clamp if t outside of range
        if t <= p1.time or index + 1 >= len(pointlist):
            return float(p1.value)

        if self.interpolationdef.auid == ConstantInterp:
            return float(p1.value)

        p2 = pointlist[index+1]

        if self.interpolationdef.auid == LinearInterp:
            t_len = float(p2.time) - float(p1.time)
            t_diff = t - float(p1.time)
            t_mix = t_diff/t_len

            v0 = float(p1.value)
            v1 = float(p2.value)
            return lerp(v0, v1, t_mix)
""", """        # clamp if t outside of range
        kind = self.interpolationdef.auid if self.interpolationdef else None
        if kind == ConstantInterp or index + 1 >= len(pointlist) or t <= p1.time:
            return float(p1.value)

        p2 = pointlist[index+1]

        if kind == LinearInterp:
            start = float(p1.time)
            t_mix = (t - start)/(float(p2.time) - start)
            return lerp(float(p1.value), float(p2.value), t_mix)
"""),
('mxf.py', """    length = read_u8(f)
    if length > 127:
        data = bytearray(length - 128)
        bytes_read = f.readinto(data)
        assert bytes_read == len(data)
        length = int_from_bytes(data, byte_order='big')
    return length
""", """    first = read_u8(f)
    if first < 128:
        return first
    data = bytearray(first & 0x7f)
    assert f.readinto(data) == len(data)
    return int_from_bytes(data, byte_order='big')
"""),
('mxf.py', """    while length > 0:
        tag = read_u16be(f)
        size = read_u16be(f)
        # print("   tag 0x%04x %d" % (tag, size))
        if size:
            yield tag, f.read(size)
        length -= 4 + size
""", """    done = 0
    while done < length:
        tag = read_u16be(f)
        size = read_u16be(f)
        done += 4 + size
        # print("   tag 0x%04x %d" % (tag, size))
        if size:
            yield tag, f.read(size)
"""),
('mxf.py', """        for key in ('SlotID', 'SlotName', 'EditRate', 'PhysicalTrackNumber', 'Origin'):
            if key in self.data:
                timeline[key].value = self.data[key]

        segment = self.resolve_ref('Segment')
        timeline.segment = segment.link()
        return timeline
""", """        timeline.segment = self.resolve_ref('Segment').link()
        self.copy_values(timeline, ('SlotID', 'SlotName', 'EditRate', 'PhysicalTrackNumber', 'Origin'))
        return timeline

    def copy_values(self, dst, keys):
        for key in keys:
            value = self.data.get(key)
            if value is not None:
                dst[key].value = value
"""),
]
