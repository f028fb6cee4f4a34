R = [
('types.py', """        result = b''

        for item in value:
            result += element_typedef.encode(item)

        return result

PID_SET_TYPE""", """        return b''.join(element_typedef.encode(item) for item in value)

PID_SET_TYPE"""),
('types.py', """        start = 0
        result = []
        for i in range(elements):
            end = start + byte_size
            result.append(element_typedef.decode(data[start:end]))
            start = end
        return result

    def encode(self, value):
""", """        return [element_typedef.decode(data[i * byte_size:(i + 1) * byte_size]) for i in range(elements)]

    def encode(self, value):
"""),
('types.py', """        set_data = set(data)
        result = b""
        for item in set_data:
            result += typedef.encode(item)

        return result
""", """        parts = []
        for item in set(data):
            parts.append(typedef.encode(item))

        return b"".join(parts)
"""),
('types.py', """        start = 0
        result = set()
        for i in range(count):
            end = start + byte_size
            v = typedef.decode(data[start:end])
            result.add(v)
            start = end

        return result
""", """        result = set()
        start = 0
        while start < count * byte_size:
            result.add(typedef.decode(data[start:start + byte_size]))
            start += byte_size

        return result
"""),
('types.py', """    start = 0
    data = bytearray(data)
    for i in range(0, len(data), 2):
        if data[i] == 0x00 and data[i+1] == 0x00:
            yield data[start:i].decode("utf-16le")
            start = i+2
""", """    data = bytearray(data)
    start = i = 0
    size = len(data)
    while i < size:
        if not (data[i] or data[i+1]):
            yield data[start:i].decode("utf-16le")
            start = i+2
        i += 2
"""),
('types.py', """        # zero out remaining bytes
        if count < element_count:
            bytes_left = (element_count - count) * byte_size
            while bytes_left:
                result += b'\\0'
                bytes_left -= 1

        return result
""", """        # zero out remaining bytes
        return result + b'\\0' * ((element_count - count) * byte_size)
"""),
('types.py', """        typedef = self.element_typedef
        for index, value in self.elements.items():
            if value == data:
                return typedef.encode(index)
            if index == data:
                return typedef.encode(index)
""", """        typedef = self.element_typedef
        for index, value in self.elements.items():
            if data in (value, index):
                return typedef.encode(index)
"""),
('cfb.py', """        t = 1
        for item in self.difat[1:]:
            for i, sid in enumerate(item[:-1]):
                yield t, i, sid
            t+=1

""", """        for t, item in enumerate(self.difat[1:], 1):
            # the last item links to the next table
            for i, sid in enumerate(item[:-1]):
                yield t, i, sid

"""),
('mxf.py', """        for tag, data in iter_tags(f, length):
            self.read_tag(tag, data)
            uid = local_tags.get(tag, None)
            with BytesIO(data) as f:

                if uid""", """        for tag, data in iter_tags(f, length):
            self.read_tag(tag, data)
            uid = local_tags.get(tag, None)
            if uid is None:
                continue

            with BytesIO(data) as f:

                if uid"""),
('mxf.py', """        tags = {}
        for i in range(item_num):
            tag = read_u16be(f)
            uid = read_auid_be(f)
            # print("%04x" % tag, ':', uid)
            tags[tag] = uid

        return tags
""", """        tags = {}
        left = item_num
        while left > 0:
            tag = read_u16be(f)
            tags[tag] = read_auid_be(f)
            left -= 1

        return tags
"""),
('file.py', """        classdef = self.root.metadict.lookup_classdef(name)
        if classdef is None:
            raise ValueError("no class found with name: %s" % name)

        if not classdef.concrete:
            raise ValueError("cannot initialize abstract class: %s" % name)

        classobj = self.root.metadict.lookup_class(name)
""", """        metadict = self.root.metadict
        classdef = metadict.lookup_classdef(name)
        problem = None
        if classdef is None:
            problem = "no class found with name: %s"
        elif not classdef.concrete:
            problem = "cannot initialize abstract class: %s"
        if problem:
            raise ValueError(problem % name)

        classobj = metadict.lookup_class(name)
"""),
('components.py', """        length = 0
        for index, component in enumerate(self.components):

            if isinstance(component, Transition):
                length -= component.length
                yield (index, length, component)
            else:
                yield (index, length, component)
                length += component.length
""", """        position = 0
        index = 0
        for component in self.components:
            is_transition = isinstance(component, Transition)
            if is_transition:
                position -= component.length
            yield (index, position, component)
            if not is_transition:
                position += component.length
            index += 1
"""),
('cfb.py', """        for sid in self.get_fat_chain(start_sid, minifat):
            fat[sid] = FREESECT
            if minifat:
                self.minifat_freelist.insert(0, sid)
            else:
                self.fat_freelist.insert(0, sid)
""", """        freelist = self.minifat_freelist if minifat else self.fat_freelist
        for sid in self.get_fat_chain(start_sid, minifat):
            fat[sid] = FREESECT
            freelist.insert(0, sid)
"""),
('cfb.py', """        if start_sid in (None, ENDOFCHAIN, FREESECT, DIFSECT, FATSECT):
            return []

        while b != ENDOFCHAIN:
            sectors.append(b)
            b = fat[b]
            if a != ENDOFCHAIN:
                a = fat[a]
                if a != ENDOFCHAIN:
                    a = fat[a]
                    if a == b:
                        raise""", """        if start_sid is None or start_sid in (ENDOFCHAIN, FREESECT, DIFSECT, FATSECT):
            return sectors

        while True:
            if b == ENDOFCHAIN:
                break
            sectors.append(b)
            b = fat[b]
            for _ in range(2):
                if a != ENDOFCHAIN:
                    a = fat[a]
            if a != ENDOFCHAIN:
                    if a == b:
                        raise"""),
('mobs.py', """        for slot in self.slots:
            if slot.slot_id == slot_id:
                return slot
        raise IndexError("No SlotID: %s" % str(slot_id))
""", """        matches = [slot for slot in self.slots if slot.slot_id == slot_id]
        if not matches:
            raise IndexError("No SlotID: %s" % str(slot_id))
        return matches[0]
"""),
('video.py', """        with BytesIO() as data:
            data.write(dnx_header)
            data.write(f.read(frame_size - 640))
            yield data.getvalue()
""", """        yield dnx_header + f.read(frame_size - 640)
"""),
('audio.py', """            self._sampwidth = (sampwidth + 7) // 8
""", """            self._sampwidth = sampwidth // 8 + (1 if sampwidth % 8 else 0)
"""),
]
