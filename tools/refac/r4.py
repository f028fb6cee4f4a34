R = [
('types.py', """        fmt = ""
        if self.size == 1:
            fmt = '%dB'
        elif self.size == 2:
            fmt = "<%dH"
        elif self.size == 4:
            fmt = "<%dI"
        elif self.size == 8:
            fmt = "<%dQ"
        else:
            raise AAFPropertyError("unknown integer size: %d" % self.size)
        fmt = fmt % elements
        if self.signed:
            fmt = fmt.lower()

        return str(fmt)
""", """        codes = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}
        size = self.size
        if size not in codes:
            raise AAFPropertyError("unknown integer size: %d" % size)
        code = codes[size]
        if self.signed:
            code = code.lower()
        return str('<' + str(elements) + code)
"""),
('types.py', """        for item in data:
            if count >= element_count:
                raise AAFPropertyError("too many elements for fixed array: expected %d elements" % element_count)
            result += element_typedef.encode(item)
            count += 1

        # zero out remaining bytes
        if count < element_count:
            bytes_left = (element_count - count) * byte_size
            while bytes_left:
                result += b'\\0'
                bytes_left -= 1

        return result
""", """        for item in data:
            count += 1
            if count > element_count:
                raise AAFPropertyError("too many elements for fixed array: expected %d elements" % element_count)
            result += element_typedef.encode(item)

        # zero out remaining bytes
        result += b'\\0' * ((element_count - count) * byte_size)
        return result
"""),
('types.py', """        byte_size = element_typedef.byte_size
        elements = len(data)//byte_size
        start = 0
        result = []
        for i in range(elements):
            end = start + byte_size
            result.append(element_typedef.decode(data[start:end]))
            start = end
        return result
""", """        step = element_typedef.byte_size
        count = len(data)//step
        return [element_typedef.decode(data[i * step:(i + 1) * step]) for i in range(count)]
"""),
('types.py', """        typedef = self.element_typedef
        for index, value in self.elements.items():
            if value == data:
                return typedef.encode(index)
            if index == data:
                return typedef.encode(index)
""", """        for index, value in self.elements.items():
            if data in (value, index):
                return self.element_typedef.encode(index)
"""),
('types.py', """        names = list(iter_utf16_array(self.property_entries[PID_ENUM_NAMES].data))
        element_count = len(names)
        fmt = b"<%dq" % element_count
        values = unpack(fmt, self.property_entries[PID_ENUM_VALUES].data)
        elements = dict(zip(values, names))
        return elements
""", """        names = list(iter_utf16_array(self.property_entries[PID_ENUM_NAMES].data))
        values = unpack(b"<%dq" % len(names), self.property_entries[PID_ENUM_VALUES].data)
        result = {}
        for value, name in zip(values, names):
            result[value] = name
        return result
"""),
('types.py', """        for val, name in sorted(self.elements.items()):
            if val == element_value:
                return
            if name == element_name:
                return

            names.append(name)
            values.append(val)
""", """        elements = self.elements
        if element_value in elements or element_name in elements.values():
            return
        for val in sorted(elements):
            names.append(elements[val])
            values.append(val)
"""),
('types.py', """        start = 0
        result = {}

        for key, typedef_name in self.fields:
            typedef = self.root.metadict.lookup_typedef(typedef_name)

            end = start + typedef.byte_size
            result[key] = typedef.decode(data[start:end])
            start = end
""", """        result = {}
        rest = data
        for key, typedef_name in self.fields:
            typedef = self.root.metadict.lookup_typedef(typedef_name)
            n = typedef.byte_size
            result[key] = typedef.decode(rest[:n])
            rest = rest[n:]
"""),
('types.py', """        for key, value in self.elements.items():
            if isinstance(data, (AUID, UUID)):
                if data == key:
                    return key.bytes_le
            else:

                if value.lower() == data.lower():
                    return key.bytes_le
""", """        by_id = isinstance(data, (AUID, UUID))
        for key, value in self.elements.items():
            if by_id:
                found = data == key
            else:
                found = value.lower() == data.lower()
            if found:
                return key.bytes_le
"""),
('types.py', """        for p_auid in self.target_set_path:
            found = False
            for p in classdef.all_propertydefs():
                if p.auid == p_auid:
                    path.append((classdef, p))
                    classdef = p.typedef.ref_classdef
                    found = True
                    break
            if not found:
                raise AAFPropertyError("unable to resolve property path")
""", """        for p_auid in self.target_set_path:
            for p in classdef.all_propertydefs():
                if p.auid == p_auid:
                    path.append((classdef, p))
                    classdef = p.typedef.ref_classdef
                    break
            else:
                raise AAFPropertyError("unable to resolve property path")
"""),
('types.py', """        with BytesIO(data) as f:
        result = []
""" if 0 else """    with BytesIO(data) as f:
        result = []
        while True:
            d = f.read(16)
            if not d:
                break

            if len(d) == 16:
                yield AUID(bytes_le=d)
            else:
                raise Exception("auid length wrong: %d" % len(d))
""", """    pos = 0
    while pos < len(data):
        d = data[pos:pos + 16]
        if len(d) != 16:
            raise Exception("auid length wrong: %d" % len(d))
        yield AUID(bytes_le=d)
        pos += 16
"""),
('types.py', """    for i in range(0, len(data), 2):
        if data[i] == 0x00 and data[i+1] == 0x00:
            yield data[start:i].decode("utf-16le")
            start = i+2
""", """    i = 0
    while i < len(data):
        if data[i] == 0x00 and data[i+1] == 0x00:
            yield data[start:i].decode("utf-16le")
            start = i + 2
        i += 2
"""),
# attribute names used inside only
('properties.py', """            local_key = self.next_free_key
            self.index""" if 0 else """class StrongRefSetProperty(Property):""", """class StrongRefSetProperty(Property):""" ),
]
