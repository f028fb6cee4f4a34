R = [
# core
('core.py', """            for i in range(entry_count):
                index = i * 3
                pid = props[index + 0]
                format = props[index + 1]
                byte_size = props[index + 2]

                data = f.read(byte_size)
""", """            for pos in range(0, 3 * entry_count, 3):
                pid, format, byte_size = props[pos], props[pos + 1], props[pos + 2]
                data = f.read(byte_size)
"""),
('core.py', """        result = self.get(key, default=sentinel, allkeys=False)
        if result is sentinel:
            return False
        return True
""", """        return self.get(key, default=sentinel, allkeys=False) is not sentinel
"""),
('core.py', """            if item.dir:
                # remove child from object manager
                self.root.manager.pop(item.dir.path(), None)
""", """            entry = item.dir
            if entry is not None:
                # remove child from object manager
                manager = self.root.manager
                manager.pop(entry.path(), None)
"""),
('core.py', """            if isinstance(p, properties.StrongRefProperty):
                obj = p.value
                if obj:
                    refs.append(obj)

            elif isinstance(p, properties.StrongRefVectorProperty):
                for v in p.value:
                    refs.append(v)

            elif isinstance(p, properties.StrongRefSetProperty):

                for obj in p.value:
                    refs.append(obj)
""", """            if isinstance(p, properties.StrongRefProperty):
                owned = p.value
                if owned:
                    refs.append(owned)

            elif isinstance(p, (properties.StrongRefVectorProperty, properties.StrongRefSetProperty)):
                refs.extend(p.value)
"""),
('core.py', """        classdef_cache = classdef_cache or set()
        root = root or self.root
        new_obj.root = root
""", """        if not classdef_cache:
            classdef_cache = set()
        if root is None:
            root = self.root
        new_obj.root = root
"""),
# file
('file.py', """        cached_obj = self.path_cache.pop(path, default)
        modified_obj = self.modified.pop(path, default)
        if path in self.lru_cache:
            del self.lru_cache[path]

        return modified_obj or cached_obj
""", """        if path in self.lru_cache:
            del self.lru_cache[path]
        modified_obj = self.modified.pop(path, default)
        cached_obj = self.path_cache.pop(path, default)
        return modified_obj or cached_obj
"""),
('file.py', """        written = []
        for path, obj in self.modified.items():
            try:
                obj.write_properties()
                written.append(path)
            except:
                print("failed to write: %s %s" %  (str(path), str(obj)))
                raise

        # no longer need to be in modified
        for path in written:
            self.modified.pop(path)
""", """        for path, obj in list(self.modified.items()):
            try:
                obj.write_properties()
            except:
                print("failed to write: %s %s" %  (str(path), str(obj)))
                raise

        # no longer need to be in modified
        self.modified.clear()
"""),
('file.py', """        pid_count = 0
        for path in self.weakref_table:
            pid_count += len(path)
            pid_count += 1 # null byte
""", """        # each path ends with a null pid
        pid_count = sum(len(path) + 1 for path in self.weakref_table)
"""),
('file.py', """        for pid in path[:-1]:
            p = root.property_entries[pid]
            root = p.value

        p = root.property_entries.get(path[-1], None)
""", """        last = path[-1]
        for i in range(len(path) - 1):
            root = root.property_entries[path[i]].value

        p = root.property_entries.get(last, None)
"""),
('file.py', """        if pid_path in self.weakref_table:
            index = self.weakref_table.index(pid_path)
        else:
            index = len(self.weakref_table)
            self.weakref_table.append(pid_path)

        return index
""", """        for index, known in enumerate(self.weakref_table):
            if known == pid_path:
                return index
        self.weakref_table.append(pid_path)
        return len(self.weakref_table) - 1
"""),
('file.py', """                pid = read_u16le(f)
                if pid != 0:
                    path.append(pid)
                else:
                    self.weakref_table.append(path)
                    path = []
""", """                pid = read_u16le(f)
                if pid == 0:
                    self.weakref_table.append(path)
                    path = []
                    continue
                path.append(pid)
"""),
('file.py', """        if isinstance(path, DirEntry):
            dir_entry = path
            path = dir_entry.path()
            obj = self.path_cache.get(path, None)
            if obj is not None:
                return obj
        else:
            obj = self.path_cache.get(path, None)
            if obj is not None:
                return obj

            dir_entry = self.root.cfb.find(path)
""", """        dir_entry = None
        if isinstance(path, DirEntry):
            dir_entry = path
            path = dir_entry.path()

        obj = self.path_cache.get(path, None)
        if obj is not None:
            return obj

        if dir_entry is None:
            dir_entry = self.root.cfb.find(path)
"""),
('file.py', """        # obj = classobj(None, *args, **kwargs)
        obj = classobj.__new__(classobj)
        obj.root = self.root
        obj.__init__(*args, **kwargs)
""", """        obj = self.make(classobj, args, kwargs)
"""),
('file.py', """    def from_name(self, name, *args, **kwargs):
""", """    def make(self, classobj, args, kwargs):
        obj = classobj.__new__(classobj)
        obj.root = self.root
        obj.__init__(*args, **kwargs)
        return obj

    def from_name(self, name, *args, **kwargs):
"""),
# metadict
('metadict.py', """        for classdef in self.relatives():
            if not classdef:
                break
            p = classdef.propertydef_by_pid.get(pid, sentinel)

            if p is sentinel:
                 continue
            return p
""", """        for classdef in self.relatives():
            if not classdef:
                break
            if pid in classdef.propertydef_by_pid:
                return classdef.propertydef_by_pid[pid]
"""),
('metadict.py', """        if self.auid == other.auid:
            return True

        for classdef in other.relatives():
            if classdef.auid == self.auid:
                return True
        return False
""", """        own = self.auid
        return own == other.auid or any(classdef.auid == own for classdef in other.relatives())
"""),
('metadict.py', """        if name in self.classdefs_by_name:
            c = self.classdefs_by_name[name]
        elif class_auid in self.classdefs_by_auid:
            c = self.classdefs_by_auid[class_auid]
        else:
            c = ClassDef(self.root, name, class_auid, parent_auid, concrete)
""", """        c = self.classdefs_by_name.get(name)
        if c is None:
            c = self.classdefs_by_auid.get(class_auid)
        if c is None:
            c = ClassDef(self.root, name, class_auid, parent_auid, concrete)
"""),
# components / interpolation
('components.py', """        length = 0
        for index, component in enumerate(self.components):

            if isinstance(component, Transition):
                length -= component.length
                yield (index, length, component)
            else:
                yield (index, length, component)
                length += component.length
""", """        position = 0
        for index, component in enumerate(self.components):
            size = component.length
            overlap = isinstance(component, Transition)
            if overlap:
                position -= size
            yield (index, position, component)
            if not overlap:
                position += size
"""),
('components.py', """        mod_id = self.mob_id
        if mod_id is None or mod_id.int == 0:
            return None
        return self.root.content.mobs.get(mod_id, None)
""", """        target = self.mob_id
        if target is not None and target.int != 0:
            return self.root.content.mobs.get(target, None)
"""),
('interpolation.py', "    return a + (b - a) * t\n", "    d = b - a\n    return d * t + a\n"),
# video / audio
('video.py', """    while True:
        dnx_header = f.read(640)
        if not dnx_header or len(dnx_header) != 640:
            break
        cid,""", """    while True:
        dnx_header = f.read(640)
        if len(dnx_header) < 640:
            return
        cid,"""),
('video.py', """        with BytesIO() as data:
            data.write(dnx_header)
            data.write(f.read(frame_size - 640))
            yield data.getvalue()
""", """        yield dnx_header + f.read(frame_size - 640)
"""),
('video.py', """    if bitdepth == 1:
        bitdepth = 8
    elif bitdepth == 2:
        bitdepth = 10
    elif bitdepth == 3:
        bitdepth = 12
    else:
""", """    if 1 <= bitdepth <= 3:
        bitdepth = 6 + 2 * bitdepth
    else:
"""),
('video.py', """    size = (size + 2048) // 4096 * 4096;

    return max(size, 8192);
""", """    size = ((size + 2048) // 4096) * 4096
    if size < 8192:
        size = 8192
    return size
"""),
('video.py', """    data_offset = prefix >> 16
    if ((prefix & 0xFFFF0000FFFF) == 0x0300 and
         data_offset >= 0x0280 and data_offset <= 0x2170 and
         (data_offset & 3) == 0):
        return True

    return False
""", """    data_offset = prefix >> 16
    if (prefix & 0xFFFF0000FFFF) != 0x0300:
        return False
    return 0x0280 <= data_offset <= 0x2170 and data_offset % 4 == 0
"""),
]
