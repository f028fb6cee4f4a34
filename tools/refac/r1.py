# behaviour-preserving edits: (file, old, new)
R = [
('cfb.py', "            bytes_can_read = min(bytes_to_read, sector_size - sector_offset)\n", "            bytes_can_read = sector_size - sector_offset\n            if bytes_can_read > bytes_to_read:\n                bytes_can_read = bytes_to_read\n"),
('cfb.py', """        byte_size = self.dir.byte_size
        if n == -1:
            bytes_to_read = max(0, byte_size - self.tell())
        else:
            bytes_to_read = max(0, min(n, byte_size - self.tell()))
""", """        byte_size = self.dir.byte_size
        bytes_to_read = self.readable(n)
"""),
('cfb.py', "    def read(self, n=-1):\n", """    def readable(self, n):
        left = self.dir.byte_size - self.pos
        if n != -1 and n < left:
            left = n
        return left if left > 0 else 0

    def read(self, n=-1):
"""),
('cfb.py', """        while len(self.fat_chain) < sector_count:
            last_sector_id = self.fat_chain[-1] if self.fat_chain else None
            sid = self.storage.fat_chain_append(last_sector_id, minifat)
            self.fat_chain.append(sid)
            if self.dir.sector_id is None:
                self.dir.sector_id = sid
""", """        for i in range(sector_count - current_sects):
            last_sector_id = None
            if len(self.fat_chain) > 0:
                last_sector_id = self.fat_chain[-1]
            sid = self.storage.fat_chain_append(last_sector_id, minifat)
            if self.dir.sector_id is None:
                self.dir.sector_id = sid
            self.fat_chain.append(sid)
"""),
('cfb.py', """            if sid in sector_cache:
                del sector_cache[sid]

            f.seek(seek_pos)
            f.write(mv[:byte_writeable])
            self.pos += byte_writeable

            mv = mv[byte_writeable:]
            data_size -= byte_writeable
""", """            f.seek(seek_pos)
            f.write(mv[:byte_writeable])

            if sid in sector_cache:
                del sector_cache[sid]

            data_size -= byte_writeable
            self.pos += byte_writeable
            mv = mv[byte_writeable:]
"""),
('cfb.py', """        sector_data = self.sector_cache.get(sid, None)
        if sector_data is not None:
            return sector_data
        else:
            pos = (sid + 1) *  self.sector_size
            self.f.seek(pos)
            sector_data = bytearray(self.sector_size)
            # NOTE: if requested sector doesn't exist or
            # is truncated will pad with zeros, expected behavior
            bytes_read = self.f.readinto(sector_data)
            self.sector_cache[sid] = sector_data
            return sector_data
""", """        cached = self.sector_cache.get(sid, None)
        if cached is not None:
            return cached
        size = self.sector_size
        data = bytearray(size)
        self.f.seek(size * sid + size)
        # NOTE: if requested sector doesn't exist or
        # is truncated will pad with zeros, expected behavior
        self.f.readinto(data)
        self.sector_cache[sid] = data
        return data
"""),
('cfb.py', """        fat =self.fat
        if minifat:
            fat = self.minifat

        for sid in self.get_fat_chain(start_sid, minifat):
            fat[sid] = FREESECT
            if minifat:
                self.minifat_freelist.insert(0, sid)
            else:
                self.fat_freelist.insert(0, sid)
""", """        if minifat:
            fat, freelist = self.minifat, self.minifat_freelist
        else:
            fat, freelist = self.fat, self.fat_freelist

        for sid in self.get_fat_chain(start_sid, minifat):
            freelist.insert(0, sid)
            fat[sid] = FREESECT
"""),
('cfb.py', """        while b != ENDOFCHAIN:
            sectors.append(b)
            b = fat[b]
            if a != ENDOFCHAIN:
                a = fat[a]
                if a != ENDOFCHAIN:
                    a = fat[a]
                    if a == b:
                        raise CompoundFileBinaryError('cyclic %s fat chain found starting at %d' % (fat_name, start_sid))

        return sectors
""", """        while True:
            if b == ENDOFCHAIN:
                break
            sectors.append(b)
            b = fat[b]
            for step in range(2):
                if a == ENDOFCHAIN:
                    break
                a = fat[a]
            if a != ENDOFCHAIN and a == b:
                raise CompoundFileBinaryError('cyclic %s fat chain found starting at %d' % (fat_name, start_sid))

        return sectors
"""),
('cfb.py', """        # add freelist
        self.dir_freelist.append(entry.dir_id)

        # remove from dir caches
        if entry.dir_id in self.dir_cache:
            del self.dir_cache[entry.dir_id]

        if entry.dir_id in self.children_cache:
            del self.children_cache[entry.dir_id]

        if entry.dir_id in self.modified:
            del self.modified[entry.dir_id]
""", """        dir_id = entry.dir_id
        # remove from dir caches
        for cache in (self.modified, self.children_cache, self.dir_cache):
            if dir_id in cache:
                del cache[dir_id]

        # add freelist
        self.dir_freelist.append(dir_id)
"""),
('cfb.py', """        split_path = path.lstrip('/').split("/")

        i = 0
        root = self.root

        while True:

            children = self.listdir_dict(root)
            match = children.get(split_path[i], None)

            if match:
                if i == len(split_path) - 1:
                    return match
                root = match
                i += 1
            else:
                return None
""", """        node = self.root
        for part in path.lstrip('/').split("/"):
            node = self.listdir_dict(node).get(part, None)
            if not node:
                return None
        return node
"""),
('cfb.py', """        t = 1
        for item in self.difat[1:]:
            for i, sid in enumerate(item[:-1]):
                yield t, i, sid
            t+=1
""", """        for t, item in enumerate(self.difat):
            if t == 0:
                continue
            for i in range(len(item) - 1):
                yield t, i, item[i]
"""),
('cfb.py', """        stream_pos = dir_id * 128
        chain_index = stream_pos // self.sector_size
        sid_offset  = stream_pos % self.sector_size
        sid = self.dir_fat_chain[chain_index]

        sector_data""", """        sid, sid_offset = self.dir_entry_sid_offset(dir_id)
        sector_data"""),
('cfb.py', """        first_dir_id = (len(self.dir_fat_chain) - 1) * self.sector_size // 128
        last_dir_id = first_dir_id + (self.sector_size // 128)
        self.dir_freelist.extend(range(first_dir_id, last_dir_id))

        return self.next_free_dir_id()
""", """        per_sector = self.sector_size // 128
        first_dir_id = (len(self.dir_fat_chain) - 1) * per_sector
        self.dir_freelist.extend(range(first_dir_id + 1, first_dir_id + per_sector))

        return first_dir_id
"""),
('cfb.py', """        if start_sid is None:
            fat[sect] = ENDOFCHAIN
        else:
            fat_chain = self.get_fat_chain(start_sid, minifat)
            assert fat_chain
            fat[fat_chain[-1]] = sect
            fat[sect] = ENDOFCHAIN

        return sect
""", """        fat[sect] = FREESECT
        if start_sid is not None:
            fat_chain = self.get_fat_chain(start_sid, minifat)
            assert fat_chain
            fat[fat_chain[-1]] = sect
        fat[sect] = ENDOFCHAIN
        return sect
"""),
('cache.py', """        node.prev.next = node.next
        node.next.prev = node.prev

        # hook up new prev and next
        node.prev = self.head.prev
        node.next = self.head.prev.next
""", """        before, after = node.prev, node.next
        before.next = after
        after.prev = before

        # hook up new prev and next
        last = self.head.prev
        node.prev = last
        node.next = last.next
"""),
]
