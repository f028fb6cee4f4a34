"""an independent reader of compound files, written from the published format
([MS-CFB] with the AAF 4096 byte variant), sharing no code with aaf2"""
import struct

FREE, EOC, FATS, DIFS = 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC
MAXREG = 0xFFFFFFFA
NONE = 0xFFFFFFFF
RANGELOCK = 524286


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


class Parsed(object):
    """tree: {path: node}; node = dict(type, data, clsid, name)"""


def parse(raw, strict=True):
    r = Parsed()
    need(len(raw) >= 512 and raw[:8] == b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1', 'magic')
    (minor, major, bom, ssh, msh) = struct.unpack_from('<HHHHH', raw, 24)
    need(bom == 0xFFFE, 'byte order mark')
    need(raw[34:40] == b'\0' * 6, 'reserved bytes')
    S, mini = 1 << ssh, 1 << msh
    need(S in (512, 4096) and mini == 64, 'sector sizes %d %d' % (S, mini))
    (ndir, nfat, dir0, _tx, cutoff, minifat0, nminifat, difat0, ndifat) = struct.unpack_from('<9I', raw, 40)
    need(cutoff == 4096, 'cutoff')
    r.S = S
    need(len(raw) % S == 0, 'file length %d is not whole sectors' % len(raw))
    nsect = len(raw) // S - 1
    r.nsect = nsect

    def sector(sid):
        need(sid < nsect, 'sector %d beyond the file (%d sectors)' % (sid, nsect))
        return raw[(sid + 1) * S:(sid + 2) * S]
    owner = {}

    def own(sid, who):
        need(sid not in owner, 'sector %d owned by %s and %s' % (sid, owner.get(sid), who))
        if S == 4096:
            need(sid != RANGELOCK, 'range lock sector owned by %s' % who)
        owner[sid] = who
    per = S // 4
    # allocation table sectors: header slots, then the chain of table sectors
    fats = list(struct.unpack_from('<109I', raw, 76))
    sid, n, difs = difat0, 0, []
    while sid <= MAXREG:
        t = struct.unpack('<%dI' % per, sector(sid))
        difs.append(sid)
        fats += t[:-1]
        sid = t[-1]
        n += 1
        need(n <= nsect, 'table location chain is cyclic')
    need(n == ndifat, 'header says %d table location sectors, there are %d' % (ndifat, n))
    need(sid in (EOC, FREE) , 'table location chain ends with %x' % sid)
    live = [x for x in fats if x != FREE]
    k = len(live)
    need(all(x == FREE for x in fats[k:]) and fats[:k] == live, 'table locations have gaps')
    need(k == nfat, 'header says %d table sectors, there are %d' % (nfat, k))
    fat = []
    for x in live:
        own(x, 'fat')
        fat += struct.unpack('<%dI' % per, sector(x))
    for x in difs:
        own(x, 'difat')
    for x in live:
        need(fat[x] == FATS, 'fat sector %d marked %x' % (x, fat[x]))
    for x in difs:
        need(fat[x] == DIFS, 'difat sector %d marked %x' % (x, fat[x]))
    need(nsect <= len(fat), 'file has %d sectors, table has %d entries' % (nsect, len(fat)))
    for i in range(nsect, len(fat)):
        need(fat[i] == FREE or (S == 4096 and i == RANGELOCK), 'sector %d beyond the file is not free' % i)
    r.fat = fat

    def chain(start, who, table=fat, ownit=True):
        out, seen = [], set()
        if start == EOC or start == FREE:
            return out
        x = start
        while x != EOC:
            need(x < len(table), '%s: link to %x' % (who, x))
            need(x not in seen, '%s: cycle' % who)
            seen.add(x)
            out.append(x)
            if ownit:
                own(x, who)
            x = table[x]
        return out
    dch = chain(dir0, 'directory')
    if S == 4096:
        need(len(dch) == ndir, 'header says %d directory sectors, there are %d' % (ndir, len(dch)))
    dirs = b''.join(sector(x) for x in dch)
    mch = chain(minifat0, 'minifat')
    need(len(mch) == nminifat, 'header says %d minifat sectors, there are %d' % (nminifat, len(mch)))
    minifat = []
    for x in mch:
        minifat += struct.unpack('<%dI' % per, sector(x))

    def rec(i):
        need(i * 128 + 128 <= len(dirs), 'directory id %d out of range' % i)
        d = dirs[i * 128:i * 128 + 128]
        (nl,) = struct.unpack_from('<H', d, 64)
        left, right, child = struct.unpack_from('<3I', d, 68)
        need(nl % 2 == 0 and nl <= 64, 'name length %d' % nl)
        nm = d[:nl]
        units = struct.unpack('<%dH' % (nl // 2), nm)
        if units and units[-1] == 0:
            units = units[:-1]
        need(0 not in units, 'zero inside a name')
        name = struct.pack('<%dH' % len(units), *units).decode('utf-16le')
        need(d[66] in (0, 1, 2, 5), 'entry type %d' % d[66])
        need(d[67] in (0, 1), 'entry color %d' % d[67])
        start, = struct.unpack_from('<I', d, 116)
        size, = struct.unpack_from('<Q', d, 120)
        return dict(id=i, name=name, type=d[66], color=d[67], left=left, right=right, child=child, clsid=d[80:96],
                    flags=struct.unpack_from('<I', d, 96)[0], start=start, size=size)
    root = rec(0)
    need(root['type'] == 5, 'entry 0 is not the root')
    used = {0}
    mss = []
    if root['size'] or root['start'] not in (EOC, FREE):
        mss = chain(root['start'], 'mini stream')
        need(len(mss) == (root['size'] + S - 1) // S, 'mini stream: %d sectors for %d bytes' % (len(mss), root['size']))
    ministream = b''.join(sector(x) for x in mss)
    mown = {}
    tree = {'/': dict(type='root storage', data=None, clsid=root['clsid'], name=root['name'])}
    r.entries = [root]

    def stream(e, path):
        size = e['size']
        if size == 0:
            need(e['start'] in (EOC, FREE), '%s: empty stream with a start sector' % path)
            return b''
        if size < cutoff:
            ch = chain(e['start'], path, minifat, False)
            for m in ch:
                need(m not in mown, 'mini sector %d owned by %s and %s' % (m, mown.get(m), path))
                mown[m] = path
                need(m * 64 + 64 <= len(ministream) or m * 64 + 64 <= (root['size'] + 63) // 64 * 64, '%s: mini sector %d beyond the mini stream' % (path, m))
            need(len(ch) == (size + 63) // 64, '%s: %d mini sectors for %d bytes' % (path, len(ch), size))
            return b''.join(ministream[m * 64:m * 64 + 64] for m in ch)[:size]
        ch = chain(e['start'], path)
        need(len(ch) == (size + S - 1) // S, '%s: %d sectors for %d bytes' % (path, len(ch), size))
        return b''.join(sector(x) for x in ch)[:size]

    def key(name):
        u = name.encode('utf-16le')
        return (len(u), name.upper())

    def siblings(top, path):
        """in-order listing; also checks the search tree"""
        out, stack = [], []
        x = top
        cnt = 0
        while stack or x != NONE:
            while x != NONE:
                need(x not in used, 'directory entry %d reachable twice' % x)
                used.add(x)
                e = rec(x)
                need(e['type'] in (1, 2), '%s: sibling entry %d of type %d' % (path, x, e['type']))
                stack.append(e)
                x = e['left']
            e = stack.pop()
            out.append(e)
            x = e['right']
            cnt += 1
        for a, b in zip(out, out[1:]):
            need(key(a['name']) < key(b['name']), '%s: siblings %r and %r out of order' % (path, a['name'], b['name']))
        by = {e['id']: e for e in out}

        def blacks(x):
            # MS-CFB 2.6.4: no red entry below a red one, the top entry black
            if x == NONE:
                return 0
            e = by[x]
            for c in (e['left'], e['right']):
                need(c == NONE or e['color'] or by[c]['color'], '%s: a red entry below the red entry %r' % (path, e['name']))
            a, b = blacks(e['left']), blacks(e['right'])
            need(a == b, '%s: %d and %d black entries below %r' % (path, a, b, e['name']))
            return a + e['color']
        need(top == NONE or by[top]['color'] == 1, '%s: the top of the siblings is red' % path)
        blacks(top)
        return out
    todo = [(root, '')]
    while todo:
        e, path = todo.pop()
        for c in siblings(e['child'], path or '/'):
            p = path + '/' + c['name']
            r.entries.append(c)
            need(p not in tree, 'two entries at ' + p)
            need(c['name'] != '', 'empty name')
            if c['type'] == 1:
                tree[p] = dict(type='storage', data=None, clsid=c['clsid'], name=c['name'])
                todo.append((c, p))
            else:
                need(c['child'] == NONE, '%s: stream with children' % p)
                tree[p] = dict(type='stream', data=stream(c, p), clsid=c['clsid'], name=c['name'])
    for i in range(len(dirs) // 128):
        if i not in used:
            need(dirs[i * 128 + 66] == 0, 'directory entry %d in use but not reachable' % i)
    # every allocated sector has an owner
    for i in range(min(nsect, len(fat))):
        if S == 4096 and i == RANGELOCK:
            continue
        if fat[i] != FREE:
            need(i in owner, 'sector %d allocated but not owned (%x)' % (i, fat[i]))
        else:
            need(i not in owner, 'sector %d owned by %s but free' % (i, owner.get(i)))
    for i, v in enumerate(minifat):
        if v != FREE:
            need(i in mown, 'mini sector %d allocated but not owned' % i)
        else:
            need(i not in mown, 'mini sector %d owned but free' % i)
    r.tree = tree
    r.owner = owner
    return r
