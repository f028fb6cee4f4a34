"""random histories of one container against a model (shared by P01 - P04)"""
import random
from specs.common import Mem
from specs import cfbparse

SIZES = [0, 1, 2, 63, 64, 65, 127, 128, 129, 500, 511, 512, 513, 1000, 1023, 1024, 2048, 3000, 4032, 4033, 4090, 4094, 4095, 4096,
         4097, 4100, 4160, 4608, 5000, 8191, 8192, 8193, 12288, 16384, 20000]
FREE, EOC, FATS, DIFS = 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC


class Wrong(Exception):
    pass


def need(c, msg):
    if not c:
        raise Wrong(msg)


def blob(seed, n):
    r = random.Random(seed)
    return r.randbytes(n)


class Node(object):
    def __init__(self, kind, clsid=None):
        self.kind = kind
        self.clsid = clsid
        self.data = bytearray()
        self.known = bytearray()       # 1 where the contents are specified


class Box(object):
    def __init__(self, ss, tables=False):
        from aaf2 import cfb
        self.cfb = cfb
        self.ss = ss
        self.mem = Mem(mode='wb+')
        self.s = cfb.CompoundFileBinary(self.mem, 'wb+', ss)
        self.tree = {'/': Node('root storage')}
        self.h = {}                    # path -> open Stream
        self.tables = tables

    # ------------------------------------------------------------ helpers
    def streams(self): return sorted(p for p, n in self.tree.items() if n.kind == 'stream')
    def storages(self): return sorted(p for p, n in self.tree.items() if n.kind != 'stream')
    def kids(self, p):
        pre = p.rstrip('/') + '/'
        return sorted(x for x in self.tree if x != '/' and x.startswith(pre) and '/' not in x[len(pre):])

    def below(self, p):
        pre = p.rstrip('/') + '/'
        return [x for x in self.tree if x.startswith(pre) and x != '/']

    def parent(self, p): return p.rsplit('/', 1)[0] or '/'

    def pick(self, lst, i):
        return lst[i % len(lst)] if lst else None

    def forget(self, p):
        for x in list(self.h):
            if x == p or x.startswith(p.rstrip('/') + '/'):
                del self.h[x]

    def handle(self, p, mode='rw'):
        if p not in self.h:
            self.h[p] = self.s.open(p, mode)
        return self.h[p]

    # ------------------------------------------------------------ stream operations
    def do_open(self, p, mode):
        n = self.tree.get(p)
        self.h.pop(p, None)
        par = self.tree.get(self.parent(p))
        bad = (n is None and (mode == 'r' or par is None or par.kind == 'stream')) or (n is not None and n.kind != 'stream')
        try:
            st = self.s.open(p, mode)
        except Exception as e:
            need(bad, 'open(%r, %r) raised %r' % (p, mode, e))
            need(isinstance(e, (ValueError, TypeError)), 'open(%r, %r) raised %r' % (p, mode, e))
            return
        need(not bad, 'open(%r, %r) was accepted' % (p, mode))
        if n is None:
            self.tree[p] = Node('stream')
        elif mode == 'w':
            n.data, n.known = bytearray(), bytearray()
            n.clsid = None
        need(st.tell() == 0, 'a new stream object is not at 0')
        self.h[p] = st

    def do_write(self, p, n, seed):
        st, nd = self.handle(p), self.tree[p]
        pos = st.tell()
        data = blob(seed, n)
        st.write(data if seed % 3 else bytearray(data))
        if pos + n > len(nd.data):
            add = pos + n - len(nd.data)
            nd.data.extend(bytes(add))
            nd.known.extend(bytes(add))
        nd.data[pos:pos + n] = data
        nd.known[pos:pos + n] = b'\1' * n
        need(st.tell() == pos + n, 'write(%d) at %d left the cursor at %d' % (n, pos, st.tell()))

    def compare(self, got, pos, nd, what):
        want, known = nd.data[pos:pos + len(got)], nd.known[pos:pos + len(got)]
        if bytes(got) != bytes(want):
            for k in range(len(got)):
                if known[k] and got[k] != want[k]:
                    raise Wrong('%s: byte %d is %d, %d was written' % (what, pos + k, got[k], want[k]))

    def do_read(self, p, n):
        st, nd = self.handle(p), self.tree[p]
        pos = st.tell()
        got = st.read() if n is None else st.read(n)
        left = max(0, len(nd.data) - pos)
        k = left if n is None else min(n, left)
        need(len(got) == k, '%s: read(%s) at %d of %d gave %d bytes' % (p, n, pos, len(nd.data), len(got)))
        self.compare(got, pos, nd, p)
        need(st.tell() == pos + k, 'read left the cursor at %d instead of %d' % (st.tell(), pos + k))

    def do_seek(self, p, off, wh):
        st, nd = self.handle(p), self.tree[p]
        base = {0: 0, 1: st.tell(), 2: len(nd.data)}[wh]
        pos = base + off
        before = st.tell()
        try:
            r = st.seek(off, wh)
        except ValueError:
            need(pos < 0, 'seek(%d, %d) refused' % (off, wh))
            need(st.tell() == before, 'a refused seek moved the cursor')
            return
        need(pos >= 0, 'seek to %d accepted' % pos)
        need(r == pos and st.tell() == pos, 'seek(%d, %d) went to %d instead of %d' % (off, wh, st.tell(), pos))
        if pos > len(nd.data):
            add = pos - len(nd.data)
            nd.data.extend(bytes(add))
            nd.known.extend(b'\1' * add)

    def do_trunc(self, p, size):
        st, nd = self.handle(p), self.tree[p]
        pos = st.tell()
        if size is None:
            size = pos
            st.truncate()
        else:
            st.truncate(size)
        if size > len(nd.data):
            add = size - len(nd.data)
            nd.data.extend(bytes(add))
            nd.known.extend(bytes(add))
        else:
            del nd.data[size:]
            del nd.known[size:]
        need(st.tell() == min(pos, size), 'truncate(%d) left the cursor at %d, it was %d' % (size, st.tell(), pos))

    # ------------------------------------------------------------ tree operations
    def refused(self, f, bad, what):
        try:
            r = f()
        except Exception as e:
            need(bad, '%s raised %s: %s' % (what, type(e).__name__, e))
            return False, None
        need(not bad, '%s was accepted' % what)
        return True, r

    def do_makedir(self, p, clsid=None):
        from aaf2.auid import AUID
        par = self.tree.get(self.parent(p))
        bad = p in self.tree or par is None or par.kind == 'stream'
        ok, e = self.refused(lambda: self.s.makedir(p, AUID(bytes_le=bytearray.fromhex(clsid)) if clsid else None), bad, 'makedir %r' % p)
        if ok:
            self.tree[p] = Node('storage', clsid)
            need(e.path() == p and e.isdir(), 'makedir %r gave %r' % (p, e.path()))

    def do_makedirs(self, p):
        parts = p.strip('/').split('/')
        bad, x, new = False, '', []
        for q in parts:
            x += '/' + q
            n = self.tree.get(x)
            if n is None:
                if not bad:
                    new.append(x)
            elif n.kind == 'stream' and x != p:
                bad = True
                break
        ok, e = self.refused(lambda: self.s.makedirs(p), bad, 'makedirs %r' % p)
        if not ok:
            return
        for x in new:
            self.tree[x] = Node('storage')

    def do_touch(self, p):
        par = self.tree.get(self.parent(p))
        if par is None or par.kind == 'stream':
            return
        e = self.s.find(self.parent(p)).touch(p.rsplit('/', 1)[1])
        if p not in self.tree:
            self.tree[p] = Node('stream')
        need(e.path() == p, 'touch %r gave %r' % (p, e.path()))

    def do_remove(self, p):
        n = self.tree.get(p)
        bad = n is None or p == '/' or (n.kind == 'storage' and bool(self.kids(p)))
        ok, e = self.refused(lambda: self.s.remove(p), bad, 'remove %r' % p)
        if ok:
            self.forget(p)
            del self.tree[p]

    def do_rmtree(self, p):
        n = self.tree.get(p)
        if n is None or p == '/':
            return
        if n.kind == 'stream':
            return
        self.s.rmtree(p)
        for x in self.below(p):
            del self.tree[x]
        del self.tree[p]
        self.forget(p)

    def do_move(self, a, b, slash=False):
        n = self.tree.get(a)
        dst = b
        if slash:
            dst = b.rstrip('/') + '/' + a.rsplit('/', 1)[1]
            if b not in self.tree:
                return
        par = self.tree.get(self.parent(dst))
        bad = n is None or a == '/' or dst in self.tree or par is None or par.kind == 'stream' or (dst + '/').startswith(a + '/')
        ok, e = self.refused(lambda: self.s.move(a, b.rstrip('/') + '/' if slash else b), bad, 'move %r to %r' % (a, b))
        if not ok:
            return
        moved = {}
        for x in [a] + self.below(a):
            moved[dst + x[len(a):]] = self.tree.pop(x)
        self.tree.update(moved)
        hs = {}
        for x in list(self.h):
            if x == a or x.startswith(a + '/'):
                hs[dst + x[len(a):]] = self.h.pop(x)
        self.h.update(hs)
        need(e.path() == dst, 'move gave an entry at %r instead of %r' % (e.path(), dst))

    def do_case(self, a, d):
        """there and back under a name which differs in case only"""
        name = a.rsplit('/', 1)[1]
        b = d + '/' + name.swapcase()
        if a not in self.tree or len(name.upper()) != len(name) or any(x.upper() == b.upper() and x != a for x in self.tree):
            return
        self.do_move(a, b)
        if b in self.tree and b != a:
            self.do_move(b, a)

    def do_clsid(self, p, clsid):
        from aaf2.auid import AUID
        if p in self.tree and p != '/':
            self.s.find(p).class_id = AUID(bytes_le=bytearray.fromhex(clsid))
            self.tree[p].clsid = clsid

    def do_evict(self):
        """drop every cached entry that nothing refers to, so that it is read again from disk"""
        self.s.write_modified_dir_entries()
        cap = getattr(self.s.children_cache, 'size', None)
        for k in list(getattr(self.s.children_cache, 'data', {})):
            del self.s.children_cache[k]
        import gc
        gc.collect()

    def do_reopen(self):
        self.s.close()
        self.h = {}
        raw = self.mem.getvalue()
        self.parsed(raw)
        self.mem = Mem(raw, 'rb+')
        self.s = self.cfb.CompoundFileBinary(self.mem, 'rb+')

    # ------------------------------------------------------------ checks
    def parsed(self, raw):
        """hook: called with the bytes of the closed file"""

    def check_streams(self):
        for p in self.streams():
            nd = self.tree[p]
            st = self.s.open(p, 'r') if p not in self.h else self.h[p]
            pos = st.tell()
            st.pos = 0
            got = st.read()
            st.pos = pos
            need(len(got) == len(nd.data), '%s has %d bytes instead of %d' % (p, len(got), len(nd.data)))
            self.compare(got, 0, nd, p)

    def check_names(self):
        s = self.s
        got = {}
        for root, storages, streams in s.walk():
            for e in storages + streams:
                q = e.path()
                need(q not in got, 'walk visits %r twice' % q)
                got[q] = e
                need(self.parent(q) == root.path(), 'walk lists %r below %r' % (q, root.path()))
                need(e.isdir() == (e in storages) and e.isfile() == (e in streams), 'walk sorts %r wrongly' % q)
        bottom = []
        for root, storages, streams in s.walk(topdown=False):
            for e in storages + streams:
                bottom.append(e.path())
        need(sorted(bottom) == sorted(got), 'walking bottom up visits %s' % sorted(set(bottom) ^ set(got))[:4])
        want = set(self.tree) - {'/'}
        need(set(got) == want, 'walk finds %s too many, %s missing' % (sorted(set(got) - want)[:4], sorted(want - set(got))[:4]))
        for p, n in self.tree.items():
            if p == '/':
                continue
            need(s.exists(p), '%r does not exist' % p)
            e = s.find(p)
            need(e.path() == p and e.name == p.rsplit('/', 1)[1], 'find(%r) gave %r' % (p, e.path()))
            need(e.type == n.kind, '%r is a %s' % (p, e.type))
            if n.kind == 'stream':
                need(e.byte_size == len(n.data), '%r has size %d instead of %d' % (p, e.byte_size, len(n.data)))
            c = e.class_id
            need((c.bytes_le.hex() if c is not None else None) == n.clsid, '%r has class id %s instead of %s' % (p, c, n.clsid))
            need(not s.exists(p + 'x') or p + 'x' in self.tree, '%r exists' % (p + 'x'))
        for p in self.storages():
            l = [e.name for e in s.listdir(p)]
            need(sorted(l) == sorted(x.rsplit('/', 1)[1] for x in self.kids(p)), 'listdir(%r) gave %s' % (p, sorted(l)[:6]))

    def check_order(self):
        """siblings form a search tree in the format order"""
        s = self.s
        seen = set()

        def key(name): return (len(name.encode('utf-16le')), name.upper())

        def visit(e, lo, hi, p, depth):
            if e is None:
                return 0
            need(e.dir_id not in seen, 'entry %r reachable twice' % e.name)
            seen.add(e.dir_id)
            k = key(e.name)
            need((lo is None or lo < k) and (hi is None or k < hi), 'below %r: %r is out of order' % (p, e.name))
            return 1 + visit(e.left(), lo, k, p, depth + 1) + visit(e.right(), k, hi, p, depth + 1)
        for p in self.storages():
            e = s.find(p)
            n = visit(e.child(), None, None, p, 0)
            from specs.P04 import colors_bad
            bad = colors_bad(e.child())
            need(not bad, 'below %r: %s' % (p, bad))
            need(n == len(self.kids(p)), '%d siblings are linked below %r instead of %d' % (n, p, len(self.kids(p))))

    def check_tables(self):
        """every allocated sector has exactly one owner"""
        s = self.s
        fat, mini = list(s.fat), list(s.minifat)
        own, mown = {}, {}

        def chain(start, table, who, owners):
            out, x = [], start
            while x is not None and x not in (EOC, FREE):
                need(x < len(table), '%s: link to %x' % (who, x))
                need(x not in owners, 'sector %d belongs to %s and %s' % (x, owners.get(x), who))
                owners[x] = who
                out.append(x)
                x = table[x]
            need(x is None or x == EOC or not out, '%s: chain ends with a free mark' % who)
            return out
        d = chain(s.dir_sector_start, fat, 'directory', own)
        need(d == list(s.dir_fat_chain), 'directory chain differs from the table')
        m = chain(s.minifat_sector_start, fat, 'minifat', own)
        need(m == list(s.minifat_chain), 'minifat chain differs from the table')
        ms = chain(s.root.sector_id, fat, 'mini stream', own)
        need(ms == list(s.mini_stream_chain), 'mini stream chain differs from the table')
        tabs = [x for t in [s.difat[0]] + [t[:-1] for t in s.difat[1:]] for x in t if x != FREE]
        for x in tabs:
            need(x not in own, 'fat sector %d belongs to %s' % (x, own.get(x)))
            own[x] = 'fat'
            need(fat[x] == FATS, 'fat sector %d marked %x' % (x, fat[x]))
        x, n = s.difat_sector_start, 0
        for t in s.difat[1:]:
            need(x not in own and x < len(fat), 'difat sector %x belongs to %s' % (x, own.get(x)))
            own[x] = 'difat'
            need(fat[x] == DIFS, 'difat sector %d marked %x' % (x, fat[x]))
            x = t[-1]
            n += 1
        need(n == s.difat_sector_count, 'difat count')
        need(len(tabs) * self.ss // 4 == len(fat), '%d table sectors for %d entries' % (len(tabs), len(fat)))
        need(len(m) * self.ss // 4 == len(mini), '%d minifat sectors for %d entries' % (len(m), len(mini)))
        for p in self.streams():
            e = s.find(p)
            size = len(self.tree[p].data)
            small = size < 4096
            unit = 64 if small else self.ss
            ch = chain(e.sector_id, mini if small else fat, p, mown if small else own)
            need(len(ch) == (size + unit - 1) // unit, '%s: %d sectors for %d bytes' % (p, len(ch), size))
            if p in self.h:
                need(list(self.h[p].fat_chain) == ch, '%s: open stream uses sectors %s, the table says %s' % (p, list(self.h[p].fat_chain)[:5], ch[:5]))
            if small:
                for x in ch:
                    need(x * 64 // self.ss < len(ms), '%s: mini sector %d is beyond the mini stream' % (p, x))
        lock = 524286 if self.ss == 4096 else None
        for i, v in enumerate(fat):
            if i == lock:
                need(v != FREE and i not in own, 'range lock sector in use')
                continue
            need((v != FREE) == (i in own), 'sector %d: table %x, owner %s' % (i, v, own.get(i)))
        for i, v in enumerate(mini):
            need((v != FREE) == (i in mown), 'mini sector %d: table %x, owner %s' % (i, v, mown.get(i)))
        need(len(set(s.fat_freelist)) == len(s.fat_freelist), 'a sector is twice in the free list')
        for i in s.fat_freelist:
            need(fat[i] == FREE or i == lock, 'free list holds sector %d (%x)' % (i, fat[i]))
        need(len(set(s.minifat_freelist)) == len(s.minifat_freelist), 'a mini sector is twice in the free list')
        for i in s.minifat_freelist:
            need(mini[i] == FREE, 'free list holds mini sector %d' % i)

    def check_file(self, raw):
        """the closed file, read by the independent reader"""
        try:
            r = cfbparse.parse(raw)
        except cfbparse.Bad as e:
            raise Wrong('not a well formed compound file: %s' % e)
        want = set(self.tree)
        need(set(r.tree) == want, 'the independent reader finds %s too many, %s missing' %
             (sorted(set(r.tree) - want)[:4], sorted(want - set(r.tree))[:4]))
        for p, n in self.tree.items():
            g = r.tree[p]
            need(g['type'] == n.kind, '%s is a %s on disk' % (p, g['type']))
            if p != '/':
                need(g['clsid'].hex() == (n.clsid or '00' * 16), '%s has class id %s on disk' % (p, g['clsid'].hex()))
            if n.kind == 'stream':
                need(len(g['data']) == len(n.data), '%s has %d bytes on disk instead of %d' % (p, len(g['data']), len(n.data)))
                self.compare(g['data'], 0, n, p + ' on disk')
        return r


# ---------------------------------------------------------------- generation
def size(rng):
    return rng.choice(SIZES) if rng.random() < .8 else rng.randrange(0, 9000)


def names(rng, n):
    """legal names, distinct when case is ignored"""
    out, seen = [], set()
    alpha = ['abcdefghij', 'ABCxyz019_-', u'\u00e9\u00df\u03a9\u0416\u4e2d']
    while len(out) < n:
        k = rng.choice([1, 1, 1, 2, 2, 3, 5, 8, 20, 30, 31])
        a = alpha[rng.choice([0, 0, 0, 1, 1, 2])]
        nm = ''.join(rng.choice(a) for _ in range(k))
        if nm.upper() not in seen and nm.lower() not in seen and nm != 'Root Entry' and len(nm.upper()) == len(nm):
            seen.add(nm.upper())
            seen.add(nm.lower())
            out.append(nm)
    return out


def stream_ops(rng, paths, count):
    """operations on open streams only"""
    ops = []
    hot = rng.sample(paths, min(len(paths), rng.choice([1, 2, 3])))
    for _ in range(count):
        p = rng.choice(hot) if rng.random() < .8 else rng.choice(paths)
        x = rng.random()
        if x < .34:
            ops.append(['write', p, size(rng), rng.randrange(1 << 20)])
        elif x < .52:
            ops.append(['read', p, None if rng.random() < .4 else size(rng)])
        elif x < .78:
            wh = rng.choice([0, 0, 0, 1, 2])
            off = size(rng) if wh == 0 else rng.choice([0, 1, -1, 64, -64, -63, 100, -100, 512, -512, 4096, -4096, 5000, -5000])
            ops.append(['seek', p, off, wh])
        elif x < .9:
            ops.append(['trunc', p, None if rng.random() < .25 else size(rng)])
        elif x < .93:
            ops.append(['open', p, 'w'])
        elif x < .96:
            ops.append(['open', p, 'rw'])
        elif x < .98:
            ops.append(['remove', p])
        else:
            ops.append(['reopen'])
    return ops


def run_ops(box, ops, each=None):
    """apply a list of operations; each(box, op) after every one"""
    for op in ops:
        k = op[0]
        if k in ('write', 'read', 'seek', 'trunc'):
            p = op[1]
            n = box.tree.get(p)
            if n is None or n.kind != 'stream':
                par = box.tree.get(box.parent(p))
                if n is not None or par is None or par.kind == 'stream':
                    continue
                box.do_open(p, 'w')
        getattr(box, 'do_' + k)(*op[1:])
        if each:
            each(box, op)
