"""P04, deductive: DirEntry.insert on search trees of any size.

The heap is unbounded: entries below the part of the tree which the code looks
at are subtree variables, resolved (to nothing or to an entry) when the code
reads them.  Entries carry ghost keys, ghost sizes and symbolic colors.  One
iteration of the loop of insert() is verified from every state that satisfies
the invariant INV below, so the result holds for trees of any depth.

INV, with a1 = the real parent of `node`, a2 its parent, ..:
  the tree has no red entry below a red one; `node` is the slot where the new
  entry belongs as far as the entries above decide; the in-order sequence is the original one
  phase 0   node is the root, nothing above but the false root
  phase N   parent = a1, grand_parent = a2 (None when a1 is the root), next one a3, and next one a4
            (both the false root near the top); last, direction: the sides of a1 and node;
            a1 has not two red children; if a1 is red: its sibling is not red and a2 is an entry, or
            node is an entry, not red, without red children
  phase D   (after a double rotation) a1 is black and has two red children, node is one; the new entry
            belongs below the inner child of node, which is an entry, not red, without red children"""
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec, Val


class World(object):
    def __init__(self):
        self.nodes = []
        self.entry = None

    def new(self, **k):
        n = N(self, **k)
        self.nodes.append(n)
        return n


class N(object):
    """an entry, or a subtree variable (resolved is False)"""

    def __init__(self, w, key=None, red=None, size=None):
        self.w = w
        self.key = fresh_int('key') if key is None else key
        self.color0 = fresh_bool('red') if red is None else red
        self.color_ = self.color0
        self.size = fresh_int('size', 0) if size is None else size
        self.known = None            # None: not resolved; False: an entry; True: nothing
        self.kids0 = [None, None]    # initial children (subtree variables), made on demand
        self.kids_ = [None, None]
        self.made = False
        self.lo, self.hi = None, None
        self.leaf = False

    # ---- ghost
    def make(self):
        """the children of an entry exist as subtree variables"""
        if self.made or self.leaf:
            return
        self.made = True
        for side in (0, 1):
            if self.kids0[side] is None:
                c = self.w.new()
                self.adopt(side, c)
        a, b = self.kids0
        assume(self.size == 1 + a.size + b.size)

    def adopt(self, side, c):
        """c is the initial child at side"""
        self.kids0[side] = self.kids_[side] = c
        assume(not_(and_(self.color0, c.color0)))
        c.lo, c.hi = (self.lo, self) if side == 0 else (self, self.hi)
        if c.lo is not None:
            assume(c.lo.key < c.key)
        if c.hi is not None:
            assume(c.key < c.hi.key)
        if self.w.entry is not None:
            assume(c.key != self.w.entry.key)

    def resolve(self):
        if self.known is None:
            self.known = not ctx().choose(2)
            if self.known:
                assume(self.size == 0)
            else:
                assume(self.size >= 1)
        return None if self.known else self

    def here(self):
        """an entry for sure"""
        assume(self.known is not True)
        self.known = False
        assume(self.size >= 1)
        return self

    # ---- what the code uses
    def __getitem__(self, side):
        self.make()
        c = self.kids_[side]
        return c.resolve() if c is not None else None

    def __setitem__(self, side, v):
        self.make()
        if v is None:
            self.kids_[side] = None
        else:
            self.kids_[side] = v

    @property
    def red(self): return self.color_

    @red.setter
    def red(self, v): self.color_ = v

    def __lt__(self, o): return self.key < o.key
    def __gt__(self, o): return o.key < self.key

    @property
    def dir_id(self): return self

    @property
    def right_id(self):
        c = self.kids_[1]
        return None if c is None else c.resolve()

    @right_id.setter
    def right_id(self, v):
        self.leaf = True
        self.kids_[1] = v


def inorder(n, init, slot=None, entry=None):
    """tokens in order; init: the initial links, with the entry in the empty slot (node, side)"""
    if n is None or n.known is True:
        return []
    if n.known is None or not n.made:
        return [n]
    k = n.kids0 if init else n.kids_
    out = []
    for side in (0, 1):
        if init and slot and slot[0] is n and slot[1] == side:
            out.append(entry)
        else:
            out += inorder(k[side], init, slot, entry)
        if side == 0:
            out.append(n)
    return out


def links(n, out):
    if n is None or n.known is not False or not n.made:
        return out
    for c in n.kids_:
        if c is not None and c.known is not True:
            out.append((n, c))
            links(c, out)
    return out


def nored(c):
    """the child slot c holds no red entry"""
    if c is None or c.known is True:
        return True
    if c.known is False:
        return not_(c.color_)
    return or_(c.size == 0, not_(c.color_))


class Descend(LoopSpec):
    name = 'descend'
    fn = 'DirEntry.insert'

    def __init__(self, w, head, root, entry, limit, want, sides=None):
        self.want, self.want_sides = want, sides
        self.w, self.head, self.root, self.entry, self.limit = w, head, root, entry, limit
        self.top = None

    def match(self, L, env): return 'grand_grand_grand_parent' in env and 'count' in env

    # ------------------------------------------------------------ an arbitrary state
    def fresh(self, L):
        w, e, head = self.w, self.entry, self.head
        ph = self.want
        self.phase = ph
        ctx().cover('phase ' + ph)
        count = fresh_int('count', 0)
        self.linked = ph not in ('N3', 'D3')
        if ph == '0':
            node = self.top = self.root
            head.kids_[1] = node
            assume(count + node.size < self.limit)
            return dict(node=node, parent=None, grand_parent=None, grand_grand_parent=head, grand_grand_grand_parent=None,
                        direction=0, last=0, count=count)
        depth = {'N1': 1, 'N2': 2, 'N3': 4, 'D2': 1, 'D3h': 2, 'D3': 3}[ph]
        # a[1] .. a[depth]: the entries above node; sides[k]: the side of a[k] (a[0]: node) below a[k+1]
        a, sides = {}, {}
        self.top = a[depth] = w.new().here()
        assume(self.top.key != e.key)
        for k in range(depth - 1, -1, -1):
            sides[k] = (self.want_sides >> k) & 1 if k < 2 and self.want_sides is not None else ctx().choose(2)
            p = a[k + 1]
            p.make()
            a[k] = p.kids0[sides[k]]
            if k > 0 or ph[0] == 'D':
                a[k].here()
            assume(iff(e.key < p.key, sides[k] == 0))
        # the false root holds the tree; far above the part looked at when not linked
        head.kids_[1] = self.top if self.linked else w.new().here()
        node = a[0].resolve()
        a1 = a[1]
        d = dict(node=node, parent=a1, direction=sides[0], count=count)
        if ph[0] == 'N':
            if ph == 'N1':
                d.update(grand_parent=None, grand_grand_parent=head, grand_grand_grand_parent=head, last=0)
            elif ph == 'N2':
                d.update(grand_parent=a[2], grand_grand_parent=head, grand_grand_grand_parent=head, last=sides[1])
            else:
                d.update(grand_parent=a[2], grand_grand_parent=a[3], grand_grand_grand_parent=a[4], last=sides[1])
            x, y = a1.kids0
            assume(or_(self.nored0(x), self.nored0(y)))
            settled = False
            if node is not None:
                node.make()
                settled = and_(not_(node.color0), self.nored0(node.kids0[0]), self.nored0(node.kids0[1]))
            if ph == 'N1':
                assume(implies(a1.color0, settled))
            else:
                sib = a[2].kids0[1 - sides[1]]
                assume(implies(a1.color0, or_(self.nored0(sib), settled)))
            assume(count + (node.size if node is not None else 0) < self.limit)
        else:
            d['last'] = ctx().choose(2)
            o = a1.kids0[1 - sides[0]].here()
            assume(and_(not_(a1.color0), node.color0, o.color0))
            node.make()
            inner = node.kids0[1 - sides[0]].here()
            inner.make()
            assume(and_(not_(inner.color0), self.nored0(inner.kids0[0]), self.nored0(inner.kids0[1])))
            assume(iff(e.key < node.key, sides[0] == 1))
            assume(count + 1 + inner.size < self.limit)
            if ph == 'D2':
                d.update(grand_parent=head, grand_grand_parent=None, grand_grand_grand_parent=head)
            else:
                x = head if ph == 'D3h' else a[3]
                d.update(grand_parent=a[2], grand_grand_parent=x, grand_grand_grand_parent=x)
        return d

    def iteration(self, L, g): self.last_g = g

    def nored0(self, c):
        if c.known is True:
            return True
        if c.known is False:
            return not_(c.color0)
        return or_(c.size == 0, not_(c.color0))

    def ghost0(self, L, env):
        self.phase, self.linked = 'base', True
        return {k: env.get(k) for k in ('node', 'parent', 'grand_parent', 'grand_grand_parent', 'grand_grand_grand_parent', 'direction', 'last', 'count')}

    def state(self, L, g):
        if self.phase == 'base':
            e = g
            prove(e['node'] is self.root and e['parent'] is None and e['grand_parent'] is None and e['grand_grand_parent'] is self.head, 'base: at the root')
            prove(self.head.kids_[1] is self.root, 'base: the false root holds the tree')
            prove(e['count'] + self.root.size < self.limit, 'base: the limit')
        return {k: Val(v, lambda cur: True) for k, v in g.items()}

    # ------------------------------------------------------------ after one iteration
    def next(self, L, g, env):
        w, e, head = self.w, self.entry, self.head
        node, a1, a2, a3, a4 = (env[k] for k in ('node', 'parent', 'grand_parent', 'grand_grand_parent', 'grand_grand_grand_parent'))
        d, last, count = env['direction'], env['last'], env['count']
        top = self.whole()
        # in-order unchanged, no red below red
        prove(self.same(inorder(self.top, True), inorder(top, False)), 'the order of the entries is unchanged')
        prove(and_(*[not_(and_(p.color_, c.color_, c.size >= 1)) for p, c in links(top, [])]), 'no red entry below a red one')
        # node is where the new entry belongs
        prove(a1 is g['node'] and a1 is not None, 'one level down')
        prove(iff(e.key < a1.key, d == 0), 'to the side where the new entry belongs')
        slot = a1.kids_[d] if a1.made else None
        prove(slot is None and node is None or slot.resolve() is node, 'node is the child at that side')
        up = self.above(top, a1)      # what is above a1, nearest first, up to the false root when it is linked
        prove(up is not None, 'the parent is part of the tree')
        b2, b3, b4 = (up + [None] * 3)[:3]
        two = and_(not_(nored(a1.kids_[0])), not_(nored(a1.kids_[1])))
        if self.isdouble(a1, node, d):
            ctx().cover('after a double rotation')
            prove(not_(a1.color_), 'D: the top is black')
            inner = node.kids_[1 - d] if node.made else None
            prove(inner is not None and inner.known is False, 'D: the inner child is an entry')
            inner.make()
            prove(and_(not_(inner.color_), nored(inner.kids_[0]), nored(inner.kids_[1])), 'D: the inner child is settled')
            prove(iff(e.key < node.key, d == 1), 'D: the new entry belongs to the inner side')
            prove(count + 1 + inner.size < self.limit, 'D: the limit')
            prove(a2 is b2 and b2 is not None, 'D: the entry above')
            if a2 is head:
                prove(a3 is None and a4 is head, 'D: below the false root')
            else:
                prove(a3 is b3 and a4 is a3 and b3 is not None, 'D: the entries above')
            return g
        if b2 is head:
            # a1 is the root
            prove(a2 is None and a3 is head and a4 is head, 'N: below the false root')
        elif b3 is head:
            prove(a2 is b2 and a3 is head and a4 is head, 'N: second level')
            prove(b2.kids_[last] is a1, 'N: last is the side of the parent')
        else:
            prove(a2 is b2 and a3 is b3 and a4 is b4 and b3 is not None and b4 is not None, 'N: the entries above')
            prove(b2.kids_[last] is a1, 'N: last is the side of the parent')
        prove(not_(two), 'N: not two red children')
        settled = False
        if node is not None:
            node.make()
            settled = and_(not_(node.color_), nored(node.kids_[0]), nored(node.kids_[1]))
        if b2 is head:
            prove(implies(a1.color_, settled), 'N: a red root is settled')
        else:
            sib = b2.kids_[0] if b2.kids_[1] is a1 else b2.kids_[1]
            prove(implies(a1.color_, or_(nored(sib), settled)), 'N: a red parent has no red sibling, or the node is settled')
        prove(count + (node.size if node is not None else 0) < self.limit, 'N: the limit')
        return g

    def isdouble(self, a1, node, d):
        if node is None:
            return False
        return bool(and_(node.color_, not_(nored(a1.kids_[1 - d]))))

    def whole(self):
        """the top entry of the part looked at"""
        return self.head.kids_[1] if self.linked else self.top

    def same(self, x, y): return len(x) == len(y) and all(p is q for p, q in zip(x, y))

    def above(self, top, n):
        """entries above n, nearest first"""
        path = []

        def go(c):
            if c is None or c.known is not False or not c.made:
                return c is n
            if c is n:
                return True
            for k in c.kids_:
                if k is not None and go(k):
                    path.append(c)
                    return True
            return False
        if not go(top):
            return None
        if self.linked:
            path.append(self.head)
        return path


class Folder(object):
    """the storage whose children tree gets the new entry"""
    parent = None

    def __init__(self, root):
        class S(object):
            sector_size = 4096
            dir_sector_count = None
        self.storage, self.child_id, self.root = S(), root, root

    def child(self): return self.child_id


PHASES = ('0', 'N1', 'N2', 'N3', 'D2', 'D3h', 'D3')


def insert(ph, sides=None):
    return lambda P: insert_from(P, ph, sides)


def insert_from(P, ph, sides):
    from pydv import loops
    w = World()
    entry = w.new(red=False, size=1)
    entry.made = True
    entry.kids0 = entry.kids_ = [None, None]
    w.entry = entry
    root = w.new(red=False).here()
    assume(root.key != entry.key)
    head = w.new(red=False, size=0)
    head.made = True
    sectors = fresh_int('directory sectors', 1, 1 << 20)
    limit = sectors * 32
    # every entry of the folder, the new one and the root have a record
    assume(root.size + 2 <= limit)
    f = Folder(root)
    f.storage.dir_sector_count = sectors
    real, ins = P.cfb.DirEntry, P.cfb.DirEntry.insert
    spec = Descend(w, head, root, entry, limit, ph, sides)
    loops.ACTIVE[:] = [[spec]]
    ctx().cover('entry')
    made = []

    def fake(storage, dir_id):
        prove(dir_id is None and not made, 'one false root')
        made.append(1)
        return head
    P.cfb.DirEntry = fake
    try:
        ins(f, entry)
    finally:
        P.cfb.DirEntry = real
    ctx().cover('inserted')
    # the path ended in the iteration which placed the entry
    g = spec.last_g
    top = spec.whole()
    a1, d = g['parent'], g['direction']
    prove(f.child_id is not None and f.child_id is head.kids_[1], 'the folder points at the root of the tree')
    prove(spec.same(inorder(spec.top, True, (a1, d), entry), inorder(top, False)), 'the new entry is where it belongs, the order of the others is unchanged')
    prove(and_(*[not_(and_(p.color_, c.color_, c.size >= 1)) for p, c in links(top, [])]), 'no red entry below a red one')
    prove(not_(f.child_id.color_), 'the root is black')
