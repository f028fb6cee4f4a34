"""P17: a new slot always gets an unused id.

Deductive part: Mob.create_timeline_slot and Mob.slot_at on a mob with an
arbitrary number of slots whose ids are arbitrary (repeated, unordered,
negative or huge).  `slots` is an abstract collection of n slots: the code may
iterate it (any number of times) and append to it; nothing else is provided.
The chosen id is compared with the id of an arbitrary existing slot J."""
import random
from pydv.core import *
from pydv.core import ctx
from pydv.loops import LoopSpec
from pydv.seq import mk
from pydv.runner import Unit, Bounded, plain
from specs.common import drive, AafFiles, drop_chunks


class GSlot(object):
    def __init__(self, i, sid): self.index, self.slot_id = i, sid


class GSlots(object):
    """n slots with arbitrary ids"""

    def __init__(self):
        self.n = fresh_int('n', 0)
        self.ids = UF('id')
        self.J = fresh_int('J', 0)          # an arbitrary existing slot
        self.added = []

    def at(self, i): return GSlot(i, self.ids(i))

    def pv_lazy(self):
        s = mk('tuple', n=self.n, f=self.at)
        s.ghosts = [self.J]         # sorted() and comprehensions carry the position of the witness
        return s

    def append(self, s):
        self.added.append(s)

    def __iter__(self): raise Unsupported('iteration of the abstract slots')
    def __len__(self): raise Unsupported('len of the abstract slots')


class NoSlots(list):
    added = property(lambda s: s)


class NewSlot(object):
    def __init__(self, slot_id=None, name=None, segment=None, origin=None, edit_rate=None):
        self.slot_id, self.edit_rate = slot_id, edit_rate


class Create(object):
    TimelineMobSlot = NewSlot


class Root(object):
    create = Create()


class GMob(object):
    root = Root()

    def __init__(self):
        self.slots = GSlots()


def mob():
    m = GMob()
    assume(m.slots.J < m.slots.n)
    return m, m.slots.J


class Gap(LoopSpec):
    """after the first i ids of the sorted list: none of them equals slot_id"""
    name = 'first gap'
    fn = 'create_timeline_slot'

    def __init__(self, m, J):
        self.m, self.J = m, J

    def match(self, L, env):
        return L.lazy is not None and getattr(L.lazy, 'ghosts', None) and 'slot_id' in env

    def ghost0(self, L, env):
        return dict(s=env['slot_id'])

    def fresh(self, L): return dict(s=fresh_int('sid'))

    def constraint(self, L, g):
        srt = L.lazy
        i = L.idx
        r = []
        r.append(implies(and_(i > 0, i <= self.m.slots.n), srt.at(i - 1) != g['s']))
        j = srt.ghosts[0]           # where the witness is in the sequence looped over
        srt.at(j)
        srt.at(i)
        r.append(implies(j < i, self.m.slots.ids(self.J) != g['s']))
        return r

    def state(self, L, g): return {'slot_id': g['s']}
    def next(self, L, g, env): return dict(s=env['slot_id'])


def create_free(P):
    from pydv import loops
    m, J = mob()
    loops.ACTIVE[:] = [[Gap(m, J)]]
    ctx().cover('entry')
    s = P.mobs.Mob.create_timeline_slot(m, 25)
    prove(s.slot_id != m.slots.ids(J), 'the chosen id is not the id of any existing slot')
    prove(len(m.slots.added) == 1 and m.slots.added[0] is s, 'exactly the new slot is appended')
    prove(s.edit_rate == 25, 'edit rate')


def create_empty(P):
    m = GMob()
    m.slots = NoSlots()
    ctx().cover('entry')
    s = P.mobs.Mob.create_timeline_slot(m, 25)
    prove(s.slot_id == 1, 'first id is 1')
    prove(len(m.slots.added) == 1 and m.slots.added[0] is s, 'exactly the new slot is appended')


def create_given(P):
    m, J = mob()
    sid = fresh_int('given', 0, 0xffffffff)
    ctx().cover('entry')
    try:
        s = P.mobs.Mob.create_timeline_slot(m, 25, sid)
    except ValueError:
        prove(len(m.slots.added) == 0, 'nothing is added when refused')
        return
    ctx().cover('accepted')
    prove(s.slot_id == sid, 'the requested id is used')
    prove(len(m.slots.added) == 1 and m.slots.added[0] is s, 'exactly the new slot is appended')
    # the code looked for sid among the ids it collected; witness: where J went
    prove(sid != m.slots.ids(J), 'an id already used is refused')


class Scan(LoopSpec):
    """no slot before index i has the id"""
    name = 'scan'
    fn = 'slot_at'

    def __init__(self, m, J, sid):
        self.m, self.J, self.sid = m, J, sid

    def constraint(self, L, g):
        return [implies(self.J < L.idx, self.m.slots.ids(self.J) != self.sid)]


def slot_at(P):
    from pydv import loops
    m, J = mob()
    sid = fresh_int('sid', 0, 0xffffffff)
    loops.ACTIVE[:] = [[Scan(m, J, sid)]]
    ctx().cover('entry')
    try:
        s = P.mobs.Mob.slot_at(m, sid)
    except IndexError:
        ctx().cover('absent')
        prove(m.slots.ids(J) != sid, 'IndexError only when no slot has the id')
        return
    ctx().cover('found')
    prove(s.slot_id == sid, 'the slot found has the id')
    prove(and_(s.index >= 0, s.index < m.slots.n), 'it is a slot of the mob')
    prove(implies(m.slots.ids(J) == sid, s.index <= J), 'it is the first slot with the id')


def delegates(P):
    """the other creation methods go through create_timeline_slot with the id they were given"""
    class Seg(object):
        def __init__(self, **k):
            self.value = None
            self.kw = k

        def __getitem__(self, k): return self

    class C(Create):
        def Sequence(self, media_kind=None): return Seg()
        def SourceClip(self, media_kind=None): return Seg()
        def Timecode(self, *a, **k): return Seg()

    class R(object):
        create = C()
    ctx().cover('entry')
    sid = fresh_int('sid', 0, 0xffffffff)

    class D(object):
        root = R()

        def __init__(self): self.calls = []

        def create_timeline_slot(self, edit_rate, slot_id=None):
            self.calls.append((edit_rate, slot_id))
            return NewSlot(slot_id)
        create_empty_sequence_slot = P.mobs.Mob.create_empty_sequence_slot
        create_empty_slot = P.mobs.SourceMob.create_empty_slot
        create_picture_slot = P.mobs.Mob.create_picture_slot
        create_sound_slot = P.mobs.Mob.create_sound_slot
        create_timecode_slot = P.mobs.SourceMob.create_timecode_slot
    for nm, args, kw, want in [('create_empty_sequence_slot', (30,), {}, None), ('create_empty_sequence_slot', (30,), dict(slot_id=sid), sid),
                               ('create_empty_slot', (30,), {}, None), ('create_empty_slot', (30, 'picture', sid), {}, sid),
                               ('create_picture_slot', (30,), {}, None), ('create_sound_slot', (30,), {}, None),
                               ('create_timecode_slot', (30, 30), {}, None)]:
        d = D()
        getattr(d, nm)(*args, **kw)
        prove(len(d.calls) == 1, nm + ': one slot is created')
        prove(d.calls[0][0] == 30, nm + ': edit rate passed on')
        got = d.calls[0][1]
        if want is None:
            prove(got is None, nm + ': lets the mob choose the id')
        else:
            prove(got == want, nm + ': requested id passed on')


def fixed_slot(P):
    """create_essence and create_tape_slots: slot 1 through create_timeline_slot, which refuses it when it is used; nothing else gets an id"""
    class Seg(object):
        length = mob_id = None
        def __getitem__(self, k): return Box()

    class Box(object):
        value = None

    class Essences(object):
        def __init__(self): self.l = []
        def append(self, x): self.l.append(x)

    class C(Create):
        def SourceClip(self, media_kind=None): return Seg()
        def Timecode(self, *a, **k): return Seg()
        def TapeDescriptor(self): return Seg()
        def EssenceData(self): return Seg()

    class Content(object):
        def __init__(self): self.essencedata = Essences()

    class R(object):
        def __init__(self): self.create, self.content = C(), Content()
    S = P.mobs.SourceMob

    class D(object):
        name = descriptor = None
        mob_id = 'id'

        def __init__(self, used): self.root, self.calls, self.made, self.used = R(), [], [], used

        def create_timeline_slot(self, edit_rate, slot_id=None):
            self.calls.append((edit_rate, slot_id))
            if slot_id is not None and self.used:
                raise ValueError('used')
            s = NewSlot(slot_id)
            self.made.append(s)
            return s
        create_empty_slot, create_timecode_slot = S.create_empty_slot, S.create_timecode_slot
        create_essence, create_tape_slots = S.create_essence, S.create_tape_slots
    ctx().cover('entry')
    used = bool(ctx().choose(2))
    what = ctx().choose(3)
    d = D(used)
    try:
        if what == 0:
            res = d.create_tape_slots('tape', 30, 30)
        else:
            res = d.create_essence(30, 'picture', offline=what == 1)
    except ValueError:
        ctx().cover('refused')
        prove(used, 'refused only when the slot id is used')
        prove(d.made == [] and d.root.content.essencedata.l == [], 'nothing was added')
        return
    ctx().cover('made')
    prove(not used, 'an id in use is never given again')
    prove([i for _, i in d.calls] == ([1, None] if what == 0 else [1]), 'slot 1, and for the timecode whatever is free')
    prove(all(e == 30 for e, _ in d.calls), 'edit rate passed on')
    if what == 0:
        prove(tuple(res) == tuple(d.made), 'the new slots are returned')
    else:
        prove(res[1] is d.made[0] and len(d.made) == 1, 'the new slot is returned')
        prove((res[0] is None) if what == 1 else d.root.content.essencedata.l == [res[0]], 'with its essence')


def referring(P):
    """a reference to a slot gives the slot with that id of the mob with that id, and takes its id from the slot it is given"""
    SR = P.components.SourceReference
    sid = fresh_int('slot id', 0, 0xffffffff) if ctx().choose(2) else None
    exists = bool(ctx().choose(2))
    slot = type('Slot', (), dict(slot_id=sid, media_kind='picture', length=fresh_int('length', 0, 1 << 40)))()
    asked = []

    class M(object):
        mob_id = 'the mob'

        def slot_at(self, i):
            asked.append(i)
            if not exists:
                raise IndexError(i)
            return slot
    m = M() if ctx().choose(2) else None

    class Box(object):
        def __init__(self, v=None): self.value = v

    class Ref(SR):
        __slots__ = ('d',)
        __new__ = lambda cls: object.__new__(cls)
        def __init__(self): self.d = {'SourceMobSlotID': Box(sid), 'SourceID': Box()}
        def __getitem__(self, k): return self.d.setdefault(k, Box())
        mob = property(lambda s: m, lambda s, v: s.d.__setitem__('mob', v))
        length = property(lambda s: s.d.get('length'), lambda s, v: s.d.__setitem__('length', v))
        start = property(lambda s: s.d.get('start'), lambda s, v: s.d.__setitem__('start', v))
    ctx().cover('entry')
    r = Ref()
    try:
        got = r.slot
    except IndexError:
        ctx().cover('missing')
        prove(m is not None and sid is not None and not exists, 'an error only when the mob has no such slot')
        got = None
    if m is None or sid is None:
        prove(got is None, 'no mob or no id: no slot')
    elif exists:
        ctx().cover('found')
        prove(got is slot, 'the slot the mob finds')
        prove(len(asked) >= 1, 'the mob was asked')
        for a in asked:
            prove(a == sid, 'for that id')
    else:
        prove(got is None, 'nothing else')
    b = Ref()
    new = fresh_int('new id', 0, 0xffffffff)
    b.slot = type('Slot', (), dict(slot_id=new))()
    prove(b.d['SourceMobSlotID'].value == new, 'the id of the slot is stored')
    if m is None:
        return
    clip = Ref()

    class Mk(object):
        def SourceClip(self, media_kind=None): return clip

    class Rt(object):
        create = Mk()
    m.root = Rt()
    del asked[:]
    try:
        c = P.mobs.Mob.create_source_clip(m, sid)
    except IndexError:
        prove(not exists, 'refused only when there is no such slot')
        return
    ctx().cover('clip')
    prove(exists, 'a clip needs a slot')
    prove(c is clip and c.d.get('mob') is m, 'the clip refers to the mob')
    prove(c.d['SourceMobSlotID'].value is sid, 'and to that slot')


# ---------------------------------------------------------------- concrete
IDS = [0, 1, 2, 3, 4, 5, 6, 7, 9, 12, 100, 1000, 0x7fffffff, 0x80000000, 0xfffffffe]
KINDS = ['timeline', 'empty_sequence', 'picture', 'sound', 'empty', 'timecode', 'essence', 'tape']


def gen(rng, i):
    r = rng.random()
    n = rng.choice([0, 1, 2, 3, 4, 6, 9])
    if r < .5:
        ids = [rng.choice(IDS[:9]) for _ in range(n)]
    elif r < .75:
        ids = rng.sample(IDS, n)
    else:
        lo = rng.choice([0, 1, 2])
        ids = [lo + k + (rng.random() < .15) for k in range(n)]
        if rng.random() < .5:
            rng.shuffle(ids)
    ops = []
    for _ in range(rng.randrange(1, 8)):
        x = rng.random()
        if x < .55:
            ops.append(['new', rng.choice(KINDS)])
        elif x < .7:
            ops.append(['explicit', rng.choice(IDS), rng.choice(['timeline', 'empty_sequence', 'empty'])])
        elif x < .85:
            ops.append(['pop', rng.randrange(12)])
        elif x < .93:
            ops.append(['raw', rng.choice(IDS), rng.choice(['TimelineMobSlot', 'EventMobSlot', 'StaticMobSlot'])])
        else:
            ops.append(['reopen'] if i % 4 == 0 else ['new', 'timeline'])
    return dict(ids=ids, ops=ops, cls=rng.choice(['SourceMob', 'MasterMob', 'CompositionMob']))


def shrink(inp):
    for o in drop_chunks(inp['ops']):
        yield dict(inp, ops=o)
    for o in drop_chunks(inp['ids']):
        yield dict(inp, ids=o)


_F = []         # one in-memory file shared by the cases without a reopen


def check(inp):
    plain()
    with AafFiles() as files:
        return check_in(inp, files)


def check_in(inp, files):
    import aaf2
    if any(o[0] == 'reopen' for o in inp['ops']):
        f = files.open('a')
    else:
        if not _F:
            _F.append(aaf2.open())
        f = _F[0]
    mob = getattr(f.create, inp['cls'])('m')
    f.content.mobs.append(mob)
    if inp['cls'] == 'SourceMob':
        mob.descriptor = f.create.TapeDescriptor()
    mid = mob.mob_id
    model = []

    def raw_add(sid, cls='TimelineMobSlot'):
        s = getattr(f.create, cls)() if cls != 'TimelineMobSlot' else f.create.TimelineMobSlot(sid)
        s.slot_id = sid
        if cls == 'EventMobSlot':
            s['EditRate'].value = 25
        s.name = 'x%d' % len(model)
        s.segment = f.create.Filler('picture', len(model))
        mob.slots.append(s)
        model.append([sid, s.name])
    for x in inp['ids']:
        raw_add(x)
    k = 0

    def verify(where):
        got = [[s.slot_id, s.name] for s in mob.slots]
        if got != model:
            return '%s: slots are %s instead of %s' % (where, got, model)
        for sid in set(IDS) | set(m[0] for m in model):
            want = next((m[1] for m in model if m[0] == sid), None)
            try:
                r = mob.slot_at(sid).name
            except IndexError:
                r = None
            if r != want:
                return '%s: slot_at(%d) found %r instead of %r' % (where, sid, r, want)
        for sid in [m[0] for m in model][:4] + [77]:
            want = next((m[1] for m in model if m[0] == sid), None)
            clip = f.create.SourceClip(0, 4, mid, sid, media_kind='picture')
            try:
                r = clip.slot
            except IndexError:
                r = None
            if (None if r is None else r.name) != want or (r is not None and r is not mob.slot_at(sid)):
                return '%s: a clip of slot %d refers to %r instead of %r' % (where, sid, r, want)
            if want is not None:
                c = mob.create_source_clip(sid, length=3)
                if c.slot is not mob.slot_at(sid) or c.mob is not mob or c.slot_id != sid:
                    return '%s: create_source_clip(%d) refers to %r of %r' % (where, sid, c.slot, c.mob)
    for op in inp['ops']:
        k += 1
        if op[0] in ('new', 'explicit'):
            kind = op[1] if op[0] == 'new' else op[2]
            if inp['cls'] != 'SourceMob' and kind in ('empty', 'timecode', 'essence', 'tape'):
                kind = 'timeline'
            used = [m[0] for m in model]
            fixed = None
            made = []
            try:
                if op[0] == 'explicit':
                    fixed = op[1]
                    s = {'timeline': lambda: mob.create_timeline_slot(25, fixed),
                         'empty_sequence': lambda: mob.create_empty_sequence_slot(25, fixed, 'picture'),
                         'empty': lambda: mob.create_empty_slot(25, 'picture', fixed)}[kind]()
                    made = [s]
                elif kind == 'tape':
                    fixed = 1
                    made = list(mob.create_tape_slots('t%d' % k, 25, 25))
                elif kind == 'essence':
                    fixed = 1
                    _, s = mob.create_essence(25, offline=True)
                    made = [s]
                else:
                    s = {'timeline': lambda: mob.create_timeline_slot(25), 'picture': lambda: mob.create_picture_slot(25),
                         'sound': lambda: mob.create_sound_slot(25),
                         'empty_sequence': lambda: mob.create_empty_sequence_slot(25, media_kind='picture'),
                         'empty': lambda: mob.create_empty_slot(25), 'timecode': lambda: mob.create_timecode_slot(25, 25)}[kind]()
                    made = [s]
            except ValueError as e:
                if fixed is None or fixed not in used:
                    return 'create %s with ids %s refused: %s' % (op, used, e)
                made = []
            else:
                if fixed is not None and fixed in used:
                    return 'create %s: id %d is already used by a slot (%s) but was accepted' % (op, fixed, used)
            for j, s in enumerate(made):
                sid = s.slot_id
                if sid in [m[0] for m in model]:
                    return 'create %s gave id %d, already used: %s' % (op, sid, [m[0] for m in model])
                if j == 0 and fixed is not None and sid != fixed:
                    return 'create %s gave id %d instead of %d' % (op, sid, fixed)
                if s.segment is None:
                    s.segment = f.create.Filler('picture', 3)
                s.name = 'n%d_%d' % (k, j)
                model.append([sid, s.name])
        elif op[0] == 'pop' and model:
            i = op[1] % len(model)
            mob.slots.pop(i)
            model.pop(i)
        elif op[0] == 'raw':
            raw_add(op[1], op[2])
        elif op[0] == 'reopen':
            f.close()
            f = files.open('a', 'rb+')
            mob = f.content.mobs.get(mid)
        r = verify(op)
        if r:
            return r
    return None


def run(rng, budget, tier, shard):
    return drive(rng, budget, tier, gen, check, 400, 40000, tlimit=60, shrink=shrink)


def rep(m, name):
    rng = random.Random(3)
    for i in range(300):
        inp = gen(rng, i)
        r = check(inp)
        if r:
            return '%s on %s' % (r, inp)
    return None


C = ['mobs.Mob.create_timeline_slot']
UNITS = [Unit('choose', create_free, C, rep, covers=['entry']),
         Unit('choose, no slots', create_empty, C, rep, covers=['entry']),
         Unit('requested', create_given, C, rep, covers=['entry', 'accepted']),
         Unit('slot_at', slot_at, ['mobs.Mob.slot_at'], rep, covers=['entry', 'found', 'absent']),
         Unit('other creators', delegates, ['mobs.Mob.create_empty_sequence_slot', 'mobs.Mob.create_picture_slot', 'mobs.Mob.create_sound_slot',
                                            'mobs.SourceMob.create_empty_slot', 'mobs.SourceMob.create_timecode_slot'], rep, covers=['entry']),
         Unit('slot number one', fixed_slot, ['mobs.SourceMob.create_essence', 'mobs.SourceMob.create_tape_slots', 'mobs.SourceMob.create_empty_slot',
                                              'mobs.SourceMob.create_timecode_slot'], rep, covers=['entry', 'refused', 'made']),
         Unit('references to a slot', referring, ['components.SourceReference.slot', 'mobs.Mob.create_source_clip'], rep, covers=['entry', 'missing', 'found', 'clip'])]
BOUNDED = [Bounded('files', run, 'mobs of up to 9 slots with arbitrary, repeated and unordered ids, then up to 7 random creations with every method, removals, '
                   'foreign slots and reopenings; slot list and slot_at compared with a model after each',
                   C + ['mobs.Mob.slot_at', 'mobs.SourceMob.create_essence', 'mobs.SourceMob.create_tape_slots'], check, shards=6, budget=12)]
ASSUMPTIONS = ['the slot collection is abstract: iterating it yields its slots in order and append adds at the end (P13 decides that for the real vector)',
               'creating a slot object stores the id it is given (P12)', 'slot ids of a mob are integers']
LEVEL = 'proof'
