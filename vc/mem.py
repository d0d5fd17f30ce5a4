"""Objects and memory of a symbolic state."""
from . import terms as t
from .terms import T, M

SMALL = 20                     # log2 of a small region
BIGBIT = 1 << 60
BIG = 45                       # log2 of a big region
UNDEF = 'undef'


class Obj:
    __slots__ = ('id', 'base', 'size', 'kind', 'alive', 'slots', 'layers', 'ro', 'zero', 'ghost', 'owner', 'name', 'arr')

    def clone(self, owner):
        o = Obj()
        o.id = self.id
        o.base = self.base
        o.size = self.size
        o.kind = self.kind
        o.alive = self.alive
        o.slots = dict(self.slots)
        o.layers = self.layers
        o.ro = self.ro
        o.zero = self.zero
        o.ghost = dict(self.ghost) if self.ghost else None
        o.owner = owner
        o.name = self.name
        o.arr = self.arr
        return o

    def __repr__(self):
        return '<%s%d %s size=%s%s>' % (self.kind, self.id, self.name, t.show(self.size), '' if self.alive else ' dead')


def new_obj(oid, base, size, kind, name, owner):
    o = Obj()
    o.id = oid
    o.base = base
    o.size = size
    o.kind = kind
    o.alive = True
    o.slots = {}
    o.layers = None          # tuple for symbolic-size objects
    o.ro = False
    o.zero = False
    o.ghost = None
    o.owner = owner
    o.name = name
    o.arr = False
    return o


MAXSLOT = 16


def slot_split(o, s):
    """break slot s into bytes"""
    v, n = o.slots.pop(s)
    if isinstance(v, str):
        for i in range(n):
            o.slots[s + i] = (UNDEF, 1)
        return
    for i in range(n):
        o.slots[s + i] = (t.ext(v, 8 * i, 8), 1)


def clear_range(o, off, n):
    sl = o.slots
    for s in range(off - MAXSLOT + 1, off + n):
        c = sl.get(s)
        if c is None:
            continue
        if s + c[1] <= off:
            continue
        if s >= off and s + c[1] <= off + n:
            del sl[s]
            continue
        slot_split(o, s)
        for i in range(max(s, off), min(s + c[1], off + n)):
            sl.pop(i, None)


def put(o, off, n, v):
    c = o.slots.get(off)
    if c is not None and c[1] == n:
        o.slots[off] = (v, n)
        return
    if n > MAXSLOT:
        raise ValueError('store too wide')
    clear_range(o, off, n)
    o.slots[off] = (v, n)


def get_byte(o, off):
    sl = o.slots
    c = sl.get(off)
    if c is not None:
        v, n = c
        if n == 1:
            return v
        return v if isinstance(v, str) else t.ext(v, 0, 8)
    for d in range(1, MAXSLOT):
        c = sl.get(off - d)
        if c is not None:
            v, n = c
            if n > d:
                return v if isinstance(v, str) else t.ext(v, 8 * d, 8)
            break
    return 0 if o.zero else UNDEF


def get(o, off, n):
    """value of n bytes or UNDEF"""
    c = o.slots.get(off)
    if c is not None and c[1] == n:
        return c[0]
    if c is not None and c[1] > n:
        return c[0] if isinstance(c[0], str) else t.ext(c[0], 0, 8 * n)
    parts = []
    allint = True
    for i in range(n):
        b = get_byte(o, off + i)
        if isinstance(b, str):
            return UNDEF
        if not isinstance(b, int):
            allint = False
        parts.append((b, 8))
    if allint:
        r = 0
        for i, (b, _) in enumerate(parts):
            r |= b << (8 * i)
        return r
    return t.cat(parts)
