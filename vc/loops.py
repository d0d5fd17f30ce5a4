"""Loop invariants.

A loop that depends on symbolic data is unrolled a few times; from the
snapshots at its header a candidate invariant G(m) is guessed: every value
that changes becomes linear in m, or a spec function applied to something
linear in m, or arbitrary.  The guess is untrusted.  What makes it a proof:

  base  match(G, m := 0, current state) succeeds,
  step  from G(m), for arbitrary m, every path either leaves the loop (and is
        explored to its end, all obligations included) or comes back to the
        header in a state for which match(G, m := m + 1, state) succeeds.

match() is the trusted part: it compares whole states (live registers of all
frames and everything reachable), up to renaming of objects."""
import time
from . import terms as t
from .terms import T, M
from . import mem
from .mem import UNDEF

LIM = 1 << 48


class NoMatch(Exception):
    pass


class NoGuess(Exception):
    pass


# ------------------------------------------------------------------ liveness

def live_regs(e, st):
    """[(frame index, [registers])]"""
    out = []
    last = len(st.frames) - 1
    for i, fr in enumerate(st.frames):
        F = fr.f
        live = e.m.liveness(F)
        B = F.blocks[fr.bi]
        if i == last:
            out.append(sorted(live[fr.bi]))
            continue
        key = (fr.bi, fr.ip)
        c = e.__dict__.setdefault('_livecache', {})
        k = (F.name, key)
        if k not in c:
            o = set()
            for s in B.succ:
                o |= live[s] - set(x for x, _ in F.blocks[s].phis)
                for _, m in F.blocks[s].phis:
                    r = m.get(fr.bi)
                    if r is not None and r < F.nregs:
                        o.add(r)
            for j in range(len(B.ins) - 1, fr.ip, -1):
                ins = B.ins[j]
                if ins.dst is not None:
                    o.discard(ins.dst)
                for r in e.m.uses(ins):
                    if 0 <= r < F.nregs:
                        o.add(r)
            d = B.ins[fr.ip].dst
            if d is not None:
                o.discard(d)
            c[k] = sorted(o)
        out.append(c[k])
    return out


def locate(e, st, v):
    """(object, offset) when v is an address of a live object, else None"""
    if isinstance(v, int):
        if v < (1 << 32) or v >= (1 << 62):
            return None
        o = e.find(st, v)
        if o is None:
            return None
        return o, v - o.base
    if isinstance(v, T) and v.w == 64 and v.op == 'lin':
        c = v.args[0]
        if c < (1 << 32) or c >= (1 << 62):
            return None
        o = e.find(st, c)
        if o is None:
            return None
        return o, t.sub(v, o.base, 64)
    return None


def stale(v):
    """looks like an address"""
    if isinstance(v, T) and v.op == 'lin':
        v = v.args[0]
    return isinstance(v, int) and ((1 << 32) <= v < (1 << 44) or (1 << 60) <= v < (1 << 62))


def roots(e, st):
    """[(tag, value, type)] in a canonical order, objects to visit"""
    vals = []
    for i, regs in enumerate(live_regs(e, st)):
        fr = st.frames[i]
        for r in regs:
            vals.append((('reg', i, r), fr.regs[r], fr.f.regty[r]))
    return vals


def elements(ty, n):
    """types of the elements of an aggregate"""
    if isinstance(ty, tuple) and ty[0] == 's' and len(ty[1]) == n:
        return [x[1] for x in ty[1]]
    return [None] * n


def width(ty, *xs):
    """of values of this type (or width); None when nothing tells"""
    if isinstance(ty, int):
        return ty
    if isinstance(ty, tuple) and ty[0] in ('i', 'f'):
        return ty[1]
    for x in xs:
        if isinstance(x, T):
            return x.w
    return None


def skeleton(st):
    return [(fr.f.name, fr.bi, fr.ip if i < len(st.frames) - 1 else 0, len(fr.allocas)) for i, fr in enumerate(st.frames)]


# ------------------------------------------------------------------ guessing

class Guess:
    pass


def fold_index(e, st):
    """unfolded value -> spec term, for the revealed spec functions"""
    ix = {}
    for k in st.defs:
        u = e.unfold(st, k)
        ix.setdefault((u, k.w), k)
    return ix


def fold(e, st, ix, x, w):
    """(spec function name, args, lo) with x == ext(f(args), lo, w)"""
    if isinstance(x, str) or isinstance(x, tuple):
        return None
    y = e.unfold(st, e.simp(st, x))
    k = ix.get((y, w))
    if k is not None:
        return k, 0
    if isinstance(y, T) and y.op == 'uf' and y.args[0].startswith('sp_') and y.w == w:
        return y, 0
    sl = ix.get('slices%d' % w)
    if sl is None:
        sl = {}
        for q in list(ix):
            if isinstance(q, str):
                continue
            u, fw = q
            if fw > w:
                for lo in range(0, fw - w + 1, 8):
                    sl.setdefault(t.ext(u, lo, w), (ix[q], lo))
        ix['slices%d' % w] = sl
    return sl.get(y)


class Infer:
    """lockstep walk over three snapshots"""
    def __init__(self, e, S, ixs, m):
        self.e = e
        self.S = S
        self.ix = ixs
        self.m = m
        self.map = {}           # id in S[2] -> (id0, id1)
        self.rev = [{}, {}]
        self.work = []
        self.sig = []
        self.wild = []          # fresh vars
        self.lin = []           # (term over m, width, kind)
        self.newval = {}        # location -> generalised value
        self.objgen = {}        # id -> (size term, L term, fn) growing objects
        self.fixptrs = {}       # id -> offsets of pointers that do not move
        self.ptrs = {}          # id -> list of generalised offsets
        self.memo = {}
        self.fixed = set()      # values that do not change

    def freshwild(self, w, hint='w'):
        v = t.fresh('any' + hint, w)
        self.wild.append(v)
        return v

    def mw(self, w):
        return self.m if w == 64 else t.ext(self.m, 0, w)

    def pair(self, x0, x1, x2):
        """object correspondence"""
        k = self.map.get(x2.id)
        if k is not None:
            if k != (x0.id, x1.id):
                raise NoGuess('aliasing')
            return
        for r, o in ((0, x0), (1, x1)):
            if self.rev[r].get(o.id, x2.id) != x2.id:
                raise NoGuess('aliasing')
            self.rev[r][o.id] = x2.id
        self.map[x2.id] = (x0.id, x1.id)
        self.work.append((x0, x1, x2))

    def value(self, loc, x0, x1, x2, w):
        """generalised value for x2"""
        e = self.e
        if isinstance(x2, tuple):
            if not (isinstance(x0, tuple) and isinstance(x1, tuple)):
                raise NoGuess('shape')
            ts = elements(w, len(x2))
            return tuple(self.value(loc + (i,), a, b, c, y) for i, (a, b, c, y) in enumerate(zip(x0, x1, x2, ts)))
        if x2 is None or isinstance(x2, str):
            return x2
        if x0 is None or x1 is None or isinstance(x0, str) or isinstance(x1, str):
            self.sig.append((loc, 'undef'))
            return UNDEF
        if isinstance(x0, tuple) or isinstance(x1, tuple):
            raise NoGuess('shape')
        w = width(w, x2, x1, x0)
        if w is None:
            if x0 == x1 == x2:
                return x2
            raise NoGuess('value of unknown width')
        x0 = e.simp(self.S[0], x0)
        x1 = e.simp(self.S[1], x1)
        x2 = e.simp(self.S[2], x2)
        if w == 64:
            ps = [locate(e, self.S[i], x) for i, x in enumerate((x0, x1, x2))]
            if all(ps):
                o0, o1, o2 = ps[0][0], ps[1][0], ps[2][0]
                if o2.kind == 'global' or o0.kind == 'global' or o1.kind == 'global':
                    if not (o0.name == o1.name == o2.name and o0.kind == o2.kind):
                        raise NoGuess('global')
                self.pair(o0, o1, o2)
                f0, f1, f2 = ps[0][1], ps[1][1], ps[2][1]
                same = eqv(f0, f1) and eqv(f1, f2)
                if same and isinstance(f2, T):
                    l = self.fixptrs.setdefault(o2.id, [])
                    if f2 not in l and len(l) < 4:
                        l.append(f2)
                if same and eqv(o0.size, o2.size) and eqv(o1.size, o2.size):
                    return x2
                if eqv(f0, o0.size) and eqv(f1, o1.size) and eqv(f2, o2.size) and not same:
                    # is it the end of the object or does it move inside of it?
                    if not (eqv(o0.size, o1.size) and eqv(o1.size, o2.size)):
                        self.sig.append((loc, 'end'))
                        self.ends = getattr(self, 'ends', [])
                        self.ends.append((loc, o2.id))
                        return ('END', o2.id)
                if same:
                    return x2
                d = self.linear(f0, f1, f2, 64)
                if d is None:
                    raise NoGuess('pointer offset')
                off = t.add(f2, t.mulc(self.m, d, 64), 64)
                self.sig.append((loc, 'ptr', d))
                self.ptrs.setdefault(o2.id, []).append(off)
                return t.add(o2.base, off, 64)
            if any(ps):
                # some point to objects, some do not
                if all(p is not None or stale(x) for p, x in zip(ps, (x0, x1, x2))):
                    return self.freshwild(w, 'stale')
                raise NoGuess('pointer or not')
            if stale(x2) and stale(x1) and stale(x0):
                if x0 == x1 == x2:
                    return x2
                return self.freshwild(w, 'stale')
        if eqv(x0, x1) and eqv(x1, x2):
            if w == 64 and isinstance(x2, T) and x2.op in ('var', 'lin') and len(self.fixed) < 12:
                self.fixed.add(x2)
            return x2
        d = self.linear(x0, x1, x2, w)
        if d is not None:
            self.sig.append((loc, 'lin', d))
            r = t.add(x2, t.mulc(self.mw(w), d, w), w)
            self.lin.append((r, w))
            return r
        r = self.spec(x0, x1, x2, w)
        if r is not None:
            self.sig.append((loc, 'spec'))
            return r
        r = self.au(x0, x1, x2, w)
        if r is not None:
            self.sig.append((loc, 'au'))
            return r
        self.sig.append((loc, 'any'))
        return self.freshwild(w)

    def linear(self, x0, x1, x2, w):
        d1 = t.sub(x1, x0, w)
        d2 = t.sub(x2, x1, w)
        if isinstance(d1, int) and d1 == d2:
            s = d1 - (1 << w) if d1 >> (w - 1) else d1
            if abs(s) < (1 << 24) or w < 32 and abs(s) < (1 << (w - 1)):
                if w <= 8 and not (isinstance(x0, int) and abs(s) <= 8):
                    return None
                return d1
        return None

    def spec(self, x0, x1, x2, w):
        fs = [fold(self.e, self.S[i], self.ix[i], x, w) for i, x in enumerate((x0, x1, x2))]
        if not all(fs):
            return None
        (k0, l0), (k1, l1), (k2, l2) = fs
        if not (l0 == l1 == l2) or not (k0.args[0] == k1.args[0] == k2.args[0]):
            return None
        g = self.au(k0, k1, k2, k2.w)
        if g is None:
            return None
        return t.ext(g, l2, w)

    def au(self, x0, x1, x2, w, depth=0):
        if eqv(x0, x1) and eqv(x1, x2):
            return x2
        d = self.linear(x0, x1, x2, w)
        if d is not None:
            return t.add(x2, t.mulc(self.mw(w), d, w), w)
        if not (isinstance(x0, T) and isinstance(x1, T) and isinstance(x2, T)) or depth > 12:
            return None
        if not (x0.op == x1.op == x2.op and x0.w == x1.w == x2.w):
            return None
        if depth > 0:
            r = self.spec(x0, x1, x2, w)
            if r is not None:
                return r
        if x2.op == 'uf':
            if not (x0.args[0] == x1.args[0] == x2.args[0]):
                return None
            args = []
            from . import solve
            sig = solve.UFSIG.get(x2.args[0])
            for i in range(len(x2.args) - 1):
                a = self.au(x0.args[1 + i], x1.args[1 + i], x2.args[1 + i], sig[0][i] if sig else 64, depth + 1)
                if a is None:
                    return None
                args.append(a)
            return t.uf(x2.args[0], tuple(args), x2.w)
        if x2.op in ('cat', 'xor', 'ext'):
            c0, c1, c2 = parts(x0), parts(x1), parts(x2)
            if not (len(c0) == len(c1) == len(c2)):
                return None
            if any(a[1:] != b[1:] or b[1:] != c[1:] for a, b, c in zip(c0, c1, c2)):
                return None
            out = []
            for a, b, c in zip(c0, c1, c2):
                g = self.au(a[0], b[0], c[0], c[1], depth + 1)
                if g is None:
                    return None
                out.append(g)
            if x2.op == 'cat':
                return t.cat([(g, c[1]) for g, c in zip(out, c2)])
            if x2.op == 'xor':
                r = out[0]
                for g in out[1:]:
                    r = t.xor(r, g, w)
                return r
            return t.ext(out[0], x2.args[1], x2.w)
        return None

    def run(self):
        e = self.e
        S = self.S
        sk = [skeleton(s) for s in S]
        if not (sk[0] == sk[1] == sk[2]):
            raise NoGuess('frames')
        rs = [roots(e, s) for s in S]
        if not ([x[0] for x in rs[0]] == [x[0] for x in rs[1]] == [x[0] for x in rs[2]]):
            raise NoGuess('registers')
        for (tag, a, ty), (_, b, _), (_, c, _) in zip(*rs):
            self.newval[tag] = self.value(tag, a, b, c, ty)
        for i in range(len(S[2].frames)):
            for a, b, c in zip(S[0].frames[i].allocas, S[1].frames[i].allocas, S[2].frames[i].allocas):
                self.pair(S[0].objs[a], S[1].objs[b], S[2].objs[c])
        self.globals()
        while self.work:
            self.object(*self.work.pop(0))

    def globals(self):
        e, S = self.e, self.S
        for o in list(S[2].objs.values()):
            if o.kind == 'global' and not o.ro:
                self.pair(e.find(S[0], o.base), e.find(S[1], o.base), o)

    def object(self, o0, o1, o2):
        if o2.ro:
            if o0.base != o2.base or o1.base != o2.base:
                raise NoGuess('constants')
            return
        if o0 is o1 and o1 is o2:
            # unchanged, but what it points to may have changed
            if o2.layers is not None:
                return
        if not (o0.kind == o1.kind == o2.kind):
            raise NoGuess('kind')
        lay = [o.layers is not None for o in (o0, o1, o2)]
        if any(lay) or not (eqv(o0.size, o1.size) and eqv(o1.size, o2.size)):
            self.grow(o0, o1, o2)
            return
        g = [dict(o.ghost or {}) for o in (o0, o1, o2)]
        if not (set(g[0]) == set(g[1]) == set(g[2])):
            raise NoGuess('ghost')
        for k in g[2]:
            if isinstance(k, str):
                if not g[0][k] == g[1][k] == g[2][k]:
                    raise NoGuess('ghost')
                continue
            self.newval[('ghost', o2.id, k)] = self.value(('ghost', o2.id, k), g[0][k], g[1][k], g[2][k], 64)
        offs = set(o2.slots)
        for off in sorted(offs):
            v2, n = o2.slots[off]
            v0 = mem.get(o0, off, n)
            v1 = mem.get(o1, off, n)
            r = self.value(('slot', o2.id, off), v0, v1, v2, 8 * n)
            if r is not v2:
                self.newval[('slot', o2.id, off)] = r

    def grow(self, o0, o1, o2):
        if o0.kind == 'stack':
            raise NoGuess('stack object of changing size')
        if o0 is o1 and o1 is o2:
            return
        if all(o.layers is not None for o in (o0, o1, o2)) and o0.layers == o1.layers == o2.layers \
                and eqv(o0.size, o1.size) and eqv(o1.size, o2.size):
            return
        self.sig.append(('grow', len(self.sig)))
        self.objgen[o2.id] = (o0, o1, o2)


def parts(x):
    if x.op == 'cat':
        return [(p, w) for p, w in x.args]
    if x.op == 'ext':
        return [(x.args[0], x.args[0].w, x.args[1])]
    if x.op == 'xor':
        return [(a, x.w) for a in x.args]
    return []


def eqv(a, b):
    if a is b:
        return True
    return isinstance(a, int) and isinstance(b, int) and a == b


def build_guess(e, snaps, P, cur):
    """candidate from snapshots cur, cur-P, cur-2P"""
    n = len(snaps) - 1
    # every residue of the last period (and at least 8 snapshots) must generalise
    win = max(P, 8)
    if n - 2 * P - win + 1 < 0:
        raise NoGuess('too few')
    ks = [(n - 2 * P - j, n - P - j, n - j) for j in range(win)]
    sigs = None
    first = None
    for j, (a, b, c) in enumerate(ks):
        m = t.fresh('loop', 64, 0, LIM, True) if first is None else first.m
        S = [snaps[a][0], snaps[b][0], snaps[c][0]]
        ixs = [snaps[i][1] for i in (a, b, c)]
        inf = Infer(e, S, ixs, m)
        inf.run()
        # object numbers differ between snapshots: compare kinds only
        s = sorted(str((x[0][0] if isinstance(x[0], tuple) else x[0],) + tuple(x[1:])) for x in inf.sig if x[0] != 'grow')
        if first is None:
            first = inf
            sigs = s
        elif j % P == 0 and s != sigs:
            raise NoGuess('not periodic')
    return first


def materialise(e, inf, S):
    """the state G(m), plus constraints"""
    G = S.clone(e)
    cons = []
    m = inf.m
    cons.append(t.ule(m, LIM, 64))
    caps = {}
    # growing objects
    for oid, (o0, o1, o2) in inf.objgen.items():
        offs = inf.ptrs.get(oid, [])
        L = None
        for off in offs:
            if isinstance(off, T):
                L = off
                break
        o = e.own(G, G.objs[oid])
        bottom = ()
        if o.layers is not None and eqv(o0.size, o1.size) and eqv(o1.size, o2.size):
            # one object of fixed (symbolic) size that is being written
            k = 0
            lys = [x.layers for x in (o0, o1, o2)]
            while k < min(len(x) for x in lys) and lys[0][k] == lys[1][k] == lys[2][k]:
                k += 1
            bottom = lys[2][:k]
            size = o2.size
        else:
            size = t.fresh('anycap', 64, 1, 1 << 44, True)
            inf.wild.append(size)
            caps[oid] = size
            pass
        if L is None:
            if o.layers is not None and bottom:
                o.layers = bottom
                continue
            raise NoGuess('growing object without a moving end')
        fn = content_fn(e, S, inf, o2, L)
        o.size = size
        o.slots = {}
        o.layers = bottom + ((('p', L, fn),) if fn else (('z', 0, L, UNDEF),))
        cons.append(t.ule(L, size, 64))
        if isinstance(o2.size, int):
            rebase(e, G, inf, o)
    for tag, v in inf.newval.items():
        v = fixend(e, G, v)
        if tag[0] == 'reg':
            G.frames[tag[1]].regs[tag[2]] = v
        elif tag[0] == 'slot':
            o = e.own(G, G.objs[tag[1]])
            o.slots[tag[2]] = (v, o.slots[tag[2]][1])
        elif tag[0] == 'ghost':
            o = e.own(G, G.objs[tag[1]])
            o.ghost = dict(o.ghost)
            o.ghost[tag[2]] = v
    # dead registers must not be read
    lr = live_regs(e, G)
    for i, fr in enumerate(G.frames):
        keep = set(lr[i])
        for r in range(fr.f.nregs):
            if r not in keep:
                fr.regs[r] = None
        fr.visits = None
    # inequality candidates
    cand = []
    for oid, offs in inf.ptrs.items():
        sz = G.objs[oid].size
        for off in offs:
            cand.append(t.ule(off, sz, 64))
            for x in inf.fixptrs.get(oid, ()):
                cand.append(t.ule(off, x, 64))
    ins = [x for _, x in S.inputs if isinstance(x, T) and x.w == 64 and t._ranges.get(x)]
    ins += [x for x in sorted(inf.fixed, key=lambda x: x.id) if x not in ins]
    rs = [r for r, w in inf.lin if w == 64]
    for offs in inf.ptrs.values():
        rs += [off for off in offs if isinstance(off, T)]
    ivs = set(x for _, x in S.inputs if isinstance(x, T) and not t._ranges.get(x))
    ins = [x for x in ins if x not in ivs]
    seen = set()
    for r in rs:
        if r in seen or len(seen) > 8:
            continue
        seen.add(r)
        for x in ins:
            x = e.simp(S, x)
            if isinstance(x, T):
                cand.append(t.ult(r, x, 64))
                cand.append(t.ule(r, x, 64))
                cand.append(t.ule(x, r, 64))
        cand.append(t.ule(r, 1 << 46, 64))
    out = []
    for c in cand:
        if isinstance(c, T) and c not in out:
            out.append(c)
    return G, cons, out


def rebase(e, G, inf, o):
    """an object of symbolic size needs a big region: its address changes"""
    old = o.base
    from .mem import BIG, SMALL
    nb = e._big + (1 << (BIG - 1))
    e._big += 1 << BIG
    G.reg.pop(old >> SMALL, None)
    o.base = nb
    G.reg[('b', nb >> BIG)] = o.id
    for tag in list(inf.newval):
        inf.newval[tag] = shift_ptr(inf.newval[tag], old, nb)
    # pointers that were not generalised
    for fr in G.frames:
        for i in range(fr.f.nregs):
            fr.regs[i] = shift_ptr(fr.regs[i], old, nb)
    for oid in inf.map:
        q = G.objs.get(oid)
        if q is None or q.ro or q.layers is not None:
            continue
        for off, (v, n) in list(q.slots.items()):
            if n == 8:
                v2 = shift_ptr(v, old, nb)
                if v2 is not v:
                    q = e.own(G, q)
                    q.slots[off] = (v2, n)


def shift_ptr(v, old, nb):
    if isinstance(v, tuple):
        if v and v[0] == 'END':
            return v
        return tuple(shift_ptr(x, old, nb) for x in v)
    if isinstance(v, int):
        if old - (1 << 19) <= v < old + (1 << 19):
            return v - old + nb
        return v
    if isinstance(v, T) and v.w == 64 and v.op == 'lin':
        c = v.args[0]
        if old - (1 << 19) <= c < old + (1 << 19):
            return t.add(v, (nb - old) & M[64], 64)
    return v


def fixend(e, G, v):
    if isinstance(v, tuple):
        if v and v[0] == 'END':
            o = G.objs[v[1]]
            return t.add(o.base, o.size, 64)
        return tuple(fixend(e, G, x) for x in v)
    return v


def content_fn(e, S, inf, o, L):
    """('fn', name, start, 1): byte i of o is name(start + i), for i < L at m=0"""
    L0 = t.subst(L, {inf.m: 0}) if isinstance(L, T) else L
    if not isinstance(L0, int):
        # symbolic: probe the start and the last bytes
        probe = [t.sub(L0, 1, 64), t.sub(L0, 2, 64), 0]
    else:
        if L0 == 0:
            return None
        probe = [0, L0 - 1, max(0, L0 - 2)]
    ix = fold_index(e, S)
    fns = set()
    for k in probe:
        try:
            if o.layers is not None:
                b = e.read_layers(S, o, len(o.layers), k, 1)
            else:
                b = mem.get_byte(o, k)
        except Exception:
            return None
        if isinstance(b, str):
            return None
        got = None
        for nme, base in S.tmpl:
            r = match_byte(e, S, ix, b, nme, k)
            if r is not None:
                got = (nme, r, 1, 0)
                break
        if got is None:
            got = match_word_byte(e, S, ix, b, k)
        if got is None:
            return None
        fns.add(got)
    if len(fns) != 1:
        return None
    nme, start, eb, skip = fns.pop()
    return ('fn', nme, start, eb) + ((skip,) if eb > 1 else ())


def match_word_byte(e, S, ix, b, k):
    """byte k is byte (skip + k) % 8 of name(start + (skip + k) / 8)"""
    names = set(n for n, _ in S.tmpl)
    r = None
    if isinstance(b, T) and b.op == 'ext' and b.args[0].op == 'uf' and b.args[1] % 8 == 0:
        r = b.args[0], b.args[1]
    else:
        r = fold(e, S, ix, b, 8)
    if r is None:
        return None
    u, lo = r
    if u.args[0] not in names or len(u.args) != 2 or u.w != 64 or lo % 8:
        return None
    d = t.sub(lo // 8, k, 64)           # 8 * start + skip == 8 * arg + d
    skip = t.and_(d, 7, 64)
    if not isinstance(skip, int):
        return None
    d = t.sub(d, skip, 64)
    q = div8(d)
    if q is None:
        return None
    return (u.args[0], t.add(u.args[1], q, 64), 8, skip)


def div8(x):
    """x / 8 as a signed number, for a multiple of 8"""
    def sg(c):
        return c - (1 << 64) if c >> 63 else c
    if isinstance(x, int):
        return (sg(x) // 8) & M[64] if sg(x) % 8 == 0 else None
    if x.op != 'lin':
        return None
    c, ts = x.args
    if sg(c) % 8 or any(sg(k) % 8 for _, k in ts):
        return None
    r = (sg(c) // 8) & M[64]
    for a, k in ts:
        r = t.add(r, t.mulc(a, (sg(k) // 8) & M[64], 64), 64)
    return r


def match_byte(e, S, ix, b, name, k):
    """start with b == name(start + k)"""
    if isinstance(b, T) and b.op == 'uf' and b.args[0] == name:
        return t.sub(b.args[1], k, 64)
    y = e.unfold(S, b)
    for d in S.defs:
        if d.args[0] == name and e.unfold(S, d) is y:
            return t.sub(d.args[1], k, 64)
    return None


# ------------------------------------------------------------------ matching (trusted)

def subst_layers(layers, sg, memo):
    out = []
    for ly in layers:
        k = ly[0]
        s = lambda x: t.subst(x, sg) if isinstance(x, T) else x
        if k == 'w':
            out.append(('w', s(ly[1]), ly[2], s(ly[3])))
        elif k == 'z':
            out.append(('z', s(ly[1]), s(ly[2]), s(ly[3])))
        elif k == 'c':
            out.append(('c', s(ly[1]), s(ly[2]), subst_obj(ly[3], sg, memo), s(ly[4])))
        elif k == 'p':
            f = ly[2]
            out.append(('p', s(ly[1]), (f[0], f[1], s(f[2])) + f[3:]))
        elif k == 'f':
            f = ly[1]
            out.append(('f', (f[0], f[1], s(f[2])) + f[3:]))
        else:
            raise NoMatch('layer')
    return tuple(out)


def subst_obj(o, sg, memo):
    k = o
    if id(k) in memo:
        return memo[id(k)][1]
    n = o.clone(0)
    n.size = t.subst(o.size, sg) if isinstance(o.size, T) else o.size
    if o.layers is not None:
        n.layers = subst_layers(o.layers, sg, memo)
    else:
        for off, (v, b) in o.slots.items():
            if isinstance(v, T):
                n.slots[off] = (t.subst(v, sg), b)
    memo[id(k)] = (k, n)
    return n


class Match:
    """is state S an instance of G with m := mval?"""
    def __init__(self, e, G, S, m, mval, wild, cons):
        self.e = e
        self.G = G
        self.S = S
        self.sg = {m: mval}
        self.wild = set(wild)
        self.cons = cons
        self.map = {}
        self.rev = {}
        self.eqs = []
        self.later = []
        self.work = []

    def bind(self, w, v):
        if w in self.sg:
            self.eqs.append((w, v, w.w))
        else:
            self.sg[w] = v

    def value(self, g, s, w, where):
        if g is None or isinstance(g, str):
            return
        if isinstance(g, tuple):
            if not isinstance(s, tuple) or len(g) != len(s):
                raise NoMatch('shape at %s' % (where,))
            for i, (a, b, y) in enumerate(zip(g, s, elements(w, len(g)))):
                self.value(a, b, y, where + (i,))
            return
        if s is None or isinstance(s, (str, tuple)):
            if isinstance(g, T) and g in self.wild:
                self.bind(g, t.fresh('undef', g.w))
                return
            raise NoMatch('undefined value at %s' % (where,))
        if isinstance(g, T) and g.op == 'var' and g in self.wild:
            self.bind(g, s)
            return
        w = width(w, g, s)
        if w is None:
            if g != s:
                raise NoMatch('value at %s' % (where,))
            return
        if w == 64:
            pg = locate(self.e, self.G, g)
            if pg is not None:
                ps = locate(self.e, self.S, self.e.simp(self.S, s))
                if ps is None:
                    raise NoMatch('pointer expected at %s' % (where,))
                self.pair(pg[0], ps[0], where)
                if not eqv(pg[1], ps[1]):
                    self.eqs.append((pg[1], ps[1], 64, where))
                return
        if not eqv(g, s):
            self.eqs.append((g, s, w, where))

    def pair(self, g, s, where):
        k = self.map.get(g.id)
        if k is not None:
            if k != s.id:
                raise NoMatch('aliasing at %s' % (where,))
            return
        if self.rev.get(s.id, g.id) != g.id:
            raise NoMatch('aliasing at %s' % (where,))
        self.map[g.id] = s.id
        self.rev[s.id] = g.id
        self.work.append((g, s))

    def run(self):
        e, G, S = self.e, self.G, self.S
        if skeleton(G) != skeleton(S):
            raise NoMatch('frames')
        rg, rs = roots(e, G), roots(e, S)
        if [x[0] for x in rg] != [x[0] for x in rs]:
            raise NoMatch('registers')
        if G.caught != S.caught or G.opts != S.opts or G.tmpl != S.tmpl:
            raise NoMatch('environment')
        for (tag, a, ty), (_, b, _) in zip(rg, rs):
            self.value(a, b, ty, tag)
        for i in range(len(G.frames)):
            for a, b in zip(G.frames[i].allocas, S.frames[i].allocas):
                self.pair(G.objs[a], S.objs[b], ('alloca', i))
        for o in list(S.objs.values()):
            if o.kind == 'global' and not o.ro:
                self.pair(e.find(G, o.base), o, ('global', o.name))
        for o in list(G.objs.values()):
            if o.kind == 'global' and not o.ro:
                self.pair(o, e.find(S, o.base), ('global', o.name))
        if S.watch is not None or G.watch is not None:
            if S.watch != G.watch or not S.frame0 <= G.frame0:
                raise NoMatch('frame condition')
            for oid in S.watch:
                a, b = G.objs.get(oid), S.objs.get(oid)
                if (a is None) != (b is None):
                    raise NoMatch('frame condition')
                if a is not None:
                    self.pair(a, b, ('frame', oid))
        while self.work:
            self.object(*self.work.pop(0))
        # all wild variables that occur are bound now
        for q in self.eqs:
            g, s, w = q[:3]
            gs = self.inst(g)
            c = e.simp(S, t.eq(gs, s, w))
            if not self.proved(c):
                raise NoMatch('value at %s: %s is not %s' % (q[3] if len(q) > 3 else '', t.show(s, 4), t.show(gs, 4)))
        for v in self.wild:
            r = t._ranges.get(v)
            if r is None or v not in self.sg:
                continue
            for c in (t.ule(self.sg[v], r[1], v.w), t.ule(r[0], self.sg[v], v.w)):
                if not self.proved(e.simp(S, c)):
                    raise NoMatch('range of %s' % t.show(v))
        for c in self.cons:
            if not self.proved(e.simp(S, self.inst(c))):
                raise NoMatch('constraint ' + t.show(c, 4))
        for g, s in self.later:
            self.layered(g, s)

    def inst(self, g):
        return t.subst(g, self.sg) if isinstance(g, T) else g

    def proved(self, c):
        e = self.e
        if isinstance(c, int):
            return bool(c)
        if c in self.S.pcset:
            return True
        e.nmatch = getattr(e, 'nmatch', 0) + 1
        r = e.prove(self.S, c)
        return r[0] == 'valid'

    def object(self, g, s):
        if g.ro or s.ro:
            if g.base != s.base:
                raise NoMatch('constant')
            return
        if g.kind != s.kind:
            raise NoMatch('kind')
        where = (g.kind, g.name)
        if isinstance(g.size, T) and g.size in self.wild:
            self.bind(g.size, s.size)
        elif not eqv(g.size, s.size):
            self.eqs.append((g.size, s.size, 64, where + ('size',)))
        gg, sg = g.ghost or {}, s.ghost or {}
        if set(gg) != set(sg):
            raise NoMatch('ghost')
        for k in gg:
            if isinstance(k, str):
                if gg[k] != sg[k]:
                    raise NoMatch('ghost')
                continue
            self.value(gg[k], sg[k], 64, where + ('ghost', k))
        if g.layers is not None or s.layers is not None:
            if not (g.layers is s.layers and not self.mentions(g)):
                self.later.append((g, s))
            return
        if g is s and False:
            return
        for off in sorted(g.slots):
            gv, n = g.slots[off]
            self.value(gv, mem.get(s, off, n), 8 * n, where + (off,))
        if g.zero and not s.zero:
            raise NoMatch('zero')

    def mentions(self, g):
        vs = self.wild | set(self.sg)
        return layers_mention(g.layers, vs, set())

    def layered(self, g, s):
        """all bytes equal, for an arbitrary index"""
        e = self.e
        memo = {}
        gi = subst_obj(g, self.sg, memo)
        from .models import indices
        eb, skip = 1, 0
        for ly in gi.layers or ():
            if ly[0] == 'p' and len(ly[2]) > 4:
                eb, skip = ly[2][3], ly[2][4]
        for idx in indices(e, eb, skip):
            self.layered_at(gi, s, idx)

    def layered_at(self, gi, s, idx):
        from .engine import Fork, Stop
        e = self.e
        st = self.S.clone(e)
        e.assume(st, t.ult(idx, s.size, 64))
        work = [st]
        n = 0
        while work:
            s2 = work.pop()
            n += 1
            if n > 200:
                raise NoMatch('too many cases')
            if e.p.sat(e.facts(s2)) is False:
                continue
            try:
                a = e.read_any(s2, gi, idx, 1)
                if isinstance(a, str):
                    continue
                b = e.read_any(s2, s, idx, 1)
                if isinstance(b, str):
                    raise NoMatch('undefined byte')
                c = e.simp(s2, t.eq(a, b, 8))
                if isinstance(c, int):
                    if not c:
                        raise NoMatch('bytes')
                    continue
                if e.prove(s2, c)[0] != 'valid':
                    raise NoMatch('bytes: %s' % t.show(c, 5))
            except Fork as q:
                e.fork(s2, q.cond, work)
                work.append(s2)
            except Stop as q:
                if q.kind != 'infeasible':
                    raise NoMatch(q.detail)


def layers_mention(layers, vs, seen):
    if layers is None:
        return False
    for ly in layers:
        for x in ly[1:]:
            if isinstance(x, T) and t.vars_of(x) & vs:
                return True
            if isinstance(x, tuple):
                if any(isinstance(y, T) and t.vars_of(y) & vs for y in x):
                    return True
            if isinstance(x, mem.Obj):
                if id(x) in seen:
                    continue
                seen.add(id(x))
                if isinstance(x.size, T) and t.vars_of(x.size) & vs:
                    return True
                if layers_mention(x.layers, vs, seen):
                    return True
                if any(isinstance(v, T) and t.vars_of(v) & vs for v, _ in x.slots.values()):
                    return True
    return False


# ------------------------------------------------------------------ control

class Gen:
    __slots__ = ('uid', 'b', 'count', 'Pa', 'G', 'm', 'wild', 'cons', 'depth0', 'heap0', 'maxdepth')


def at_header(e, st, fr, b):
    from .engine import Stop
    if fr.vfork is None:
        fr.vfork = {}
    rec = fr.vfork.get(b)
    if rec is None:
        rec = (0, -1, 0)
    count, last, tries = rec
    count += 1
    for g in st.gen:
        if g.uid == fr.uid and g.b == b:
            # inside the inductive step of this loop
            done = count - g.count
            if done % g.Pa == 0:
                try:
                    mt = Match(e, g.G, st, g.m, t.add(g.m, done // g.Pa, 64), g.wild, g.cons)
                    mt.run()
                except NoMatch as x:
                    if done < 3 * g.Pa and not str(x).startswith('constraint'):
                        # perhaps a path that is about to leave the loop
                        fr.vfork[b] = (count, st.nforks, tries)
                        return
                    e.nomatch.append(str(x))
                    raise Stop('genfail', 'not inductive: ' + str(x))
                if 'heap' in st.opts:
                    e.check(st, 'depth', int(st.heap <= g.heap0), 'no objects are left over by a loop iteration')
                raise Stop('closed')
            fr.vfork[b] = (count, st.nforks, tries)
            return
    if st.nforks == last or last == -1:
        fr.vfork[b] = (count, st.nforks, tries)
        if last == -1:
            return
        return
    fr.vfork[b] = (count, st.nforks, tries)
    if fr.visits is None:
        fr.visits = {}
    vs = fr.visits.get(b)
    if vs is None:
        vs = fr.visits[b] = []
    if len(vs) >= e.opts['maxvisits']:
        raise Stop('bounded', 'loop without an invariant after %d iterations' % len(vs))
    snap = st.clone(e)
    for f in snap.frames:
        f.visits = None
    vs.append((snap, fold_index(e, snap), count))
    if len(vs) < e.opts['kmin'] or tries >= e.opts['attempts']:
        return
    for P in range(1, (len(vs) - 1) // 2 + 1):
        try:
            inf = build_guess(e, vs, P, st)
        except NoGuess as x:
            continue
        if e.opts.get('debug'):
            print('guess', fr.f.name, b, 'P', P, [x for x in inf.sig][:60])
        ok = attempt(e, st, fr, b, inf, vs[-1][2] - vs[-1 - P][2], P)
        if ok:
            raise Stop('closed')
        tries += 1
        fr.vfork[b] = (count, st.nforks, tries)
        break


def attempt(e, st, fr, b, inf, Pa, P):
    from .engine import Stop
    try:
        G, cons, cand = materialise(e, inf, st)
    except NoGuess:
        return False
    if e.opts.get('debug'):
        print('cand', [t.show(c) for c in cand])
    save = (len(e.failures), {k: [v[0], dict(v[1])] for k, v in e.oblig.items()}, e.nob, len(e.bounded), e.paths,
            len(e.loopsdone), dict(e.covers))
    # base case, dropping inequality candidates that do not hold
    mt = Match(e, G, st, inf.m, 0, inf.wild, cons)
    try:
        mt.run()
    except NoMatch as x:
        e.nomatch.append('base: ' + str(x))
        if e.opts.get('debug'):
            print('base:', x)
        return False
    cand = [c for c in cand if mt.proved(e.simp(st, mt.inst(c)))]
    # r < x makes r <= x superfluous, but it may be the weaker one that is kept
    for rnd in range(4):
        G2 = G.clone(e)
        g = Gen()
        g.uid = fr.uid
        g.b = b
        g.count = fr.vfork[b][0]
        g.Pa = Pa
        g.G = G
        g.m = inf.m
        g.wild = list(inf.wild)
        g.cons = cons
        g.heap0 = st.heap
        g.cons = cons + cand
        G2.gen = list(st.gen) + [g]
        bad = None
        try:
            for c in cons + cand:
                e.assume(G2, c)
            try:
                ends = e.explore(G2)
            except Stop as x:
                if x.kind != 'genfail':
                    raise
                bad = x.detail
        except Stop as x:
            if x.kind != 'infeasible':
                restore(e, save)
                raise
            bad = 'infeasible'
        if bad is None:
            e.loopsdone.append((fr.f.name, e.loc(st), P, len(inf.wild), len(cand)))
            return True
        if e.opts.get('debug'):
            print('step failed:', bad)
        sus = e.failures[save[0]:]
        if e.opts.get('debug'):
            for f in sus:
                print('  ', f.label, f.loc, f.status, f.detail[:300], f.model and f.model['inputs'])
        e.suspects.extend(sus)
        restore(e, save)
        # drop the inequality that was not preserved and try again
        if bad.startswith('not inductive: constraint '):
            txt = bad[len('not inductive: constraint '):]
            c2 = [c for c in cand if t.show(c, 4) != txt]
            if len(c2) < len(cand):
                cand = c2
                continue
        accelerate(e, st, fr, b, inf, Pa, G, cons + cand, save)
        return False
    return False


def accelerate(e, st, fr, b, inf, Pa, G, cons, save):
    """The inductive step fails: is there a first iteration M from which it
    does?  The states before are the guessed ones then, and so is the one at M,
    from which the program is run with M as a number: what fails there is
    refuted, not a weakness of the guess."""
    from .engine import Stop
    if st.gen or e.accel is not None or inf.wild or not e.opts.get('accelerate', 1):
        return
    if e.opts.get('debug'):
        print('looking for the first iteration that breaks the invariant')
    t0 = time.time()
    end = t0 + 40
    if e.deadline:
        end = min(end, t0 + (e.deadline - t0) / 3)

    def start(extra, gen):
        S = G.clone(e)
        if gen:
            g = Gen()
            g.uid, g.b, g.count, g.Pa, g.G, g.m = fr.uid, b, fr.vfork[b][0], Pa, G, inf.m
            g.wild, g.cons, g.heap0 = [], cons, st.heap
            S.gen = list(st.gen) + [g]
        for c in cons:
            e.assume(S, c)
        e.assume(S, extra)
        return S

    def step(x):
        """it holds from every iteration before x"""
        if time.time() > end:
            raise Stop('late')
        try:
            e.explore(start(t.ult(inf.m, x, 64), True))
            if e.opts.get('debug'):
                print('step below', x)
            return True
        except Stop as q:
            if q.kind not in ('genfail', 'infeasible'):
                raise
            return q.kind == 'infeasible'
        finally:
            restore(e, save)

    e.accel = 0
    try:
        lo, hi = 0, 48          # holds below 2^lo, not below 2^hi
        if not step(64):
            return
        lo = 6
        while hi - lo > 1:
            k = (lo + hi) // 2
            if step(1 << k):
                lo = k
            else:
                hi = k
        a, z = 1 << lo, 1 << hi
        if step(z):
            return
        if not step(a + 1):
            z = a + 1
        elif step(z - 2):
            a = z - 2
        while z - a > 1:
            k = (a + z) // 2
            if step(k):
                a = k
            else:
                z = k
        if e.opts.get('debug'):
            print('first iteration that breaks the invariant:', a)
        S = start(t.eq(inf.m, a, 64), False)
        if e.p.sat(e.facts(S)) is False:
            return
        e.accel = a
        d = e.deadline
        e.deadline = min(end, d) if d else end
        try:
            e.explore(S)
        finally:
            e.deadline = d
    except Stop as q:
        if e.opts.get('debug'):
            print('search for the iteration:', q.kind, q.detail, time.time() - t0)
    finally:
        found = e.accel and [f for f in e.failures[save[0]:] if f.status == 'refuted']
        restore(e, save)
        e.accel = None
    if found:
        for f in found:
            f.detail = 'in the iteration %d of the loop at %s: ' % (a, e.loc(st)) + f.detail
        e.failures.extend(found)
        raise Stop('refuted')


def restore(e, save):
    del e.failures[save[0]:]
    e.oblig = save[1]
    e.nob = save[2]
    del e.bounded[save[3]:]
    del e.loopsdone[save[5]:]
    e.covers = save[6]
    e.oblig = {k: [v[0], dict(v[1])] for k, v in save[1].items()}


# ------------------------------------------------------------------ object graphs

def same_graph(e, st, p, q, label):
    """the graph of p (actual) equals the graph of q (canonical)"""
    from .models import is_ctrl
    work = []
    mp, rv = {}, {}

    class Differ(Exception):
        pass

    def value(a, c, w):
        if isinstance(c, str) or c is None:
            return
        if isinstance(c, T) and c.op == 'var' and c.args[0].startswith('anyskip'):
            return
        if isinstance(a, str) or a is None:
            raise Differ('undefined')
        c = e.simp(st, c)
        a = e.simp(st, a)
        if w == 64:
            lc, la = locate(e, st, c), locate(e, st, a)
            if lc is not None:
                if la is None:
                    raise Differ('pointer')
                pair(la[0], lc[0])
                if not eqv(la[1], lc[1]):
                    # end of allocation
                    if eqv(la[1], la[0].size) and eqv(lc[1], lc[0].size):
                        return
                    x = t.eq(la[1], lc[1], 64)
                    if not e.check(st, 'post', x, label):
                        raise Differ('offset')
                return
            if stale(c):
                return
        if eqv(a, c):
            return
        if not e.check(st, 'post', t.eq(a, c, w), label):
            raise Differ('value')

    def pair(a, c):
        k = mp.get(c.id)
        if k is not None:
            if k != a.id:
                raise Differ('aliasing')
            return
        mp[c.id] = a.id
        work.append((a, c))

    def obj(a, c):
        if a is c:
            return
        if c.ro or a.ro:
            raise Differ('constant')
        if a.kind != c.kind:
            raise Differ('kind')
        if c.layers is not None or a.layers is not None:
            raise Differ('contents of symbolic length')
        skip = range(8, 16) if is_ctrl(e, c) else ()
        data = is_data(c)
        for off in sorted(c.slots):
            if off in skip:
                continue
            v, n = c.slots[off]
            if isinstance(a.size, int) and off + n > a.size:
                raise Differ('size')
            value(mem.get(a, off, n), v, 8 * n)

    def is_data(c):
        return False
    try:
        value(p, q, 64)
        while work:
            obj(*work.pop(0))
        e.check(st, 'post', 1, label)
    except Differ as x:
        e.check(st, 'post', 0, label + ' (' + str(x) + ')')
