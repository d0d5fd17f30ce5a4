"""Hash-consed bit-vector terms with aggressive canonicalisation.

A value is either a python int (concrete, unsigned, masked to its width) or a
T.  Width-1 terms are booleans.  Every constructor returns a canonical form, so
that equal computations usually become the same object; what is left over goes
to the solvers (solve.py)."""
import sys
sys.setrecursionlimit(100000)

M = [(1 << i) - 1 for i in range(0, 1025)]


class T:
    __slots__ = ('op', 'args', 'w', 'id', 'z', 'rg', '_vars')

    def __repr__(self):
        return show(self)


_tab = {}
_next = [1]


def mk(op, args, w):
    k = (op, args, w)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.w = w
        t.id = _next[0]
        _next[0] += 1
        t.z = None
        t.rg = None
        t._vars = None
        _tab[k] = t
    return t


def show(t, d=6):
    if isinstance(t, int):
        return hex(t) if t > 9 else str(t)
    if d == 0:
        return '..'
    if t.op == 'var':
        return t.args[0]
    if t.op == 'uf':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, d - 1) for a in t.args[1:]))
    if t.op == 'lin':
        return '(' + ' + '.join([show(t.args[0])] + ['%s*%s' % (show(c) if c < (1 << (t.w - 1)) else '-' + show((1 << t.w) - c), show(a, d - 1)) for a, c in t.args[1]]) + ')'
    if t.op == 'cat':
        return '{' + ', '.join('%s:%d' % (show(p, d - 1), w) for p, w in reversed(t.args)) + '}'
    if t.op == 'ext':
        return '%s[%d+:%d]' % (show(t.args[0], d - 1), t.args[1], t.w)
    if t.op == 'tbl':
        return 'tbl[%s]' % show(t.args[1], d - 1)
    return '%s(%s)' % (t.op, ', '.join(show(a, d - 1) if isinstance(a, (int, T)) else str(a) for a in t.args))


# ---------------------------------------------------------------- variables

_ranges = {}
_fresh = [0]


def var(name, w, lo=0, hi=None, integer=False):
    t = mk('var', (name, bool(integer)), w)
    if hi is not None:
        _ranges[t] = (lo, hi)
        t.rg = (lo, hi)
    return t


def fresh(prefix, w, lo=0, hi=None, integer=False):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), w, lo, hi, integer)


def uf(name, args, w):
    return mk('uf', (name,) + tuple(args), w)


_uf_ranges = {}


# ---------------------------------------------------------------- ranges

def rng(t, w=None):
    if isinstance(t, int):
        return (t, t)
    r = t.rg
    if r is not None:
        return r
    r = _rng(t)
    t.rg = r
    return r


def _rng(t):
    full = (0, M[t.w])
    op = t.op
    if op == 'cat':
        lo = hi = 0
        s = 0
        for p, w in t.args:
            a, b = rng(p)
            lo |= a << s
            hi |= b << s
            s += w
        return (lo, hi)
    if op == 'lin':
        c, ts = t.args
        lo = hi = c
        for a, k in ts:
            x, y = rng(a)
            if k > M[t.w] >> 1:           # negative coefficient
                k = (1 << t.w) - k
                lo -= k * y
                hi -= k * x
            else:
                lo += k * x
                hi += k * y
        if lo >= 0 and hi <= M[t.w]:
            return (lo, hi)
        # the constant may itself be a negative number
        lo -= 1 << t.w
        hi -= 1 << t.w
        if lo >= 0 and hi <= M[t.w]:
            return (lo, hi)
        return full
    if op == 'ite':
        a = rng(t.args[1])
        b = rng(t.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == 'and':
        return (0, min(rng(a)[1] for a in t.args))
    if op == 'udiv':
        a, b = rng(t.args[0]), rng(t.args[1])
        if b[0] > 0:
            return (a[0] // b[1], a[1] // b[0])
        return full
    if op == 'urem':
        b = rng(t.args[1])
        if b[0] > 0:
            return (0, min(b[1] - 1, rng(t.args[0])[1]))
        return full
    if op == 'ext':
        a = rng(t.args[0])
        lo, w = t.args[1], t.w
        if lo == 0 and a[1] <= M[w]:
            return a
        if a[1] >> lo <= M[w]:
            return (a[0] >> lo, a[1] >> lo)
        return full
    if op == 'tbl':
        tab = t.args[0]
        return (min(tab), max(tab))
    if op == 'mul':
        lo = hi = 1
        for a in t.args:
            x, y = rng(a)
            lo *= x
            hi *= y
        if hi <= M[t.w]:
            return (lo, hi)
        return full
    if op == 'lshr':
        a = rng(t.args[0])
        return (0, a[1])
    return full


# ---------------------------------------------------------------- linear sums

def _lin_parts(t, w):
    if isinstance(t, int):
        return t, ()
    if t.op == 'lin':
        return t.args
    return 0, ((t, 1),)


def mk_lin(c, d, w):
    """c: const, d: dict atom->coeff"""
    c &= M[w]
    its = [(a, k) for a, k in ((a, k & M[w]) for a, k in d.items()) if k]
    if not its:
        return c
    if len(its) == 1 and c == 0 and its[0][1] == 1:
        return its[0][0]
    its.sort(key=lambda x: x[0].id)
    return mk('lin', (c, tuple(its)), w)


def add(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return (a + b) & M[w]
        if a == 0:
            return b
    elif isinstance(b, int) and b == 0:
        return a
    if w == 1:
        return xor(a, b, 1)
    # disjoint concatenations: x + y == x | y when no bit can overlap
    if (isinstance(a, T) and a.op == 'cat') or (isinstance(b, T) and b.op == 'cat'):
        if (isinstance(a, int) or a.op == 'cat') and (isinstance(b, int) or b.op == 'cat') \
                and _mask(a) & _mask(b) == 0:
            return or_(a, b, w)
    ca, da = _lin_parts(a, w)
    cb, db = _lin_parts(b, w)
    d = dict(da)
    for t, k in db:
        d[t] = d.get(t, 0) + k
    return mk_lin(ca + cb, d, w)


def _mask(t):
    if isinstance(t, int):
        return t
    r = 0
    s = 0
    for p, w in t.args:
        r |= (p if isinstance(p, int) else M[w]) << s
        s += w
    return r


def neg(a, w):
    return mulc(a, M[w], w)


def sub(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & M[w]
    if a is b:
        return 0
    return add(a, neg(b, w), w)


def mulc(a, k, w):
    k &= M[w]
    if isinstance(a, int):
        return (a * k) & M[w]
    if k == 0:
        return 0
    if k == 1:
        return a
    c, d = _lin_parts(a, w)
    return mk_lin(c * k, {t: x * k for t, x in d}, w)


def mul(a, b, w):
    if isinstance(b, int):
        return mulc(a, b, w)
    if isinstance(a, int):
        return mulc(b, a, w)
    if w == 1:
        return and_(a, b, 1)
    if a.id > b.id:
        a, b = b, a
    return mk('mul', (a, b), w)


def lin_diff(a, b, w):
    """constant a-b or None"""
    if a is b:
        return 0
    d = sub(a, b, w)
    return d if isinstance(d, int) else None


# ---------------------------------------------------------------- structure

def cat(parts):
    """parts: [(value, width)] low first"""
    out = []
    for p, w in parts:
        if w == 0:
            continue
        if isinstance(p, T) and p.op == 'cat':
            for q, v in p.args:
                _cat_push(out, q, v)
        else:
            _cat_push(out, p, w)
    tot = sum(w for _, w in out)
    if len(out) == 1:
        return out[0][0]
    if len(out) == 2 and isinstance(out[1][0], int) and out[1][0] == 0:
        p, w = out[0]
        if isinstance(p, T) and p.op == 'ext' and p.args[1] == 0:
            x = p.args[0]
            if rng(x)[1] <= M[w]:
                # truncated and extended again, without loss
                if x.w == tot:
                    return x
                if x.w < tot:
                    return cat([(x, x.w), (0, tot - x.w)])
    return mk('cat', tuple(out), tot)


def _cat_push(out, p, w):
    while out:
        q, v = out[-1]
        m = _merge(q, v, p, w)
        if m is None:
            break
        out.pop()
        p, w = m, v + w
        if isinstance(p, T) and p.op == 'cat':
            for x, y in p.args:
                _cat_push(out, x, y)
            return
    out.append((p, w))


def _base(p, w):
    if isinstance(p, T) and p.op == 'ext':
        return p.args[0], p.args[1]
    return p, 0


def _merge(lo, wl, hi, wh):
    """one term for {hi,lo} or None when they do not join"""
    if isinstance(lo, int):
        if isinstance(hi, int):
            return lo | (hi << wl)
        return None
    if isinstance(hi, int):
        return None
    if hi.op == 'ext':
        b, o = hi.args
        if lo.op == 'ext':
            if lo.args[0] is b and lo.args[1] + wl == o:
                return ext(b, lo.args[1], wl + wh)
        elif b is lo and o == wl:
            return ext(b, 0, wl + wh)
        # truncated sums: ext(b,0,wl) has been rewritten as a lin
        if o == wl and b.op == 'lin' and ext(b, 0, wl) is lo:
            return ext(b, 0, wl + wh)
    if lo.op == hi.op and lo.op in ('xor', 'and', 'or') and wl > 1 and wh > 1:
        la, ha = list(lo.args), list(hi.args)
        lc = 0 if lo.op == 'xor' else None
        hc = lc
        if isinstance(la[-1], int):
            lc = la.pop()
        if isinstance(ha[-1], int):
            hc = ha.pop()
        if (lc is None) != (hc is None) or len(la) != len(ha):
            return None
        res = []
        for x in la:
            for i, y in enumerate(ha):
                m = _merge(x, wl, y, wh)
                if m is not None and not (isinstance(m, T) and m.op == 'cat'):
                    res.append(m)
                    ha.pop(i)
                    break
            else:
                return None
        if lc is not None:
            res.append(lc | (hc << wl))
        r = res[0]
        f = {'xor': xor, 'and': and_, 'or': or_}[lo.op]
        for x in res[1:]:
            r = f(r, x, wl + wh)
        if isinstance(r, T) and r.op == 'cat':
            return None
        return r
    if lo.op == 'ite' and hi.op == 'ite' and lo.args[0] is hi.args[0]:
        a = _merge(lo.args[1], wl, hi.args[1], wh)
        b = _merge(lo.args[2], wl, hi.args[2], wh)
        if a is not None and b is not None:
            return ite(lo.args[0], a, b, wl + wh)
    return None


def ext(t, lo, w):
    if isinstance(t, int):
        return (t >> lo) & M[w]
    if lo == 0 and w == t.w:
        return t
    op = t.op
    if op == 'ext':
        return ext(t.args[0], t.args[1] + lo, w)
    if op == 'cat':
        out = []
        s = 0
        hi = lo + w
        for p, pw in t.args:
            a = max(lo, s)
            b = min(hi, s + pw)
            if a < b:
                out.append((ext(p, a - s, b - a), b - a))
            s += pw
        return cat(out)
    if op == 'xor':
        r = ext(t.args[0], lo, w)
        for a in t.args[1:]:
            r = xor(r, ext(a, lo, w), w)
        return r
    if op == 'and':
        r = ext(t.args[0], lo, w)
        for a in t.args[1:]:
            r = and_(r, ext(a, lo, w), w)
        return r
    if op == 'or':
        r = ext(t.args[0], lo, w)
        for a in t.args[1:]:
            r = or_(r, ext(a, lo, w), w)
        return r
    if op == 'lin' and lo == 0:
        c, d = t.args
        dd = {}
        for a, k in d:
            k &= M[w]
            if k:
                x = ext(a, 0, w)
                cx, dx = _lin_parts(x, w)
                c += cx * k
                for y, ky in dx:
                    dd[y] = dd.get(y, 0) + ky * k
        return mk_lin(c, dd, w)
    if op == 'mul' and lo == 0:
        r = ext(t.args[0], 0, w)
        return mul(r, ext(t.args[1], 0, w), w)
    if op == 'ite':
        a = t.args[1]
        b = t.args[2]
        if isinstance(a, int) or isinstance(b, int) or (isinstance(a, T) and a.op == 'cat') or (isinstance(b, T) and b.op == 'cat'):
            return ite(t.args[0], ext(a, lo, w), ext(b, lo, w), w)
    if op == 'sext':
        x = t.args[0]
        if lo + w <= x.w:
            return ext(x, lo, w)
    if op == 'tbl' :
        tab, idx = t.args
        nt = tuple((v >> lo) & M[w] for v in tab)
        return tbl(nt, idx, w)
    r = rng(t)
    if r[1] >> lo == 0:
        return 0
    return mk('ext', (t, lo), w)


def zext(t, fw, w):
    if isinstance(t, int):
        return t
    return cat([(t, fw), (0, w - fw)])


def sext(t, fw, w):
    if isinstance(t, int):
        return t | (M[w] ^ M[fw]) if t >> (fw - 1) else t
    if rng(t)[1] < 1 << (fw - 1):
        return zext(t, fw, w)
    if fw == 1:
        return ite(t, M[w], 0, w)
    if t.op == 'sext':
        return sext(t.args[0], t.args[0].w, w)
    return mk('sext', (t,), w)


# ---------------------------------------------------------------- bitwise

def _bounds(args, w):
    s = set()
    for a in args:
        if isinstance(a, T) and a.op == 'cat':
            o = 0
            for _, pw in a.args:
                o += pw
                s.add(o)
    s.discard(w)
    return s


def _runs(c, w):
    s = set()
    prev = c & 1
    for i in range(1, w):
        b = (c >> i) & 1
        if b != prev:
            s.add(i)
            prev = b
    return s


def _split(f, args, bs, w):
    pts = sorted(bs) + [w]
    out = []
    s = 0
    for e in pts:
        r = ext(args[0], s, e - s) if not isinstance(args[0], int) else (args[0] >> s) & M[e - s]
        for a in args[1:]:
            r = f(r, ext(a, s, e - s), e - s)
        out.append((r, e - s))
        s = e
    return cat(out)


def xor(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return a ^ b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if w == 1:
            return not_(a)
    if a is b:
        return 0
    if w == 1:
        return _bool_xor(a, b)
    if a.op == 'cat' or (isinstance(b, T) and b.op == 'cat'):
        return _split(xor, [a, b], _bounds([a, b], w), w)
    # tables with constant differences stay tables: tbl ^ const
    c = 0
    d = set()
    for t in (a, b):
        if isinstance(t, int):
            c ^= t
        elif t.op == 'xor':
            for x in t.args:
                if isinstance(x, int):
                    c ^= x
                else:
                    d ^= {x}
        else:
            d ^= {t}
    return _mk_xor(c, d, w)


def _mk_xor(c, d, w):
    if not d:
        return c
    its = sorted(d, key=lambda x: x.id)
    if len(its) == 1 and c == 0:
        return its[0]
    if c:
        its.append(c)
    return mk('xor', tuple(its), w)


def _bool_xor(a, b):
    # (a xor b) on booleans, negations pulled out
    n = 0
    d = set()
    for t in (a, b):
        if isinstance(t, int):
            n ^= t
            continue
        if t.op == 'not':
            n ^= 1
            t = t.args[0]
        if t.op == 'bxor':
            for x in t.args:
                d ^= {x}
        else:
            d ^= {t}
    if not d:
        return n
    its = sorted(d, key=lambda x: x.id)
    r = its[0] if len(its) == 1 else mk('bxor', tuple(its), 1)
    return not_(r) if n else r


def not_(a):
    """boolean negation"""
    if isinstance(a, int):
        return a ^ 1
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ult':
        return mk_ule(a.args[1], a.args[0])
    if a.op == 'ule':
        return ult(a.args[1], a.args[0], _w2(a.args))
    return mk('not', (a,), 1)


def _w2(args):
    for a in args:
        if isinstance(a, T):
            return a.w
    return 64


def bnot(a, w):
    if w == 1:
        return not_(a)
    return xor(a, M[w], w)


def and_(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return a & b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == M[w]:
            return a
        bs = _runs(b, w)
        if a.op == 'cat' or a.op in ('xor', 'or', 'ext', 'uf', 'var', 'ite', 'tbl', 'sext', 'and', 'lin', 'mul', 'shl', 'lshr', 'ashr', 'urem', 'udiv'):
            return _split(and_, [a, b], bs | _bounds([a], w), w)
        return mk('and', (a, b), w)
    if a is b:
        return a
    if w == 1:
        if a is not_(b):
            return 0
        s = set()
        for t in (a, b):
            if t.op == 'and':
                s.update(t.args)
            else:
                s.add(t)
        for x in s:
            if x.op == 'not' and x.args[0] in s:
                return 0
        return mk('and', tuple(sorted(s, key=lambda x: x.id)), 1) if len(s) > 1 else s.pop()
    if a.op == 'cat' or b.op == 'cat':
        return _split(and_, [a, b], _bounds([a, b], w), w)
    s = set()
    c = M[w]
    for t in (a, b):
        if t.op == 'and':
            for x in t.args:
                if isinstance(x, int):
                    c &= x
                else:
                    s.add(x)
        else:
            s.add(t)
    its = sorted(s, key=lambda x: x.id)
    if c != M[w]:
        its.append(c)
    return mk('and', tuple(its), w)


def or_(a, b, w):
    if isinstance(a, int):
        if isinstance(b, int):
            return a | b
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if b == M[w]:
            return b
        bs = _runs(b, w)
        return _split(or_, [a, b], bs | _bounds([a], w), w)
    if a is b:
        return a
    if w == 1:
        return not_(and_(not_(a), not_(b), 1))
    if a.op == 'cat' or b.op == 'cat':
        return _split(or_, [a, b], _bounds([a, b], w), w)
    s = set()
    for t in (a, b):
        if t.op == 'or':
            s.update(t.args)
        else:
            s.add(t)
    its = sorted((x for x in s if isinstance(x, T)), key=lambda x: x.id)
    return mk('or', tuple(its), w)


def shl(a, b, w):
    if isinstance(b, int):
        if b >= w:
            return 0
        if b == 0:
            return a
        if isinstance(a, int):
            return (a << b) & M[w]
        if a.op == 'lin' or (a.op == 'var' and a.args[1]) or a.op == 'mul' or a.op in ('udiv', 'urem'):
            return mulc(a, 1 << b, w)
        if a.op == 'cat' and isinstance(a.args[-1][0], int) and a.args[-1][0] == 0 and len(a.args) == 2 \
                and isinstance(a.args[0][0], T) and a.args[0][0].op in ('lin',) and False:
            return mulc(a, 1 << b, w)
        return cat([(0, b), (ext(a, 0, w - b), w - b)])
    return mk('shl', (a, b), w)


def lshr(a, b, w):
    if isinstance(b, int):
        if b >= w:
            return 0
        if b == 0:
            return a
        if isinstance(a, int):
            return a >> b
        if a.op == 'lin':
            r = _exact_div(a, b, w)
            if r is not None:
                return r
        return cat([(ext(a, b, w - b), w - b), (0, b)])
    return mk('lshr', (a, b), w)


def _exact_div(a, b, w):
    """(c + sum k*x) >> b when every coefficient is a multiple of 2^b and the
    sum provably does not wrap (checked with ranges)."""
    c, d = a.args
    if any(k & M[b] for _, k in d):
        return None
    lo = hi = c
    nc = c >> b
    dd = {}
    tot = 1 << w
    for variant in (0, 1):
        cc = c - tot if variant else c
        lo = hi = cc
        dd = {}
        for x, k in d:
            if k > M[w] >> 1:
                k -= tot
            r = rng(x)
            v = (k * r[0], k * r[1])
            lo += min(v)
            hi += max(v)
            dd[x] = k >> b
        if lo >= 0 and hi < tot:
            return mk_lin(cc >> b, dd, w)
    return None


def ashr(a, b, w):
    if isinstance(b, int) and isinstance(a, int):
        if b >= w:
            b = w - 1
        s = a - (1 << w) if a >> (w - 1) else a
        return (s >> b) & M[w]
    if isinstance(b, int):
        if b == 0:
            return a
        if isinstance(a, T):
            if rng(a)[1] < 1 << (w - 1):
                return lshr(a, b, w)
            return sext(ext(a, b, w - b), w - b, w)
    return mk('ashr', (a, b), w)


def udiv(a, b, w):
    if isinstance(b, int):
        if isinstance(a, int):
            return a // b if b else M[w]
        if b == 1:
            return a
        if b and b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
    return mk('udiv', (a, b), w)


def urem(a, b, w):
    if isinstance(b, int):
        if isinstance(a, int):
            return a % b if b else a
        if b and b & (b - 1) == 0:
            return and_(a, b - 1, w)
        if rng(a)[1] < b:
            return a
    return mk('urem', (a, b), w)


def _sg(a, w):
    return a - (1 << w) if a >> (w - 1) else a


def sdiv(a, b, w):
    if isinstance(a, int) and isinstance(b, int) and b:
        x, y = _sg(a, w), _sg(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & M[w]
    if rng(a)[1] < 1 << (w - 1) and rng(b)[1] < 1 << (w - 1):
        return udiv(a, b, w)
    if isinstance(b, int) and isinstance(a, T) and a.op == 'lin':
        # exact division of pointer differences (sdiv exact)
        pass
    return mk('sdiv', (a, b), w)


def srem(a, b, w):
    if isinstance(a, int) and isinstance(b, int) and b:
        x, y = _sg(a, w), _sg(b, w)
        q = abs(x) % abs(y)
        return (q if x >= 0 else -q) & M[w]
    if rng(a)[1] < 1 << (w - 1) and rng(b)[1] < 1 << (w - 1):
        return urem(a, b, w)
    return mk('srem', (a, b), w)


# ---------------------------------------------------------------- predicates

def eq(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return int(a == b)
    if a is b:
        return 1
    if w == 1:
        return not_(xor(a, b, 1)) if not (isinstance(a, int) or isinstance(b, int)) else (
            (a if b else not_(a)) if isinstance(b, int) else (b if a else not_(b)))
    ra, rb = rng(a), rng(b)
    if ra[1] < rb[0] or rb[1] < ra[0]:
        return 0
    if isinstance(a, int):
        a, b = b, a
    if a.op == 'cat' or (isinstance(b, T) and b.op == 'cat'):
        bs = sorted(_bounds([a, b], w)) + [w]
        r = 1
        s = 0
        for e in bs:
            r = and_(r, eq(ext(a, s, e - s), ext(b, s, e - s), e - s), 1)
            if isinstance(r, int) and r == 0:
                return 0
            s = e
        return r
    if isinstance(b, int):
        if a.op == 'xor' and isinstance(a.args[-1], int):
            return eq(_mk_xor(0, set(a.args[:-1]), w), b ^ a.args[-1], w)
        if a.op == 'ite':
            x, y = a.args[1], a.args[2]
            if isinstance(x, int) or isinstance(y, int):
                ex, ey = eq(x, b, w), eq(y, b, w)
                if isinstance(ex, int) or isinstance(ey, int):
                    return ite(a.args[0], ex, ey, 1)
        if a.op == 'sext':
            x = a.args[0]
            if sext(b & M[x.w], x.w, w) != b:
                return 0
            return eq(x, b & M[x.w], x.w)
        if a.op == 'tbl':
            tab, idx = a.args
            hits = [i for i, v in enumerate(tab) if v == b]
            if not hits:
                return 0
            if len(hits) == 1:
                return eq(idx, hits[0], idx.w)
    if a.op == 'lin' or (isinstance(b, T) and b.op == 'lin'):
        d = sub(a, b, w)
        if isinstance(d, int):
            return int(d == 0)
        # canonical sign
        if d.op == 'lin' and d.args[1][0][1] > M[w] >> 1:
            d = neg(d, w)
        if d.op == 'lin':
            c, ts = d.args
            # parity argument
            g = M[w] + 1
            for _, k in ts:
                g = min(g, k & -k)
            if c & (g - 1):
                return 0
            if not _sum_may_be_zero(c, ts, w):
                return 0
            if len(ts) == 1 and ts[0][1] == 1:
                return mk('eq', (ts[0][0], (-c) & M[w]), 1)
            return mk('eq', (d, 0), 1)
        return mk('eq', (d, 0), 1)
    if isinstance(b, T) and a.id > b.id:
        a, b = b, a
    if isinstance(b, T):
        if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w:
            return eq(a.args[0], b.args[0], a.args[0].w)
        if a.op == 'xor' or b.op == 'xor':
            d = xor(a, b, w)
            if isinstance(d, int):
                return int(d == 0)
            if d.op == 'xor' and len(d.args) == 2:
                x, y = d.args
                if isinstance(y, T) and x.id > y.id:
                    x, y = y, x
                return mk('eq', (x, y), 1)
            return mk('eq', (d, 0), 1)
    return mk('eq', (a, b), 1)


def _sum_may_be_zero(c, ts, w):
    tot = 1 << w
    lo = hi = c
    for x, k in ts:
        r = rng(x)
        if k > M[w] >> 1:
            k -= tot
        v = (k * r[0], k * r[1])
        lo += min(v)
        hi += max(v)
    # is there a multiple of 2^w in [lo,hi]?
    return (hi // tot) * tot >= lo


def ne(a, b, w):
    return not_(eq(a, b, w))


def ult(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return int(a < b)
    if a is b:
        return 0
    ra, rb = rng(a), rng(b)
    if ra[1] < rb[0]:
        return 1
    if ra[0] >= rb[1]:
        return 0
    if isinstance(a, int) and a == 0:
        return ne(b, 0, w)
    if isinstance(b, int) and b == 1:
        return eq(a, 0, w)
    if w == 1:
        return and_(not_(a), b, 1)
    r = _ult_lin(a, b, w)
    if r is not None:
        return r
    a, b = _strip(a, b)
    return mk('ult', (a, b), 1)


def _strip(a, b):
    """drop common high zero bits"""
    aw = a.w if isinstance(a, T) else None
    bw = b.w if isinstance(b, T) else None
    w = aw or bw
    za = _hz(a, w)
    zb = _hz(b, w)
    z = min(za, zb)
    if z > 0 and z < w:
        return ext(a, 0, w - z), ext(b, 0, w - z)
    return a, b


def _hz(a, w):
    if isinstance(a, int):
        return w - a.bit_length()
    if a.op == 'cat' and isinstance(a.args[-1][0], int) and a.args[-1][0] == 0:
        return a.args[-1][1]
    return 0


def int_interval(t):
    """(lo, hi, form) of t read as an integer sum, or None if it may wrap.
    form: (const, {atom: signed coeff})"""
    if isinstance(t, int):
        return t, t, (t, {})
    w = t.w
    if t.op != 'lin':
        r = rng(t)
        return r[0], r[1], (0, {t: 1})
    c, ts = t.args
    tot = 1 << w
    for cc in (c, c - tot):
        lo = hi = cc
        d = {}
        for x, k in ts:
            r = rng(x)
            if k > M[w] >> 1:
                k -= tot
            v = (k * r[0], k * r[1])
            lo += min(v)
            hi += max(v)
            d[x] = k
        if lo >= 0 and hi < tot:
            return lo, hi, (cc, d)
    return None


def _ult_lin(a, b, w):
    """decide a<b by integer reasoning when neither side can wrap"""
    ia, ib = int_interval(a), int_interval(b)
    if ia is None or ib is None:
        return None
    c = ia[2][0] - ib[2][0]
    d = dict(ia[2][1])
    for x, k in ib[2][1].items():
        d[x] = d.get(x, 0) - k
    lo = hi = c
    for x, k in d.items():
        if k:
            r = rng(x)
            v = (k * r[0], k * r[1])
            lo += min(v)
            hi += max(v)
    if hi < 0:
        return 1
    if lo >= 0:
        return 0
    return None


def ule(a, b, w):
    return not_(ult(b, a, w))


def mk_ule(a, b):
    return mk('ule', (a, b), 1)


def slt(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return int(_sg(a, w) < _sg(b, w))
    if a is b:
        return 0
    half = 1 << (w - 1)
    ra, rb = rng(a), rng(b)
    na = 0 if ra[1] < half else (1 if ra[0] >= half else None)
    nb = 0 if rb[1] < half else (1 if rb[0] >= half else None)
    if na is not None and nb is not None:
        if na == nb:
            return ult(a, b, w)
        return int(na > nb)
    if isinstance(b, int) and b == 0:
        return ext(a, w - 1, 1)
    return mk('slt', (a, b), 1)


def sle(a, b, w):
    return not_(slt(b, a, w))


def ite(c, a, b, w):
    if isinstance(c, int):
        return a if c else b
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a, w)
    if w == 1:
        if isinstance(a, int):
            return or_(c, b, 1) if a else and_(not_(c), b, 1)
        if isinstance(b, int):
            return or_(not_(c), a, 1) if b else and_(c, a, 1)
        return mk('ite', (c, a, b), 1)
    if isinstance(a, T) and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, T) and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if (isinstance(a, T) and a.op == 'cat') or (isinstance(b, T) and b.op == 'cat'):
        # split so that constant / equal pieces stay visible
        bs = _bounds([a, b], w)
        pts = sorted(bs) + [w]
        out = []
        s = 0
        simpler = False
        for e in pts:
            x, y = ext(a, s, e - s), ext(b, s, e - s)
            if x is y or (isinstance(x, int) and isinstance(y, int)):
                simpler = True
            out.append((x, y, e - s))
            s = e
        if simpler:
            return cat([(ite(c, x, y, v), v) for x, y, v in out])
    return mk('ite', (c, a, b), w)


def b2i(b, w):
    """boolean to w-bit 0/1"""
    return zext(b, 1, w)


def tbl(table, idx, w):
    if isinstance(idx, int):
        return table[idx] if idx < len(table) else 0
    # leading constant bits of the index select a part of the table
    if idx.op == 'cat':
        k = sum(pw for _, pw in idx.args)
        hi = 0
        for p, pw in reversed(idx.args):
            if not isinstance(p, int):
                break
            hi = hi << pw | p
            k -= pw
        if 0 < k <= 16 and k < idx.w and (hi + 1) << k <= len(table):
            table = table[hi << k:(hi + 1) << k]
            idx = ext(idx, 0, k)
            if isinstance(idx, int):
                return table[idx]
    if all(v == table[0] for v in table):
        return table[0]
    return mk('tbl', (table, idx), w)


# ---------------------------------------------------------------- traversal

def rebuild(t, args):
    op, w = t.op, t.w
    f = _REB[op]
    return f(t, args, w)


def _fold(f):
    def g(t, args, w):
        r = args[0]
        for a in args[1:]:
            r = f(r, a, w)
        return r
    return g


def _argw(t):
    for a in t.args:
        if isinstance(a, T):
            return a.w
    return 64


_REB = {
    'uf': lambda t, a, w: uf(t.args[0], a, w),
    'ext': lambda t, a, w: ext(a[0], t.args[1], w),
    'sext': lambda t, a, w: sext(a[0], t.args[0].w, w),
    'xor': _fold(xor), 'and': _fold(and_), 'or': _fold(or_),
    'bxor': _fold(lambda a, b, w: xor(a, b, 1)),
    'not': lambda t, a, w: not_(a[0]),
    'mul': _fold(mul), 'shl': _fold(shl), 'lshr': _fold(lshr), 'ashr': _fold(ashr),
    'udiv': _fold(udiv), 'urem': _fold(urem), 'sdiv': _fold(sdiv), 'srem': _fold(srem),
    'eq': lambda t, a, w: eq(a[0], a[1], _argw(t)),
    'ult': lambda t, a, w: ult(a[0], a[1], _argw(t)),
    'ule': lambda t, a, w: ule(a[0], a[1], _argw(t)),
    'slt': lambda t, a, w: slt(a[0], a[1], _argw(t)),
    'ite': lambda t, a, w: ite(a[0], a[1], a[2], w),
}


def children(t):
    op = t.op
    if op == 'var':
        return ()
    if op == 'lin':
        return tuple(a for a, _ in t.args[1])
    if op == 'cat':
        return tuple(p for p, _ in t.args)
    if op == 'uf':
        return t.args[1:]
    if op == 'ext':
        return (t.args[0],)
    if op == 'tbl':
        return (t.args[1],)
    return t.args


def subst(t, m, memo=None):
    """m: dict var-term -> value"""
    if isinstance(t, int) or not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if isinstance(t, int):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif t.op == 'var':
        r = t
    elif not (vars_of(t) & m.keys()) and not any(k.op != 'var' for k in m):
        r = t
    elif t.op == 'lin':
        c, ts = t.args
        r = c
        for a, k in ts:
            r = add(r, mulc(_subst(a, m, memo), k, t.w), t.w)
    elif t.op == 'cat':
        r = cat([(_subst(p, m, memo), w) for p, w in t.args])
    elif t.op == 'tbl':
        r = tbl(t.args[0], _subst(t.args[1], m, memo), t.w)
    else:
        ch = children(t)
        na = [_subst(a, m, memo) for a in ch]
        if all(x is y or (isinstance(x, int) and isinstance(y, int) and x == y) for x, y in zip(ch, na)):
            r = t
        else:
            r = rebuild(t, na)
    memo[t] = r
    return r


def vars_of(t):
    if isinstance(t, int):
        return frozenset()
    r = t._vars
    if r is None:
        if t.op == 'var':
            r = frozenset((t,))
        else:
            r = frozenset()
            for c in children(t):
                if isinstance(c, T):
                    v = vars_of(c)
                    if not v <= r:
                        r = r | v
        t._vars = r
    return r


_atoms = {}


def atoms_of(t):
    """variables, and applications of uninterpreted functions without variables"""
    if isinstance(t, int):
        return frozenset()
    r = _atoms.get(t)
    if r is None:
        if t.op == 'var':
            r = frozenset((t,))
        elif t.op == 'uf' and not vars_of(t):
            r = frozenset((t,))
        else:
            r = frozenset()
            for c in children(t):
                if isinstance(c, T):
                    v = atoms_of(c)
                    if not v <= r:
                        r = r | v
        _atoms[t] = r
    return r


def ufs_of(t, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if isinstance(t, int) or t in seen:
        return acc
    seen.add(t)
    if t.op == 'uf':
        acc.add(t)
    for c in children(t):
        ufs_of(c, acc, seen)
    return acc


def size(t, seen=None):
    seen = set() if seen is None else seen
    if isinstance(t, int) or t in seen:
        return 0
    seen.add(t)
    return 1 + sum(size(c, seen) for c in children(t))


# ---------------------------------------------------------------- evaluation

def evaluate(t, vals, ufn, memo=None):
    """vals: function(var-term)->int, ufn: function(name, args, w)->int"""
    if memo is None:
        memo = {}
    return _ev(t, vals, ufn, memo)


def _ev(t, vals, ufn, memo):
    if isinstance(t, int):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op, w = t.op, t.w
    if op == 'var':
        r = vals(t) & M[w]
    elif op == 'lin':
        c, ts = t.args
        for a, k in ts:
            c += k * _ev(a, vals, ufn, memo)
        r = c & M[w]
    elif op == 'cat':
        r = 0
        s = 0
        for p, pw in t.args:
            r |= _ev(p, vals, ufn, memo) << s
            s += pw
    elif op == 'ite':
        r = _ev(t.args[1] if _ev(t.args[0], vals, ufn, memo) else t.args[2], vals, ufn, memo)
    elif op == 'uf':
        r = ufn(t.args[0], [_ev(a, vals, ufn, memo) for a in t.args[1:]], w) & M[w]
    elif op == 'tbl':
        r = tbl(t.args[0], _ev(t.args[1], vals, ufn, memo), w)
    elif op == 'ext':
        r = (_ev(t.args[0], vals, ufn, memo) >> t.args[1]) & M[w]
    elif op == 'ule':
        r = int(_ev(t.args[0], vals, ufn, memo) <= _ev(t.args[1], vals, ufn, memo))
    else:
        r = rebuild(t, [_ev(a, vals, ufn, memo) for a in children(t)])
    memo[t] = r
    return r
