"""Integer arithmetic back end.  64-bit terms are translated exactly into
integers (wrap-around made explicit by a quotient); what is not arithmetic is
replaced by an unknown, which can only make "unsat" harder to reach."""
from math import gcd
import z3
from . import terms as t
from .terms import T, M


class No(Exception):
    pass


class Tr:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.exact = True
        self.n = 0

    def fresh(self, lo, hi):
        self.n += 1
        v = z3.Int('k!%d' % self.n)
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        return v

    def num(self, x, w):
        """(integer expression, lo, hi)"""
        if isinstance(x, int):
            return (z3.IntVal(x), x, x)
        r = self.memo.get(x)
        if r is None:
            r = self._num(x)
            self.memo[x] = r
        return r

    def _num(self, x):
        op, w = x.op, x.w
        if w == 1:
            b = self.bool(x)
            return (z3.If(b, z3.IntVal(1), z3.IntVal(0)), 0, 1)
        if op == 'var':
            lo, hi = t._ranges.get(x) or (0, M[w])
            v = z3.Int(x.args[0])
            self.side.append(v >= lo)
            self.side.append(v <= hi)
            return (v, lo, hi)
        if op == 'lin':
            c, ts = x.args
            half = 1 << (w - 1)
            cs = c - (1 << w) if c >= half else c
            e, lo, hi = z3.IntVal(cs), cs, cs
            for a, k in ts:
                ae, al, ah = self.num(a, w)
                if k >= half:
                    k -= 1 << w
                e = e + k * ae
                if k >= 0:
                    lo, hi = lo + k * al, hi + k * ah
                else:
                    lo, hi = lo + k * ah, hi + k * al
            return self.wrap(e, lo, hi, w)
        if op == 'cat':
            e, lo, hi, sh = z3.IntVal(0), 0, 0, 0
            for p, pw in x.args:
                pe, pl, ph = self.num(p, pw)
                e = e + (1 << sh) * pe
                lo += pl << sh
                hi += ph << sh
                sh += pw
            return (e, lo, hi)
        if op == 'ext':
            a = x.args[0]
            e, lo, hi = self.num(a, a.w)
            s = x.args[1]
            if s + w < a.w and hi >> (s + w):
                q = self.fresh(lo >> (s + w), hi >> (s + w))
                r = self.fresh(0, M[s + w])
                self.side.append(e == (1 << (s + w)) * q + r)
                e, lo, hi = r, 0, M[s + w]
            if s:
                q = self.fresh(lo >> s, hi >> s)
                r = self.fresh(0, M[s])
                self.side.append(e == (1 << s) * q + r)
                e, lo, hi = q, lo >> s, hi >> s
            return (e, lo, hi)
        if op in ('udiv', 'urem') and isinstance(x.args[1], int) and x.args[1] > 0:
            d = x.args[1]
            e, lo, hi = self.num(x.args[0], w)
            q = self.fresh(lo // d, hi // d)
            r = self.fresh(0, d - 1)
            self.side.append(e == d * q + r)
            return (q, lo // d, hi // d) if op == 'udiv' else (r, 0, d - 1)
        if op == 'ite':
            b = self.bool(x.args[0])
            e1, l1, h1 = self.num(x.args[1], w)
            e2, l2, h2 = self.num(x.args[2], w)
            return (z3.If(b, e1, e2), min(l1, l2), max(h1, h2))
        self.exact = False
        v = z3.Int('u!%d' % id(x))
        lo, hi = t.rng(x) if hasattr(t, 'rng') else (0, M[w])
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        return (v, lo, hi)

    def wrap(self, e, lo, hi, w):
        m = 1 << w
        ql, qh = lo >> w, hi >> w
        if ql == qh:
            if ql:
                e = e - ql * m
            return (e, lo - ql * m, hi - ql * m)
        q = self.fresh(ql, qh)
        r = self.fresh(0, m - 1)
        self.side.append(e == m * q + r)
        return (r, 0, m - 1)

    def bool(self, x):
        if isinstance(x, int):
            return z3.BoolVal(bool(x))
        k = ('b', x)
        r = self.memo.get(k)
        if r is None:
            r = self._bool(x)
            self.memo[k] = r
        return r

    def _bool(self, x):
        op = x.op
        if op == 'not':
            return z3.Not(self.bool(x.args[0]))
        if op == 'and':
            return z3.And(*[self.bool(a) for a in x.args])
        if op == 'or':
            return z3.Or(*[self.bool(a) for a in x.args])
        if op in ('eq', 'ult', 'ule', 'slt'):
            v = 64
            for a in x.args:
                if isinstance(a, T):
                    v = a.w
                    break
            if op == 'slt':
                a, al, ah = self.num(x.args[0], v)
                b, bl, bh = self.num(x.args[1], v)
                h = 1 << (v - 1)
                sa = a if ah < h else (a - 2 * h if al >= h else z3.If(a >= h, a - 2 * h, a))
                sb = b if bh < h else (b - 2 * h if bl >= h else z3.If(b >= h, b - 2 * h, b))
                return sa < sb
            if v == 1:
                return self.bool(x.args[0]) == self.bool(x.args[1])
            a = self.num(x.args[0], v)[0]
            b = self.num(x.args[1], v)[0]
            return a == b if op == 'eq' else (a < b if op == 'ult' else a <= b)
        if op == 'ite':
            return z3.If(self.bool(x.args[0]), self.bool(x.args[1]), self.bool(x.args[2]))
        if op == 'var':
            return z3.Bool(x.args[0])
        self.exact = False
        return z3.Bool('c!%d' % id(x))


# ------------------------------------------------------------------ linear forms

_forms = {}


def linint(x, w):
    """(const, {atom: coefficient}, lo, hi): x as an integer when the sum does
    not wrap around for any values of the atoms in their ranges, else None"""
    if isinstance(x, int):
        return (x, {}, x, x)
    if x.op == 'lin':
        c, ts = x.args
        h = 1 << (w - 1)
        if c >= h:
            c -= 1 << w
        lo = hi = c
        d = {}
        for a, k in ts:
            if k >= h:
                k -= 1 << w
            l, u = t.rng(a)
            if k >= 0:
                lo += k * l
                hi += k * u
            else:
                lo += k * u
                hi += k * l
            d[a] = k
        if lo < 0 or hi > M[w]:
            q = lo >> w
            if q != hi >> w:
                return None
            c -= q << w
            lo -= q << w
            hi -= q << w
        return (c, d, lo, hi)
    lo, hi = t.rng(x)
    return (0, {x: 1}, lo, hi)


def diff(a, b, w, off):
    """a - b + off as (const, ((atom, coefficient), ...)) or None"""
    x, y = linint(a, w), linint(b, w)
    if x is None or y is None:
        return None
    d = dict(x[1])
    for k, v in y[1].items():
        n = d.get(k, 0) - v
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return (x[0] - y[0] + off, tuple(sorted(d.items(), key=lambda q: q[0].id)))


def form(f):
    """[('ge'|'eq'|'ne', const, terms)]: const + sum (>=, ==, !=) 0, or None"""
    r = _forms.get(f, 0)
    if r == 0:
        r = _forms[f] = _form(f)
    return r


def _form(f):
    neg = False
    if f.op == 'not':
        neg = True
        f = f.args[0]
    if f.op not in ('eq', 'ult', 'ule'):
        return None
    a, b = f.args
    w = a.w if isinstance(a, T) else b.w
    if w < 8:
        return None
    if f.op == 'eq':
        if b == 0 and isinstance(a, T) and a.op == 'lin':
            # sum == 0 modulo 2^w: as an integer when only one multiple of 2^w is in reach
            d = modzero(a, w)
        else:
            d = diff(a, b, w, 0)
        if d is None:
            return None
        return ('ne' if neg else 'eq',) + d
    if f.op == 'ult':
        d = diff(a, b, w, 0) if neg else diff(b, a, w, -1)
    else:
        d = diff(a, b, w, -1) if neg else diff(b, a, w, 0)
    return None if d is None else ('ge',) + d


def modzero(a, w):
    c, ts = a.args
    h = 1 << (w - 1)
    if c >= h:
        c -= 1 << w
    lo = hi = c
    d = []
    for x, k in ts:
        if k >= h:
            k -= 1 << w
        l, u = t.rng(x)
        lo += min(k * l, k * u)
        hi += max(k * l, k * u)
        d.append((x, k))
    q0, q1 = -((-lo) >> w), hi >> w     # multiples of 2^w in [lo, hi]
    if q1 < q0:
        return (1, ())                   # never zero
    if q0 != q1:
        return None
    return (c - (q0 << w), tuple(sorted(d, key=lambda q: q[0].id)))


def bound(const, terms):
    """range of const + terms"""
    lo = hi = const
    for x, k in terms:
        l, u = t.rng(x)
        if k >= 0:
            lo += k * l
            hi += k * u
        else:
            lo += k * u
            hi += k * l
    return lo, hi


def negterms(ts):
    return tuple((x, -k) for x, k in ts)


def narrow(cons, ne, b):
    """interval propagation; None when there is no solution"""
    b = dict(b)
    for rnd in range(12):
        ch = False
        for c, ts in cons:
            # c + sum >= 0
            hi = c
            for x, k in ts:
                l, u = b[x]
                hi += k * u if k > 0 else k * l
            if hi < 0:
                return None
            for x, k in ts:
                l, u = b[x]
                rest = hi - (k * u if k > 0 else k * l)
                if k > 0:
                    n = -(rest // k)            # x >= -rest / k
                    if n > l:
                        if n > u:
                            return None
                        b[x] = (n, u)
                        ch = True
                else:
                    n = rest // -k              # x <= rest / -k
                    if n < u:
                        if n < l:
                            return None
                        b[x] = (l, n)
                        ch = True
        for c, ts in ne:
            free = [(x, k) for x, k in ts if b[x][0] != b[x][1]]
            if len(free) > 1:
                continue
            s = c
            for x, k in ts:
                if b[x][0] == b[x][1]:
                    s += k * b[x][0]
            if not free:
                if s == 0:
                    return None
                continue
            x, k = free[0]
            if s % k:
                continue
            v = -s // k
            l, u = b[x]
            if v == l:
                b[x] = (l + 1, u)
                ch = True
            elif v == u:
                b[x] = (l, u - 1)
                ch = True
        if not ch:
            break
    return b


class Set:
    """facts as linear forms, without redundant ones"""
    def __init__(self, facts):
        self.rest = []
        self.ge = {}            # terms -> const, smallest
        self.bad = False
        ne = []
        facts = list(facts)
        while facts:
            f = facts.pop()
            if f.op == 'and' and f.w == 1:
                for g in f.args:
                    if isinstance(g, int):
                        if not g:
                            self.bad = True
                    else:
                        facts.append(g)
                continue
            r = form(f)
            if r is None:
                self.rest.append(f)
                continue
            k, c, ts = r
            if not ts:
                if (k == 'ge' and c < 0) or (k == 'eq' and c) or (k == 'ne' and not c):
                    self.bad = True
                continue
            g = 0
            for _, v in ts:
                g = gcd(g, v)
            if g > 1:
                if k == 'ge':
                    c //= g
                elif c % g:
                    if k == 'eq':
                        self.bad = True
                    continue
                else:
                    c //= g
                ts = tuple((x, v // g) for x, v in ts)
            if k == 'ge':
                self.add(c, ts)
            elif k == 'eq':
                self.add(c, ts)
                self.add(-c, negterms(ts))
            else:
                ne.append((c, ts))
        self.ne = []
        # x != its bound: a better bound
        ne.sort(key=lambda q: q[0])
        for rnd in range(3):
            left = []
            ch = False
            for c, ts in (ne if rnd % 2 == 0 else reversed(ne)):
                done = False
                for c2, t2 in ((c, ts), (-c, negterms(ts))):
                    lo = bound(c2, t2)[0]
                    b = self.ge.get(t2)
                    if b is not None:
                        lo = max(lo, c2 - b)        # t2 >= -b
                    if lo > 0:
                        done = True
                        break
                    if lo == 0:
                        self.add(c2 - 1, t2)
                        done = ch = True
                        break
                if not done:
                    left.append((c, ts))
            ne = sorted(left, key=lambda q: q[0])
            if not ch:
                break
        self.ne = ne
        for ts, c in list(self.ge.items()):
            lo, hi = bound(c, ts)
            if hi < 0:
                self.bad = True
            elif lo >= 0:
                del self.ge[ts]
        if not self.bad:
            self.propagate()
        if not self.bad:
            self.pairs()

    def propagate(self):
        self.cons = [(c, ts) for ts, c in self.ge.items()]
        b = {}
        for c, ts in self.cons + self.ne:
            for x, _ in ts:
                if x not in b:
                    b[x] = t.rng(x)
        self.b = narrow(self.cons, self.ne, b)
        if self.b is None:
            self.bad = True

    def guess(self):
        """a model, by trying the ends of the intervals"""
        if self.rest or any(x.op != 'var' for x in self.b):
            return None
        for pick in ((0, 1), (1, 0)):
            b = dict(self.b)
            ok = True
            for x in sorted(b, key=lambda x: x.id):
                if b[x][0] == b[x][1]:
                    continue
                for side in pick:
                    n = dict(b)
                    n[x] = (b[x][side],) * 2
                    n = narrow(self.cons, self.ne, n)
                    if n is not None:
                        b = n
                        break
                else:
                    ok = False
                    break
            if ok:
                m = {x: r[0] for x, r in b.items()}
                if satisfies(self, m):
                    return m
        return None

    def add(self, c, ts):
        b = self.ge.get(ts)
        if b is None or c < b:
            self.ge[ts] = c

    def pairs(self):
        """two facts that exclude each other"""
        it = [(c, dict(ts)) for ts, c in self.ge.items()]
        if len(it) > 40:
            return
        for i in range(len(it)):
            for j in range(i):
                d = dict(it[i][1])
                for k, v in it[j][1].items():
                    n = d.get(k, 0) + v
                    if n:
                        d[k] = n
                    else:
                        d.pop(k, None)
                if bound(it[i][0] + it[j][0], d.items())[1] < 0:
                    self.bad = True
                    return


_models = []


def try_models(S):
    for k, mdl in enumerate(_models):
        if satisfies(S, mdl):
            if k:
                _models.insert(0, _models.pop(k))
            return True
    return False


def satisfies(S, mdl):
    def val(x):
        v = mdl.get(x)
        if v is None:
            v = t.rng(x)[0]
        return v
    for ts, c in S.ge.items():
        for x, k in ts:
            if x.op != 'var':
                return False
            c += k * val(x)
        if c < 0:
            return False
    for c, ts in S.ne:
        for x, k in ts:
            if x.op != 'var':
                return False
            c += k * val(x)
        if c == 0:
            return False
    return True


def check(facts, timeout):
    """'unsat', 'sat' (exact), 'maybe' or 'unknown'"""
    S = Set(facts)
    if S.bad:
        return 'unsat'
    if not S.rest:
        if try_models(S):
            return 'sat'
        m = S.guess()
        if m is not None:
            _models.insert(0, m)
            del _models[30:]
            return 'sat'
    tr = Tr()
    s = z3.Solver()
    s.set('timeout', int(timeout))
    import os
    if os.environ.get('LIALOG'):
        open(os.environ['LIALOG'],'a').write(repr(([(c,[(k,t.show(x,3)) for x,k in ts]) for ts,c in S.ge.items()],[(c,[(k,t.show(x,3)) for x,k in ts]) for c,ts in S.ne],[t.show(f,4) for f in S.rest]))+'\n')

    def total(c, ts):
        e = z3.IntVal(c)
        for x, k in ts:
            e = e + k * tr.num(x, x.w)[0]
        return e
    for ts, c in S.ge.items():
        s.add(total(c, ts) >= 0)
    for c, ts in S.ne:
        s.add(total(c, ts) != 0)
    for f in S.rest:
        s.add(tr.bool(f))
    for c in tr.side:
        s.add(c)
    q = s.check()
    if q == z3.unsat:
        return 'unsat'
    if q == z3.sat:
        if tr.exact and not S.rest:
            m = s.model()
            mdl = {}
            for x in tr.memo:
                if isinstance(x, T) and x.op == 'var':
                    v = m.eval(tr.memo[x][0], model_completion=True)
                    mdl[x] = v.as_long()
            _models.insert(0, mdl)
            del _models[30:]
        return 'sat' if tr.exact else 'maybe'
    return 'unknown'


def value(facts, x):
    """a value x can have under the facts, when they are all linear"""
    S = Set(facts)
    if S.bad or S.rest:
        return None
    f = linint(x, x.w)
    if f is None or any(a.op != 'var' for a in f[1]):
        return None
    if not try_models(S):
        if check(facts, 2000) != 'sat' or not try_models(S):
            return None
    m = _models[0]
    v = f[0]
    for a, k in f[1].items():
        c = m.get(a)
        v += k * (t.rng(a)[0] if c is None else c)
    return v
