"""Back ends: canonical form (terms.py), GF(2) normal form, z3, cvc5."""
import functools
import os
import subprocess
import tempfile
import time
import z3
from . import terms as t
from . import lia
from .terms import T, M, children, vars_of

BV = z3.BitVecVal
ctx = z3.main_ctx()
_ufd = {}


def z(x, w):
    """z3 expression; width 1 -> Bool"""
    if isinstance(x, int):
        return z3.BoolVal(bool(x)) if w == 1 else z3.BitVecVal(x, w)
    if x.z is not None:
        return x.z
    # iterative post-order to keep python recursion shallow
    stack = [x]
    while stack:
        y = stack[-1]
        if y.z is not None:
            stack.pop()
            continue
        todo = [c for c in children(y) if isinstance(c, T) and c.z is None]
        if todo:
            stack.extend(todo)
            continue
        y.z = _z1(y)
        stack.pop()
    return x.z


def asbv(x, w):
    e = z(x, w)
    if w == 1:
        return z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    return e


def _aw(x):
    for a in x.args:
        if isinstance(a, T):
            return a.w
    return 64


def _z1(x):
    op, w = x.op, x.w
    if op == 'var':
        return z3.Bool(x.args[0]) if w == 1 else z3.BitVec(x.args[0], w)
    if op == 'uf':
        name = x.args[0]
        ws = tuple(a.w if isinstance(a, T) else 64 for a in x.args[1:])
        ws = UFSIG.get(name, (ws, w))[0]
        key = (name, ws, w)
        f = _ufd.get(key)
        if f is None:
            f = z3.Function(name, *([z3.BitVecSort(v) for v in ws] + [z3.BoolSort() if w == 1 else z3.BitVecSort(w)]))
            _ufd[key] = f
        return f(*[asbv(a, v) for a, v in zip(x.args[1:], ws)])
    if op == 'lin':
        c, ts = x.args
        e = None
        for a, k in ts:
            y = asbv(a, w)
            if k != 1:
                if k == M[w]:
                    y = -y
                elif k & (k - 1) == 0:
                    y = y << BV(k.bit_length() - 1, w)
                else:
                    y = BV(k, w) * y
            e = y if e is None else e + y
        if c:
            e = e + BV(c, w)
        return e
    if op == 'cat':
        ps = [asbv(p, pw) for p, pw in reversed(x.args)]
        return z3.Concat(*ps)
    if op == 'ext':
        e = z3.Extract(x.args[1] + w - 1, x.args[1], asbv(x.args[0], x.args[0].w))
        return e == BV(1, 1) if w == 1 else e
    if op == 'sext':
        a = x.args[0]
        return z3.SignExt(w - a.w, asbv(a, a.w))
    if op in ('xor', 'and', 'or') and w > 1:
        e = z(x.args[0], w)
        for a in x.args[1:]:
            y = z(a, w)
            e = e ^ y if op == 'xor' else (e & y if op == 'and' else e | y)
        return e
    if op == 'and':
        return z3.And(*[z(a, 1) for a in x.args])
    if op == 'bxor':
        e = z(x.args[0], 1)
        for a in x.args[1:]:
            e = z3.Xor(e, z(a, 1))
        return e
    if op == 'not':
        return z3.Not(z(x.args[0], 1))
    if op == 'ite':
        return z3.If(z(x.args[0], 1), z(x.args[1], w), z(x.args[2], w))
    if op == 'eq':
        v = _aw(x)
        return z(x.args[0], v) == z(x.args[1], v)
    if op in ('ult', 'ule', 'slt'):
        v = _aw(x)
        a, b = asbv(x.args[0], v), asbv(x.args[1], v)
        return z3.ULT(a, b) if op == 'ult' else (z3.ULE(a, b) if op == 'ule' else a < b)
    if op == 'tbl':
        tab, idx = x.args
        return _mux(tab, asbv(idx, idx.w), idx.w, w)
    a = asbv(x.args[0], w)
    b = asbv(x.args[1], w)
    if op == 'mul':
        return a * b
    if op == 'shl':
        return a << b
    if op == 'lshr':
        return z3.LShR(a, b)
    if op == 'ashr':
        return a >> b
    if op == 'udiv':
        return z3.UDiv(a, b)
    if op == 'urem':
        return z3.URem(a, b)
    if op == 'sdiv':
        return a / b
    if op == 'srem':
        return z3.SRem(a, b)
    raise RuntimeError('z3: ' + op)


def _mux(tab, idx, iw, w):
    n = 1
    k = 0
    while n < len(tab):
        n *= 2
        k += 1
    lv = [z3.BoolVal(bool(v)) if w == 1 else BV(v, w) for v in tab]
    while len(lv) < n:
        lv.append(lv[-1])
    b = 0
    while len(lv) > 1:
        bit = z3.Extract(b, b, idx) == BV(1, 1)
        lv = [z3.If(bit, lv[i + 1], lv[i]) if not lv[i].eq(lv[i + 1]) else lv[i] for i in range(0, len(lv), 2)]
        b += 1
    return lv[0]


UFSIG = {}


# ------------------------------------------------------------------ GF(2)

class TooBig(Exception):
    pass


class Gf2:
    """bit-level normal form: every bit is a set of atoms added modulo 2.
    Non-linear operations on bits make new atoms (canonical by operands)."""

    def __init__(self, limit=400000):
        self.memo = {}
        self.atoms = {}
        self.limit = limit
        self.work = 0

    def bits(self, x, w):
        if isinstance(x, int):
            return [1 if (x >> i) & 1 else 0 for i in range(w)]
        r = self.memo.get(x)
        if r is None:
            r = self._bits(x)
            self.memo[x] = r
        return r

    # a bit is 0, 1 or a frozenset of atoms, where atom 1 stands for the constant
    @staticmethod
    def norm(b):
        if b == 0:
            return frozenset()
        if b == 1:
            return frozenset((1,))
        return b

    @staticmethod
    def low(s):
        if not s:
            return 0
        if len(s) == 1 and 1 in s:
            return 1
        return s

    def bx(self, a, b):
        if a == 0:
            return b
        if b == 0:
            return a
        self.work += 1
        r = self.norm(a) ^ self.norm(b)
        if len(r) > 3000:
            raise TooBig()
        return self.low(r)

    def ba(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        if a == b:
            return a
        self.work += 1
        if self.work > self.limit:
            raise TooBig()
        k = ('and', frozenset((a, b)))
        return frozenset((k,))

    def _bits(self, x):
        op, w = x.op, x.w
        if op in ('xor', 'bxor'):
            r = self.bits(x.args[0], w)
            for a in x.args[1:]:
                s = self.bits(a, w)
                r = [self.bx(p, q) for p, q in zip(r, s)]
            return r
        if op == 'and':
            r = self.bits(x.args[0], w)
            for a in x.args[1:]:
                s = self.bits(a, w)
                r = [self.ba(p, q) for p, q in zip(r, s)]
            return r
        if op == 'or':
            r = self.bits(x.args[0], w)
            for a in x.args[1:]:
                s = self.bits(a, w)
                r = [self.bx(self.bx(p, q), self.ba(p, q)) for p, q in zip(r, s)]
            return r
        if op == 'not':
            return [self.bx(self.bits(x.args[0], 1)[0], 1)]
        if op == 'cat':
            r = []
            for p, pw in x.args:
                r += self.bits(p, pw)
            return r
        if op == 'ext':
            return self.bits(x.args[0], x.args[0].w)[x.args[1]:x.args[1] + w]
        if op == 'sext':
            a = x.args[0]
            r = self.bits(a, a.w)
            return r + [r[-1]] * (w - a.w)
        if op == 'ite':
            c = self.bits(x.args[0], 1)[0]
            a = self.bits(x.args[1], w)
            b = self.bits(x.args[2], w)
            return [self.bx(q, self.ba(c, self.bx(p, q))) for p, q in zip(a, b)]
        if op == 'shl' and isinstance(x.args[1], int):
            r = self.bits(x.args[0], w)
            return [0] * x.args[1] + r[:w - x.args[1]]
        if op == 'eq':
            v = _aw(x)
            a = self.bits(x.args[0], v)
            b = self.bits(x.args[1], v)
            d = [self.bx(p, q) for p, q in zip(a, b)]
            if any(q == 1 for q in d):
                return [0]
            d = [q for q in d if q != 0]
            if not d:
                return [1]
            if len(d) == 1:
                return [self.bx(d[0], 1)]
            return [frozenset((('eq', frozenset(d)),))]
        if op == 'lin':
            c, ts = x.args
            # sums whose terms cannot overlap are bitwise; others are atoms
            acc = self.bits(c, w)
            ok = True
            for a, k in ts:
                bb = self.bits(a, w)
                if k & (k - 1):
                    nz = [i for i in range(w) if bb[i] != 0]
                    if len(nz) > 1:
                        ok = False
                        break
                    # one bit times a constant
                    q = (k << nz[0] if nz else 0) & M[w]
                    bb = [bb[nz[0]] if q >> i & 1 else 0 for i in range(w)]
                else:
                    s = k.bit_length() - 1
                    bb = ([0] * s + bb)[:w]
                if any(p != 0 and q != 0 for p, q in zip(acc, bb)):
                    ok = False
                    break
                acc = [self.bx(p, q) for p, q in zip(acc, bb)]
            if ok:
                return acc
        if op == 'uf':
            # canonical arguments
            key = ('uf', x.args[0]) + tuple(self.key(a) for a in x.args[1:])
            return [frozenset(((key, i),)) for i in range(w)]
        if op == 'tbl':
            lin = affine(x.args[0])
            if lin:
                idx = self.bits(x.args[1], x.args[1].w)
                if all(q == 0 for q in idx[len(lin) - 1:]):
                    r = [lin[0] >> i & 1 for i in range(w)]
                    for q, v in zip(idx, lin[1:]):
                        r = [self.bx(p, q) if v >> i & 1 else p for i, p in enumerate(r)]
                    return r
            key = ('tbl', x.args[0], self.key(x.args[1]))
            return [frozenset(((key, i),)) for i in range(w)]
        return [frozenset(((x, i),)) for i in range(w)]

    def key(self, a):
        if isinstance(a, int):
            return a
        k = self.atoms.get(a)
        if k is None:
            b = tuple(self.bits(a, a.w))
            if all(isinstance(q, int) for q in b):
                k = sum(q << i for i, q in enumerate(b))
            else:
                k = self.atoms.setdefault(('k', b), ('k', len(self.atoms)))
            self.atoms[a] = k
        return k


@functools.lru_cache(maxsize=4096)
def affine(table):
    """[f(0), f(1) ^ f(0), f(2) ^ f(0), f(4) ^ f(0), ...] when f is affine"""
    n = len(table).bit_length() - 1
    if n < 1 or len(table) != 1 << n or not all(isinstance(v, int) for v in table):
        return None
    out = [table[0]] + [table[1 << k] ^ table[0] for k in range(n)]
    for i in range(1, len(table)):
        if table[i] != table[i & (i - 1)] ^ out[(i & -i).bit_length()]:
            return None
    return out


def gf2_equal(a, b, w):
    g = Gf2()
    try:
        return g.bits(a, w) == g.bits(b, w)
    except (TooBig, RecursionError):
        return False


def gf2_true(g):
    try:
        return Gf2().bits(g, 1) == [1]
    except (TooBig, RecursionError):
        return False


# ------------------------------------------------------------------ prover

class Model:
    def __init__(self, m):
        self.m = m

    def ev(self, x, w=None):
        if isinstance(x, int):
            return x
        v = self.m.eval(z(x, x.w), model_completion=True)
        if x.w == 1:
            return int(z3.is_true(v))
        try:
            return v.as_long()
        except Exception:
            return None

    def ufs(self):
        out = {}
        for d in self.m.decls():
            if d.arity() > 0:
                fi = self.m[d]
                ents = []
                try:
                    for k in range(fi.num_entries()):
                        e = fi.entry(k)
                        ents.append(([e.arg_value(q).as_long() for q in range(e.num_args())],
                                     int(z3.is_true(e.value())) if z3.is_bool(e.value()) else e.value().as_long()))
                    ev = fi.else_value()
                    els = None
                    if ev is not None and z3.is_bv_value(ev):
                        els = ev.as_long()
                    out[d.name()] = (ents, els)
                except Exception:
                    pass
        return out


class Stats:
    def __init__(self):
        self.by = {}
        self.time = 0.0
        self.queries = 0
        self.slow = []

    def add(self, who):
        self.by[who] = self.by.get(who, 0) + 1


def arith(f):
    """comparison of sums, for the integer back end"""
    r = _ar.get(f)
    if r is None:
        r = _arith(f)
        _ar[f] = r
    return r


_ar = {}


def _arith(f):
    if isinstance(f, int):
        return True
    if f.op == 'var':
        return True
    if f.op in ('not', 'and', 'eq', 'ult', 'ule', 'slt', 'lin', 'ext', 'ite', 'cat') or f.op == 'or' and f.w == 1:
        return all(arith(c) for c in children(f))
    if f.op in ('udiv', 'urem'):
        return isinstance(f.args[1], int) and f.args[1] > 0 and arith(f.args[0])
    return False


class Prover:
    def __init__(self, timeout_ms=20000, second=False):
        self.timeout = timeout_ms
        self.stats = Stats()
        self.cache = {}
        self.fcache = {}
        self.second = second

    # -- satisfiability of a conjunction (branch feasibility)
    def sat(self, facts, timeout=None):
        for f in facts:
            if isinstance(f, int):
                if not f:
                    return False
        fs = frozenset(f for f in facts if isinstance(f, T))
        for f in fs:
            if f.op == 'not' and f.args[0] in fs:
                return False
        r = self.fcache.get(fs)
        if r is None:
            t0 = time.time()
            q = lia.check(fs, 1500) if all(arith(f) for f in fs) else 'unknown'
            if q in ('unsat', 'sat'):
                self.stats.time += time.time() - t0
                self.stats.queries += 1
                r = self.fcache[fs] = q == 'sat'
                return r
            s = z3.Solver()
            s.set('timeout', timeout or 5000)
            for f in fs:
                s.add(z(f, 1))
            for v in self._ranges(fs):
                s.add(v)
            q = s.check()
            r = True if q == z3.sat else (False if q == z3.unsat else None)
            dt = time.time() - t0
            self.stats.time += dt
            self.stats.queries += 1
            if dt > 1:
                self.stats.slow.append(('sat', dt))
            self.fcache[fs] = r
        return r

    def _ranges(self, fs):
        vs = set()
        for f in fs:
            vs |= vars_of(f)
        out = []
        for v in vs:
            r = t._ranges.get(v)
            if r:
                lo, hi = r
                if lo:
                    out.append(z3.UGE(z(v, v.w), BV(lo, v.w)))
                if hi < M[v.w]:
                    out.append(z3.ULE(z(v, v.w), BV(hi, v.w)))
        return out

    def model(self, facts, timeout=None, extra=()):
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        fs = [f for f in facts if isinstance(f, T)]
        for f in fs:
            s.add(z(f, 1))
        for v in self._ranges(fs + [x for x in extra if isinstance(x, T)]):
            s.add(v)
        if s.check() == z3.sat:
            return Model(s.model())
        return None

    # -- validity: facts |- goal ; returns ('valid', backend) | ('sat', Model) | ('unknown', why)
    def valid(self, facts, goal, timeout=None, model=True):
        if isinstance(goal, int):
            if goal:
                return ('valid', 'syntactic')
            m = self.model(facts, timeout)
            if m is not None:
                return ('sat', m)
            if self.sat(facts) is False:
                return ('valid', 'z3')
            return ('unknown', 'cannot find a model')
        if goal in facts:
            return ('valid', 'syntactic')
        if goal.op == 'and':
            if any(g.op in ('not', 'bxor') for g in goal.args) and gf2_true(goal):
                return ('valid', 'gf2')
            who = 'syntactic'
            for g in goal.args:
                r = self.valid(facts, g, timeout)
                if r[0] != 'valid':
                    return r
                who = r[1]
            return ('valid', who)
        fs = [f for f in facts if isinstance(f, T)]
        key = (frozenset(fs), goal)
        r = self.cache.get(key)
        if r is not None:
            return r
        r = self._valid(fs, goal, timeout or self.timeout)
        if r[0] == 'valid':
            self.cache[key] = r
        return r

    def _valid(self, fs, goal, timeout):
        t0 = time.time()
        try:
            if goal.op == 'eq':
                v = _aw(goal)
                if gf2_equal(goal.args[0], goal.args[1], v):
                    return ('valid', 'gf2')
            elif goal.op in ('not', 'bxor') and goal.args[0].op in ('bxor', 'xor', 'eq', 'ite') and gf2_true(goal):
                return ('valid', 'gf2')
            # equal arguments, equal values
            g2 = self._congruence(fs, goal)
            if g2 is not goal:
                if isinstance(g2, int):
                    if g2:
                        return ('valid', 'congruence+z3-lia')
                elif g2.op == 'eq' and gf2_equal(g2.args[0], g2.args[1], _aw(g2)):
                    return ('valid', 'congruence+gf2')
            # arithmetic goals: only arithmetic facts at first
            if not t.ufs_of(goal):
                rel = self._slice([f for f in fs if not t.ufs_of(f)], goal)
                if arith(goal):
                    if lia.check([f for f in rel if arith(f)] + [t.not_(goal)], 3000) == 'unsat':
                        return ('valid', 'z3-lia')
                q, m = self._z3(rel, goal, min(timeout, 10000))
                if q == z3.unsat:
                    return ('valid', 'z3')
            q, m = self._z3(fs, goal, timeout)
            if q == z3.unsat:
                return ('valid', 'z3')
            if q == z3.sat:
                return ('sat', Model(m))
            q = self._cvc5(fs, goal, timeout)
            if q == 'unsat':
                return ('valid', 'cvc5')
            return ('unknown', 'z3 and cvc5 gave no answer in %d ms each' % timeout)
        finally:
            dt = time.time() - t0
            self.stats.time += dt
            self.stats.queries += 1
            if dt > .05:
                self.stats.slow.append((t.show(goal, 3), dt,[t.show(f,4) for f in fs]))

    def _congruence(self, fs, goal):
        """replace applications whose arguments are provably equal integers"""
        budget = 80
        while budget > 0:
            us = [u for u in t.ufs_of(goal) if len(u.args) == 2 and isinstance(u.args[1], T) and arith(u.args[1])]
            us.sort(key=lambda u: t.show(u, 3))
            done = True
            for i in range(len(us)):
                for j in range(i):
                    a, b = us[i], us[j]
                    if a.args[0] != b.args[0] or a.w != b.w:
                        continue
                    q = t.eq(a.args[1], b.args[1], 64)
                    if isinstance(q, int):
                        continue
                    k = (a, b)
                    budget -= 1
                    if budget <= 0:
                        return goal
                    rel = self._slice([f for f in fs if arith(f)], q)
                    if lia.check(rel + [t.not_(q)], 2000) == 'unsat':
                        goal = t.subst(goal, {a: b})
                        if isinstance(goal, int):
                            return goal
                        done = False
                        break
                if not done:
                    break
            if done:
                break
        return goal

    def _slice(self, fs, goal):
        vs = set(t.atoms_of(goal))
        out = []
        rest = list(fs)
        ch = True
        while ch:
            ch = False
            nxt = []
            for f in rest:
                fv = t.atoms_of(f)
                if fv & vs:
                    out.append(f)
                    vs |= fv
                    ch = True
                else:
                    nxt.append(f)
            rest = nxt
        return out

    def _z3(self, fs, goal, timeout):
        s = z3.Solver()
        s.set('timeout', int(timeout))
        for f in fs:
            s.add(z(f, 1))
        for v in self._ranges(list(fs) + [goal]):
            s.add(v)
        s.add(z3.Not(z(goal, 1)))
        q = s.check()
        return q, (s.model() if q == z3.sat else None)

    def smt2(self, fs, goal):
        s = z3.Solver()
        for f in fs:
            s.add(z(f, 1))
        for v in self._ranges(list(fs) + [goal]):
            s.add(v)
        s.add(z3.Not(z(goal, 1)))
        return '(set-logic QF_UFBV)\n' + s.to_smt2()

    def _cvc5(self, fs, goal, timeout):
        txt = self.smt2(fs, goal)
        fd, p = tempfile.mkstemp(suffix='.smt2')
        try:
            with os.fdopen(fd, 'w') as f:
                f.write(txt)
            r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, p], capture_output=True, text=True, timeout=timeout / 1000 + 10)
            out = r.stdout.strip().split('\n')[0] if r.stdout else ''
            return out
        except Exception:
            return 'unknown'
        finally:
            os.unlink(p)
