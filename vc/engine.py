"""Symbolic executor / verification-condition generator for lowered LLVM IR."""
import os
import re
import time
from . import terms as t
from .terms import T, M
from . import mem
from .mem import UNDEF, SMALL, BIGBIT, BIG
from . import ir
from .ir import Unsupported

SMALLBASE = 1 << 32


class Fork(Exception):
    """the current instruction needs this condition decided"""
    def __init__(self, cond):
        self.cond = cond


class Stop(Exception):
    """the path ends (kind, detail)"""
    def __init__(self, kind, detail=''):
        self.kind = kind
        self.detail = detail


class Frame:
    __slots__ = ('f', 'bi', 'ip', 'prev', 'regs', 'allocas', 'call', 'reveal', 'visits', 'vfork', 'quiet', 'uid')

    def clone(self):
        n = Frame()
        n.f = self.f
        n.bi = self.bi
        n.ip = self.ip
        n.prev = self.prev
        n.regs = list(self.regs)
        n.allocas = list(self.allocas)
        n.call = self.call
        n.reveal = self.reveal
        n.visits = {k: list(v) for k, v in self.visits.items()} if self.visits else None
        n.vfork = dict(self.vfork) if self.vfork else None
        n.quiet = self.quiet
        n.uid = self.uid
        return n


class State:
    __slots__ = ('frames', 'objs', 'reg', 'token', 'pc', 'pcset', 'defs', 'sub', 'nforks', 'exc', 'caught', 'gen',
                 'trace', 'cases', 'depth', 'frame0', 'watch', 'heap', 'inputs', 'tmpl', 'approx', 'opts', 'counter', 'dmemo',
                 'base_depth', 'live0')

    def clone(self, eng):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.objs = dict(self.objs)
        s.reg = dict(self.reg)
        s.pc = list(self.pc)
        s.pcset = set(self.pcset)
        s.defs = dict(self.defs)
        s.sub = dict(self.sub)
        s.nforks = self.nforks
        s.exc = self.exc
        s.caught = list(self.caught)
        s.gen = list(self.gen)
        s.trace = list(self.trace)
        s.cases = list(self.cases)
        s.depth = self.depth
        s.frame0 = self.frame0
        s.watch = self.watch
        s.heap = self.heap
        s.inputs = list(self.inputs)
        s.tmpl = list(self.tmpl)
        s.approx = list(self.approx)
        s.opts = dict(self.opts)
        s.counter = dict(self.counter)
        s.dmemo = {}
        s.base_depth = self.base_depth
        s.live0 = self.live0
        # copy on write: neither side owns the shared objects any more
        s.token = eng.new_token()
        self.token = eng.new_token()
        return s


class Failure:
    def __init__(self, kind, label, loc, status, detail, st, model=None):
        self.kind = kind            # safety | post | frame | depth | ...
        self.label = label
        self.loc = loc
        self.status = status        # refuted | undecided
        self.detail = detail
        self.trace = list(st.trace) if st else []
        self.approx = list(st.approx) if st else []
        self.model = model          # dict

    def key(self):
        return (self.kind, self.label, self.loc)


def ordered(a, b):
    """do these locks order two accesses?  ('init', g) is held while a static
    object is initialised (once), ('done', g) from then on"""
    for x in a:
        if x[0] == 'done':
            if ('init', x[1]) in b:
                return True
        elif x in b or (x[0] == 'init' and ('done', x[1]) in b):
            return True
    return False


CONTRACTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')


def contract_globals():
    names = {'enc'}
    for f in os.listdir(CONTRACTS):
        if f.endswith(('.cpp', '.h')):
            with open(os.path.join(CONTRACTS, f)) as x:
                names |= set(re.findall(r'\bg_\w+', x.read()))
    return re.compile(r'_ZGV|(_ZL\d+|_ZN12_GLOBAL__N_1L?\d+)?(%s)(E?$|\.)|_ZZL3enc' % '|'.join(sorted(names)))


CONTRACT_GLOBAL = contract_globals()
PRIMITIVE = ('uf_F', 'uf_K', 'uf_S')


def same_level(c):
    """False when c compares a callee's contract (spe_..) with what the code
    computes without calling it: the solver knows nothing about that"""
    if not isinstance(c, T):
        return True
    memo = {}

    def names(x):
        """bit 1: contracts, bit 2: parts of keys"""
        r = memo.get(x)
        if r is None:
            r = 0
            if x.op == 'uf':
                r = 1 if x.args[0].startswith('spe') else 2 if x.args[0] in PRIMITIVE else 0
            for y in t.children(x):
                r |= names(y) if isinstance(y, T) else 0
            memo[x] = r
        return r

    def eqs(x, seen):
        if x in seen:
            return True
        seen.add(x)
        if x.op == 'eq':
            a, b = [names(y) if isinstance(y, T) else 0 for y in x.args[:2]]
            if (a ^ b) & 1:
                return False
        return all(eqs(y, seen) for y in t.children(x) if isinstance(y, T))
    return names(c) != 3 and eqs(c, set())


def constructor(module, name):
    """the function of this name, or the only constructor of the class with as
    many arguments (a class passed by value is passed by address)"""
    if name in module.funcs:
        return name
    pre = name[:name.index('C2E') + 3]
    k = module.funcs[next(n for n in module.funcs if n.endswith(name))].nparams
    c = [n for n, F in module.funcs.items() if n.startswith(pre) and F.nparams == k and n[len(pre):] not in ('RKS1_', 'OS1_')]
    return c[0] if len(c) == 1 else None


class Engine:
    def __init__(self, module, prover, opaque=(), hooks=None, opts=None):
        self.m = module
        self.p = prover
        self.opaque = set(opaque)
        self.h_replace = {}
        self.h_ctor = {}
        # contracts of callees: True for the functions vcr_/vcp_/spe_, 'B' for vcrB_/vcpB_/speB_
        hs = hooks if isinstance(hooks, str) else ''
        if hooks:
            for n in module.funcs:
                if n.startswith('vcr%s_' % hs) and n[4 + len(hs):] in module.funcs:
                    self.h_replace[n[4 + len(hs):]] = n
                elif n.startswith('vcp%s_' % hs):
                    c = constructor(module, n[4 + len(hs):])
                    if c:
                        self.h_ctor[c] = n
        for n in module.funcs:
            if n.startswith('sp_') or (hooks and n.startswith('spe%s_' % hs)):
                self.opaque.add(n)
        self._cong = {}
        self.accel = None       # a run from the iteration of a loop that breaks its invariant
        self.opts = {'kmin': 12, 'window': 10, 'maxvisits': 44, 'maxsteps': 4000000, 'maxpaths': 20000,
                     'checktimeout': 20000, 'attempts': 5, 'maxdepth': 600, 'kinds': None}
        self.opts.update(opts or {})
        self._tok = 1
        self._oid = 1
        self._uid = 0
        self.nomatch = []
        self.suspects = []
        self.nmatch = 0
        self._small = SMALLBASE
        self._big = BIGBIT
        self.gobj = {}
        self.shares = []
        self.shlog = {}
        self.nrace = 0
        self.failures = []
        self.oblig = {}             # (kind,label,loc) -> [count, {backend:n}]
        self.nob = 0
        self.paths = 0
        self.covers = {}
        self.steps = 0
        self.maxdepth = 0
        self.calls = {}             # functions executed (inlined)
        self.contracts_used = {}
        self.bounded = []           # why some paths were cut
        self.loopsdone = []
        self.assumed = {}
        self.externs = {}
        self.deadline = None
        self.tinames = {}
        for n, g, sz in module.gvlist:
            base = self._small + (1 << (SMALL - 1))
            if sz > (1 << (SMALL - 1)):
                self._small += (sz >> SMALL) << SMALL
            self._small += 1 << SMALL
            module.gaddr[g] = base
            self.gobj[base >> SMALL] = (n, g, sz, base)
            if n.startswith('_ZTI'):
                self.tinames[base] = n
        self.gname = {n: module.gaddr[g] for n, g, sz in module.gvlist}
        from . import models
        models.install(self)
        self.H = {'bin': self.i_bin, 'icmp': self.i_icmp, 'load': self.i_load, 'store': self.i_store, 'gep': self.i_gep,
                  'alloca': self.i_alloca, 'allocadyn': self.i_allocadyn, 'trunc': self.i_trunc, 'zext': self.i_zext,
                  'sext': self.i_sext, 'mov': self.i_mov, 'select': self.i_select, 'br': self.i_br, 'cbr': self.i_cbr,
                  'switch': self.i_switch, 'ret': self.i_ret, 'unreachable': self.i_unreachable, 'call': self.i_call,
                  'invoke': self.i_invoke, 'landingpad': self.i_landingpad, 'resume': self.i_resume,
                  'extractvalue': self.i_extractvalue, 'insertvalue': self.i_insertvalue,
                  'atomicrmw': self.i_atomicrmw, 'cmpxchg': self.i_cmpxchg, 'unsupported': self.i_unsupported}

    # ------------------------------------------------------------ states
    def new_token(self):
        self._tok += 1
        return self._tok

    def init_state(self):
        s = State()
        s.frames = []
        s.objs = {}
        s.reg = {}
        s.token = self.new_token()
        s.pc = []
        s.pcset = set()
        s.defs = {}
        s.sub = {}
        s.nforks = 0
        s.exc = None
        s.caught = []
        s.gen = []
        s.trace = []
        s.cases = []
        s.depth = 0
        s.frame0 = None
        s.watch = None
        s.heap = 0
        s.inputs = []
        s.tmpl = []
        s.approx = []
        s.opts = {}
        s.counter = {}
        s.dmemo = {}
        s.base_depth = 0
        s.live0 = None
        return s

    # ------------------------------------------------------------ objects
    def alloc(self, st, size, kind, name=''):
        oid = self._oid
        self._oid += 1
        big = not isinstance(size, int) or size > (1 << (SMALL - 1)) - 64
        if big:
            base = self._big + (1 << (BIG - 1))
            self._big += 1 << BIG
            key = ('b', base >> BIG)
        else:
            base = self._small + (1 << (SMALL - 1))
            self._small += 1 << SMALL
            key = base >> SMALL
        o = mem.new_obj(oid, base, size, kind, name, st.token)
        if not isinstance(size, int):
            o.layers = ()
        st.objs[oid] = o
        st.reg[key] = oid
        if kind == 'heap':
            st.heap += 1
        return o

    def find(self, st, a):
        """object for a concrete address (region), or None"""
        if a >= BIGBIT:
            k = ('b', a >> BIG)
        else:
            k = a >> SMALL
        oid = st.reg.get(k)
        if oid is not None:
            return st.objs[oid]
        g = self.gobj.get(k) if a < BIGBIT else None
        if g is None:
            return None
        return self.load_global(st, k, g)

    def load_global(self, st, k, g):
        n, ptr, sz, base = g
        oid = self._oid
        self._oid += 1
        o = mem.new_obj(oid, base, sz, 'global', n, st.token)
        o.ro = bool(ir.GVConst(ptr))
        init = ir.GVInit(ptr) if not ir.IsDecl(ptr) else None
        if n in self.ext_globals:
            v, nb = self.ext_globals[n]
            mem.put(o, 0, nb, v)
            o.size = max(sz, nb)
        elif init:
            try:
                self.init_const(o, 0, init)
            except Unsupported as e:
                raise Stop('unsupported', 'global %s: %s' % (n, e))
        st.objs[oid] = o
        st.reg[k] = oid
        return o

    def load_globals(self, st):
        """every variable of static storage duration, used or not yet"""
        for k, g in self.gobj.items():
            if k not in st.reg and not ir.GVConst(g[1]) and not ir.IsDecl(g[1]) and not ir.GVTLS(g[1]):
                self.load_global(st, k, g)

    def init_const(self, o, off, v):
        m = self.m
        k = ir.Kind(v)
        ty = ir.TypeOf(v)
        tk = ir.TypeKind(ty)
        if k == ir.VK_CAZ or (tk in (ir.TK_STRUCT, ir.TK_ARR) and ir.IsNull(v)):
            n = ir.ABISize(m.dl, ty)
            for i in range(0, n - n % 8, 8):
                o.slots[off + i] = (0, 8)
            for i in range(n - n % 8, n):
                o.slots[off + i] = (0, 1)
            return
        if k in (ir.VK_UNDEF, ir.VK_POISON):
            return
        if k == ir.VK_CSTRUCT:
            for i in range(ir.NOps(v)):
                self.init_const(o, off + ir.OffsetOf(m.dl, ty, i), ir.Op(v, i))
            return
        if k == ir.VK_CARR:
            es = ir.ABISize(m.dl, ir.ElemType(ty))
            for i in range(ir.NOps(v)):
                self.init_const(o, off + es * i, ir.Op(v, i))
            return
        if k == ir.VK_CDA:
            es = ir.ABISize(m.dl, ir.ElemType(ty))
            vals = m.const(v)
            for i, x in enumerate(vals):
                o.slots[off + es * i] = (x, es)
            return
        n = ir.StoreSize(m.dl, ty)
        c = m.const(v)
        if isinstance(c, str):
            return
        o.slots[off] = (c, n)

    def own(self, st, o):
        if o.kind == 'global':
            self.static_state(st, o)
        if o.owner != st.token:
            o = o.clone(st.token)
            st.objs[o.id] = o
        return o

    def static_state(self, st, o, v=None):
        """the harnesses start from the initial values of static objects; code
        that changes them, or initialises them with what the first call was
        given, has histories that no harness begins with"""
        if o.name == 'errno' or CONTRACT_GLOBAL.match(o.name):
            return
        init = st.opts.get('guarded')
        if o.kind == 'global':
            if init is not None and v is None:
                return
        elif init is None or o.kind != 'heap':
            return
        if init is not None:
            if isinstance(v, int):
                p = self.find(st, v) if v >= 4096 else None
                if p is None or p.kind == 'global' or p.id > init:
                    return
            elif not isinstance(v, T):
                return
        d = 'histories with static state are not covered'
        if not any(x[1] == d for x in self.bounded):
            self.bounded.append(('unsupported', d, self.loc(st)))

    # ------------------------------------------------------------ facts
    def simp(self, st, x):
        """apply learned equalities"""
        if isinstance(x, int) or not st.sub:
            return x
        return t.subst(x, st.sub, st.dmemo)

    def assume(self, st, c):
        c = self.simp(st, c)
        if isinstance(c, int):
            if not c:
                raise Stop('infeasible')
            return
        if c.op == 'and':
            for a in c.args:
                self.assume(st, a)
            return
        if c in st.pcset:
            return
        st.pc.append(c)
        st.pcset.add(c)
        if c.op == 'eq':
            self.learn(st, c)

    def learn(self, st, c):
        """var == term  ->  substitution"""
        a, b = c.args
        w = t._argw(c)
        cand = None
        if isinstance(a, T) and a.op == 'var' and a not in t.vars_of(b):
            cand = (a, b)
        elif isinstance(b, T) and b.op == 'var' and b not in t.vars_of(a):
            cand = (b, a)
        elif isinstance(a, T) and a.op == 'lin' and b == 0:
            cc, ts = a.args
            best = None
            for x, k in ts:
                if x.op == 'var' and (k == 1 or k == M[w]):
                    # substitute the variable that is not a loop counter, latest first
                    if best is None or (x.args[0].startswith('loop') < best[0].args[0].startswith('loop')):
                        best = (x, k)
            if best:
                x, k = best
                rest = t.sub(a, t.mulc(x, k, w), w)
                val = t.neg(rest, w) if k == 1 else rest
                if x not in t.vars_of(val):
                    cand = (x, val)
            elif w == 64:
                # as integers: divide by the common factor
                from .lia import modzero
                from math import gcd
                mz = modzero(a, w)
                if mz is not None and mz[1]:
                    g = 0
                    for _, k in mz[1]:
                        g = gcd(g, k)
                    if mz[0] % g:
                        raise Stop('infeasible')
                    if g > 1:
                        s = (mz[0] // g) & M[w]
                        for x, k in mz[1]:
                            s = t.add(s, t.mulc(x, (k // g) & M[w], w), w)
                        if isinstance(s, T):
                            self.assume(st, t.eq(s, 0, w))
                        return
        if cand:
            x, v = cand
            m = {x: v}
            for k in list(st.sub):
                st.sub[k] = t.subst(st.sub[k], m)
            st.sub[x] = v
            st.dmemo = {}
            r = t._ranges.get(x)
            if r and isinstance(v, T):
                # keep what was known about the replaced variable
                for f in (t.ule(v, r[1], w), t.ule(r[0], v, w)):
                    if isinstance(f, T) and f not in st.pcset:
                        st.pc.append(f)
                        st.pcset.add(f)

    def facts(self, st):
        if not st.sub:
            return st.pc
        out = []
        for f in st.pc:
            g = t.subst(f, st.sub, st.dmemo)
            if isinstance(g, T):
                out.append(g)
                if g is not f and f.op == 'eq':
                    pass
            elif g == 0:
                return [0]
        return out

    def all_facts(self, st):
        """facts plus definitions of revealed spec functions"""
        fs = list(self.facts(st))
        for k, v in st.defs.items():
            e = t.eq(self.simp(st, k), self.simp(st, v), k.w)
            if isinstance(e, T):
                fs.append(e)
        return fs

    def unfold(self, st, x):
        if isinstance(x, int) or not st.defs:
            return x
        for _ in range(60):
            y = t.subst(x, st.defs, {})
            if y is x or isinstance(y, int):
                return y
            x = y
        return x

    def decide(self, st, c, timeout=3000):
        """1/0 when c is decided by the path condition, else None"""
        c = self.simp(st, c)
        if isinstance(c, int):
            return c
        if c in st.pcset:
            return 1
        n = t.not_(c)
        if isinstance(n, T) and n in st.pcset:
            return 0
        fs = self.relevant(st, c)
        if self.p.sat(fs + [n], timeout) is False:
            return 1
        if self.p.sat(fs + [c], timeout) is False:
            return 0
        return None

    def relevant(self, st, c):
        fs = self.facts(st)
        if not t.ufs_of(c):
            return self.p._slice([f for f in fs if isinstance(f, int) or not t.ufs_of(f)], c)
        if st.defs:
            return self.p._slice(self.all_facts(st), c)
        return self.p._slice(fs, c)

    def known(self, st, c):
        """is c entailed?  (cheap proof attempt)"""
        c = self.simp(st, c)
        if isinstance(c, int):
            return bool(c)
        if c in st.pcset:
            return True
        return self.p.sat(self.relevant(st, c) + [t.not_(c)], 3000) is False

    # ------------------------------------------------------------ obligations
    def loc(self, st):
        for fr in reversed(st.frames):
            b = fr.f.blocks[fr.bi]
            i = min(fr.ip, len(b.ins) - 1)
            ins = b.ins[i]
            fl = ins.file or ''
            if 'goost/' in fl or 'contracts/' in fl:
                return '%s:%d' % (fl.replace('/repo/', ''), ins.line)
        return '?'

    def check(self, st, kind, cond, label):
        """an obligation; on failure it is recorded and assumed from here on"""
        loc = self.loc(st)
        cond = self.simp(st, cond)
        self.nob += 1
        key = (kind, label, loc)
        rec = self.oblig.get(key)
        if rec is None:
            rec = self.oblig[key] = [0, {}]
        rec[0] += 1
        if isinstance(cond, int) and cond:
            rec[1]['canonical-form'] = rec[1].get('canonical-form', 0) + 1
            return True
        r = self.prove(st, cond)
        if r[0] == 'valid':
            who = {'syntactic': 'canonical-form'}.get(r[1], r[1])
            rec[1][who] = rec[1].get(who, 0) + 1
            return True
        if r[0] == 'sat':
            mod = self.describe(st, r[1])
            f = Failure(kind, label, loc, 'refuted', t.show(cond, 5)[:2000], st, mod)
            if not self.accel and not same_level(self.unfold(st, cond)):
                f.approx.append('the contract of a callee is compared with a body')
            self.failures.append(f)
        else:
            self.failures.append(Failure(kind, label, loc, 'undecided', r[1] + ': ' + t.show(cond, 5)[:2000], st))
        self.on_failure(st)
        self.assume(st, cond)
        return False

    def on_failure(self, st):
        if st.gen or self.accel:
            raise Stop('genfail', 'obligation failed inside the inductive step')

    def prove(self, st, cond):
        if isinstance(cond, int) and cond:
            return ('valid', 'syntactic')
        if isinstance(cond, T):
            if cond in st.pcset:
                return ('valid', 'syntactic')
            c2 = self.unfold(st, cond)
            if isinstance(c2, int) and c2:
                return ('valid', 'syntactic')
            if isinstance(c2, T) and c2.op == 'eq' and c2 is not cond:
                from .solve import gf2_equal
                if gf2_equal(c2.args[0], c2.args[1], t._argw(c2)):
                    return ('valid', 'gf2')
            if isinstance(c2, T) and st.defs:
                c3 = self.spec_congruence(st, c2)
                if isinstance(c3, int):
                    if c3:
                        return ('valid', 'congruence+z3-lia')
                elif c3 is not c2 and c3.op == 'eq':
                    from .solve import gf2_equal
                    if gf2_equal(c3.args[0], c3.args[1], t._argw(c3)):
                        return ('valid', 'congruence+gf2')
        return self.p.valid(self.all_facts(st), cond, self.opts['checktimeout'])

    def spec_congruence(self, st, c):
        """unfold applications of spec functions whose argument is provably
        the one of a revealed application"""
        from . import lia
        from .solve import arith
        fs = None
        for _ in range(6):
            sub = {}
            for u in t.ufs_of(c):
                if not u.args[0].startswith('sp') or len(u.args) != 2 or not isinstance(u.args[1], T) or not arith(u.args[1]):
                    continue
                for k in st.defs:
                    if k.args[0] != u.args[0] or k.w != u.w:
                        continue
                    q = t.eq(u.args[1], self.simp(st, k.args[1]), 64)
                    if isinstance(q, int):
                        if q:
                            sub[u] = k
                            break
                        continue
                    if not arith(q):
                        continue
                    if fs is None:
                        fs = [f for f in self.facts(st) if isinstance(f, T) and arith(f)]
                    key = (q, tuple(fs))
                    r = self._cong.get(key)
                    if r is None:
                        rel = self.p._slice(fs, q)
                        t0 = time.time()
                        r = self._cong[key] = lia.check(rel + [t.not_(q)], 2000) == 'unsat'
                        self.p.stats.time += time.time() - t0
                        self.p.stats.queries += 1
                    if r:
                        sub[u] = k
                        break
            if not sub:
                return c
            c = self.unfold(st, self.simp(st, t.subst(c, sub)))
            if isinstance(c, int):
                return c
        return c

    def describe(self, st, model):
        d = {'inputs': {}, 'ufs': {}}
        for name, x in st.inputs:
            y = self.simp(st, x)
            v = model.ev(y)
            d['inputs'][name] = v
        try:
            d['ufs'] = model.ufs()
        except Exception:
            pass
        return d

    # ------------------------------------------------------------ memory access
    def split_addr(self, st, a):
        """-> (obj, off) where off may be a term; raises Stop/Fork"""
        if not isinstance(a, int):
            a = self.simp(st, a)
        if isinstance(a, int):
            o = self.find(st, a)
            if o is None:
                return None, a
            return o, a - o.base
        if a.op == 'ite':
            raise Fork(a.args[0])
        c = 0
        if a.op == 'cat' and isinstance(a.args[-1][0], int) and a.args[-1][0]:
            # aligned base, index in the lower bits
            pos = base = 0
            low = []
            for x, w in a.args:
                if isinstance(x, int):
                    base |= x << pos
                    low.append((0, w))
                else:
                    low.append((x, w))
                pos += w
            o = self.find(st, base)
            if o is not None:
                return o, t.add(t.cat(low), base - o.base, 64)
        if a.op == 'lin':
            c = a.args[0]
            for x, k in a.args[1]:
                if x.op == 'ite':
                    raise Fork(x.args[0])
        o = self.find(st, c) if c >= (1 << SMALL) else None
        if o is None:
            return None, a
        return o, t.sub(a, o.base, 64)

    def access(self, st, a, n, what):
        """bounds / liveness obligations; returns (obj, off)"""
        o, off = self.split_addr(st, a)
        if o is None:
            if isinstance(a, int) and a < 4096:
                self.check(st, 'safety', 0, 'null pointer dereference (%s)' % what)
                raise Stop('ub')
            if isinstance(a, int) or (a.op == 'lin' and a.args[0] >= SMALLBASE):
                self.check(st, 'safety', 0, 'access to released memory or an invalid address (%s)' % what)
                raise Stop('ub')
            if any(v.args[0].startswith('undef') for v in t.vars_of(a)):
                self.check(st, 'safety', 0, 'use of an uninitialised pointer (%s)' % what)
                raise Stop('ub')
            raise Stop('unsupported', 'address of unknown object: ' + t.show(a, 4))
        if not o.alive:
            self.check(st, 'safety', 0, 'access to released memory (%s)' % what)
            raise Stop('ub')
        if 'share' in st.opts:
            self.shared(st, o, off, n, what)
        if isinstance(off, int) and isinstance(o.size, int):
            if off < 0 or off + n > o.size:
                self.check(st, 'safety', 0, 'access outside of an object (%s)' % what)
                raise Stop('ub')
            self.nbounds += 1
            return o, off
        if isinstance(off, int):
            if off < 0:
                self.check(st, 'safety', 0, 'access outside of an object (%s)' % what)
                raise Stop('ub')
        w = 64
        sz = o.size
        lim = t.sub(sz, n, w)
        cond = t.and_(t.ule(n, sz, w), t.ule(off & M[64] if isinstance(off, int) else off, lim, w), 1)
        if not self.check(st, 'safety', cond, 'access inside of the object (%s)' % what):
            raise Stop('ub')
        return o, self.simp(st, off)

    nbounds = 0
    atomic = False

    # data races: every access to what threads share, with the locks held
    def shared(self, st, o, off, n, what):
        sh = st.opts['share']
        if o.id not in self.shares[sh] or o.ro or what == 'lock':
            return
        rd = what in ('read', 'copy source')
        k = (off if isinstance(off, int) else None, n if isinstance(n, int) else None, rd, self.atomic, st.opts.get('locks', ()))
        self.shlog.setdefault((sh, o.id), {}).setdefault(k, (self.loc(st), o.kind, o.name))

    def races(self):
        """conflicting accesses without a common lock"""
        out = []
        for key, d in self.shlog.items():
            es = list(d.items())
            for i, (a, la) in enumerate(es):
                if a[2]:
                    continue
                for b, lb in es:
                    if a[3] and b[3]:
                        continue
                    if a[0] is not None and b[0] is not None and a[1] is not None and b[1] is not None \
                            and (a[0] + a[1] <= b[0] or b[0] + b[1] <= a[0]):
                        continue
                    self.nrace += 1
                    if not ordered(a[4], b[4]):
                        out.append((la, lb))
        return out

    def undef(self, w):
        return t.fresh('undef', w)

    def load_val(self, st, a, ty, n):
        if ty[0] == 's':
            return tuple(self.load_val(st, self.ptr_add(a, o), x, self.tysize(x)) for o, x in ty[1])
        if ty[0] != 'i':
            raise Stop('unsupported', 'load of type %s' % (ty,))
        o, off = self.access(st, a, n, 'read')
        v = self.read(st, o, off, n)
        w = ty[1]
        if isinstance(v, str):
            return self.undef(w)
        if w != 8 * n:
            v = t.ext(v, 0, w)
        return v

    def tysize(self, ty):
        if ty[0] == 'i':
            return (ty[1] + 7) // 8
        return ty[2]

    def ptr_add(self, a, k):
        if k == 0:
            return a
        return t.add(a, k, 64)

    def read(self, st, o, off, n):
        """n bytes at off (in bounds)"""
        if o.layers is not None:
            return self.read_layers(st, o, len(o.layers), off, n)
        if isinstance(off, int):
            return mem.get(o, off, n)
        return self.read_mux(st, o, off, n)

    def offsets(self, st, off, limit=1024):
        """possible values of an offset: (atom, [(atom value, offset)]) or None"""
        if off.op == 'lin':
            c, ts = off.args
            if len(ts) == 1:
                a, k = ts[0]
            else:
                return None
        else:
            c, a, k = 0, off, 1
        lo, hi = t.rng(a)
        if hi - lo + 1 > limit:
            return None
        return a, [(v, (c + k * v) & M[64]) for v in range(lo, hi + 1)]

    def read_mux(self, st, o, off, n):
        r = self.offsets(st, off)
        if r is None:
            v = self.concretize(st, off)
            return mem.get(o, v, n)
        a, cand = r
        vals = []
        for v, p in cand:
            if p + n <= o.size:
                vals.append((v, mem.get(o, p, n)))
        if any(isinstance(x, str) for _, x in vals):
            # some candidates are uninitialised: decide which are possible
            v = self.concretize(st, off)
            return mem.get(o, v, n)
        w = 8 * n
        if all(isinstance(x, int) for _, x in vals):
            hi = max(v for v, _ in vals)
            tab = [0] * (hi + 1)
            for v, x in vals:
                tab[v] = x
            a2 = a
            if isinstance(a2, T) and a2.op == 'cat' and len(a2.args) == 2 and a2.args[1][0] == 0:
                a2 = a2.args[0][0]
            return t.tbl(tuple(tab), a2, w)
        return self.mux(a, vals, w)

    def mux(self, a, vals, w):
        """ite tree over the bits of a"""
        d = dict(vals)
        hi = max(d)
        k = max(1, hi.bit_length())
        any_v = vals[0][1]

        def rec(bit, prefix):
            if bit < 0:
                return d.get(prefix, any_v)
            x = rec(bit - 1, prefix | (1 << bit))
            y = rec(bit - 1, prefix)
            if x is y:
                return x
            return t.ite(t.ext(a, bit, 1), x, y, w)
        return rec(k - 1, 0)

    def concretize(self, st, x, limit=80):
        """force x to a concrete value by forking on its feasible values"""
        x = self.simp(st, x)
        if isinstance(x, int):
            return x
        r = t._ranges.get(x) if x.op == 'var' else None
        if r and r[1] - r[0] < limit:
            for v in range(r[0], r[1] + 1):
                c = t.eq(x, v, x.w)
                if t.not_(c) in st.pcset:
                    continue
                if v == r[1]:
                    self.assume(st, c)
                    return v
                raise Fork(c)
        from . import lia
        v = lia.value(self.relevant(st, x), x)
        if v is None:
            m = self.p.model(self.relevant(st, x), 5000, [x])
            if m is None:
                raise Stop('infeasible')
            v = m.ev(x)
        k = ('conc', x.id)
        c = t.eq(x, v, x.w)
        if self.known(st, c):
            self.assume(st, c)
            return v
        st.counter[k] = st.counter.get(k, 0) + 1
        if st.counter[k] > limit:
            raise Stop('unsupported', 'too many values for ' + t.show(x, 3))
        raise Fork(c)

    # layered objects ------------------------------------------------
    def below(self, st, a, b):
        """a < b entailed? (64 bit unsigned)"""
        c = self.simp(st, t.ult(a, b, 64))
        if isinstance(c, int):
            return bool(c)
        return self.known(st, c)

    def read_layers(self, st, o, top, off, n):
        i = top
        if n == 1 and not isinstance(off, int):
            # single writes behind a prefix: is it the prefix that is read?
            j = i
            while j > 0 and o.layers[j - 1][0] == 'w':
                j -= 1
            if 0 < j < i and o.layers[j - 1][0] == 'p':
                ln = o.layers[j - 1][1]
                ds = [t.sub(o.layers[q][1], ln, 64) for q in range(j, i)]
                if all(isinstance(d, int) and d < (1 << 32) for d in ds):
                    c = t.ult(off, ln, 64)
                    q = self.decide(st, c)
                    if q is None:
                        raise Fork(c)
                    if q == 1:
                        i = j
        while i > 0:
            i -= 1
            ly = o.layers[i]
            k = ly[0]
            if k == 'w':
                _, wo, wn, val = ly
                d = t.sub(off, wo, 64)
                d = self.simp(st, d)
                if isinstance(d, int):
                    if d >= M[64] - 64:
                        d -= 1 << 64
                    if d >= wn or d + n <= 0:
                        continue
                    if d >= 0 and d + n <= wn:
                        return val if isinstance(val, str) else t.ext(val, 8 * d, 8 * n)
                    return self.read_bytes(st, o, i + 1, off, n)
                # not a constant distance
                if self.below(st, t.add(wo, wn - 1, 64), off) or self.below(st, t.add(off, n - 1, 64), wo):
                    continue
                if n > 1:
                    return self.read_bytes(st, o, i + 1, off, n)
                if wn == 1:
                    raise Fork(t.eq(off, wo, 64))
                raise Fork(t.ult(d, wn, 64))
            if k == 'z' or k == 'c':
                co, ln = ly[1], ly[2]
                rel = self.simp(st, t.sub(off, co, 64))
                inside = t.ult(rel, ln, 64)
                if n > 1:
                    inside = t.and_(inside, t.ule(n, t.sub(ln, rel, 64), 64), 1)
                q = self.decide(st, inside)
                if q == 1:
                    if k == 'z':
                        return ly[3] if n == 1 or isinstance(ly[3], str) else t.cat([(ly[3], 8)] * n)
                    return self.read_any(st, ly[3], t.add(ly[4], rel, 64), n)
                if n > 1:
                    if self.below(st, t.add(off, n - 1, 64), co) or self.known(st, t.ule(t.add(co, ln, 64), off, 64)):
                        continue
                    return self.read_bytes(st, o, i + 1, off, n)
                if q == 0:
                    continue
                raise Fork(inside)
            if k == 'p':
                # prefix [0,len) given by a template
                _, ln, fn = ly
                inside = t.ult(off, ln, 64)
                if n > 1:
                    inside = t.and_(inside, t.ule(n, t.sub(ln, off, 64), 64), 1)
                q = self.decide(st, inside)
                if q == 1:
                    return self.fn_read(st, fn, off, n)
                if n > 1:
                    if self.known(st, t.ule(ln, off, 64)):
                        continue
                    return self.read_bytes(st, o, i + 1, off, n)
                if q == 0:
                    continue
                raise Fork(inside)
            if k == 'f':
                return self.fn_read(st, ly[1], off, n)
            raise Stop('unsupported', 'layer ' + k)
        return 0 if o.zero else UNDEF

    def read_any(self, st, o, off, n):
        off = self.simp(st, off)
        if o.layers is not None:
            return self.read_layers(st, o, len(o.layers), off, n)
        if isinstance(off, int):
            return mem.get(o, off, n)
        return self.read_mux(st, o, off, n)

    def read_bytes(self, st, o, top, off, n):
        parts = []
        for j in range(n):
            b = self.read_layers(st, o, top, t.add(off, j, 64), 1)
            if isinstance(b, str):
                return UNDEF
            parts.append((b, 8))
        return t.cat(parts)

    def fn_read(self, st, fn, off, n):
        """fn = (kind, name, start, elem bytes)"""
        _, name, start, eb = fn[:4]
        if len(fn) > 4:
            off = t.add(off, fn[4], 64)
        if eb == 1:
            return t.cat([(t.uf(name, (self.simp(st, t.add(start, t.add(off, j, 64), 64)),), 8), 8) for j in range(n)])
        # words: off = eb * e + r
        r = t.and_(off, eb - 1, 64)
        r = self.simp(st, r)
        if not isinstance(r, int):
            r = self.concretize(st, r)
        e = t.lshr(t.sub(off, r, 64), eb.bit_length() - 1, 64)
        parts = []
        left = n
        while left > 0:
            k = min(eb - r, left)
            wv = t.uf(name, (self.simp(st, t.add(start, e, 64)),), 8 * eb)
            parts.append((t.ext(wv, 8 * r, 8 * k), 8 * k))
            left -= k
            r = 0
            e = t.add(e, 1, 64)
        return t.cat(parts)

    def write(self, st, a, n, v, what='write'):
        o, off = self.access(st, a, n, what)
        if o.ro:
            self.check(st, 'safety', 0, 'write to constant memory')
            raise Stop('ub')
        self.write_obj(st, o, off, n, v)

    def write_obj(self, st, o, off, n, v):
        if st.watch is not None and o.id in st.watch:
            self.watched_write(st, o, off, n)
        if 'guarded' in st.opts:
            self.static_state(st, o, v)
        o = self.own(st, o)
        if o.layers is not None:
            o.layers = o.layers + (('w', off, n, v),)
            return
        if isinstance(off, int):
            while n > 8:
                mem.put(o, off, 8, v if isinstance(v, str) else t.ext(v, 0, 64))
                v = v if isinstance(v, str) else t.ext(v, 64, 8 * (n - 8))
                off += 8
                n -= 8
            mem.put(o, off, n, v)
            return
        r = self.offsets(st, off, 256)
        if r is None:
            c = self.concretize(st, off)
            mem.put(o, c, n, v)
            return
        if isinstance(v, str):
            v = self.undef(8 * n)
        atom, cand = r
        for av, p in cand:
            if p + n > o.size:
                continue
            old = mem.get(o, p, n)
            if isinstance(old, str):
                c = self.concretize(st, off)
                mem.put(o, c, n, v)
                return
        for av, p in cand:
            if p + n > o.size:
                continue
            old = mem.get(o, p, n)
            mem.put(o, p, n, t.ite(t.eq(atom, av, atom.w), v, old, 8 * n))

    def watched_write(self, st, o, off, n):
        st.frame0 = st.frame0 | {o.id}

    def store_val(self, st, a, v, ty, n):
        if ty[0] == 's':
            for (o, x), e in zip(ty[1], v):
                self.store_val(st, self.ptr_add(a, o), e, x, self.tysize(x))
            return
        w = ty[1]
        if isinstance(v, T) and w != 8 * n:
            v = t.zext(v, w, 8 * n)
        self.write(st, a, n, v)

    def copy(self, st, dst, src, n, what='copy'):
        """memmove"""
        n = self.simp(st, n)
        if isinstance(n, int):
            if n == 0:
                return
            so, soff = self.access(st, src, n, 'copy source')
            do, doff = self.access(st, dst, n, 'copy destination')
            if do.ro:
                self.check(st, 'safety', 0, 'write to constant memory')
                raise Stop('ub')
            if so.layers is None and do.layers is None and isinstance(soff, int) and isinstance(doff, int):
                if st.watch is not None and do.id in st.watch:
                    self.watched_write(st, do, doff, n)
                # move slots
                items = []
                i = 0
                while i < n:
                    c = so.slots.get(soff + i)
                    if c is not None and c[1] <= n - i:
                        items.append((i, c[1], c[0]))
                        i += c[1]
                    else:
                        items.append((i, 1, mem.get_byte(so, soff + i)))
                        i += 1
                do = self.own(st, do)
                mem.clear_range(do, doff, n)
                for i, k, v in items:
                    if isinstance(v, str):
                        do.slots[doff + i] = (UNDEF, k)
                    else:
                        do.slots[doff + i] = (v, k)
                return
            if n <= 64:
                vals = []
                i = 0
                while i < n:
                    k = 8 if n - i >= 8 else 1
                    v = self.read(st, so, t.add(soff, i, 64), k)
                    vals.append((i, k, v))
                    i += k
                for i, k, v in vals:
                    o2 = st.objs[do.id]
                    self.write_obj(st, o2, self.simp(st, t.add(doff, i, 64)), k, v)
                return
        else:
            if self.known(st, t.eq(n, 0, 64)):
                return
        # symbolic length (or long)
        so, soff = self.split_addr(st, src)
        do, doff = self.split_addr(st, dst)
        if so is None or do is None:
            q = self.decide(st, t.eq(n, 0, 64))
            if q == 1:
                return
            if q is None:
                raise Fork(t.eq(n, 0, 64))
            raise Stop('unsupported', 'copy of unknown objects')
        for o, off, w in ((so, soff, 'copy source'), (do, doff, 'copy destination')):
            if not o.alive:
                self.check(st, 'safety', 0, 'access to released memory (%s)' % w)
                raise Stop('ub')
            cond = t.and_(t.ule(off & M[64] if isinstance(off, int) else off, o.size, 64),
                          t.ule(n, t.sub(o.size, off, 64), 64), 1)
            if not self.check(st, 'safety', cond, 'access inside of the object (%s)' % w):
                raise Stop('ub')
            if 'share' in st.opts:
                self.shared(st, o, off, n, w)
        if do.layers is None:
            n = self.concretize(st, n)
            return self.copy(st, dst, src, n, what)
        if st.watch is not None and do.id in st.watch:
            self.watched_write(st, do, doff, n)
        # freeze the source version
        so = st.objs[so.id]
        so.owner = 0
        do = self.own(st, do)
        do.layers = do.layers + (('c', doff, n, so, soff),)

    def fill(self, st, dst, v, n):
        n = self.simp(st, n)
        if isinstance(n, int):
            if n == 0:
                return
            do, doff = self.access(st, dst, n, 'fill')
            if do.layers is None and isinstance(doff, int):
                for i in range(n):
                    self.write_obj(st, st.objs[do.id], doff + i, 1, v)
                return
        do, doff = self.split_addr(st, dst)
        if do is None:
            q = self.decide(st, t.eq(n, 0, 64))
            if q == 1:
                return
            if q is None:
                raise Fork(t.eq(n, 0, 64))
            raise Stop('unsupported', 'fill of unknown object')
        cond = t.and_(t.ule(doff, do.size, 64), t.ule(n, t.sub(do.size, doff, 64), 64), 1)
        if not self.check(st, 'safety', cond, 'access inside of the object (fill)'):
            raise Stop('ub')
        if 'share' in st.opts:
            self.shared(st, do, doff, n, 'fill')
        if do.layers is None:
            n = self.concretize(st, n)
            return self.fill(st, dst, v, n)
        if st.watch is not None and do.id in st.watch:
            self.watched_write(st, do, doff, n)
        do = self.own(st, do)
        do.layers = do.layers + (('z', doff, n, v),)

    # ------------------------------------------------------------ running
    def push(self, st, F, args, call=None, reveal=None):
        if not F.lowered:
            self.m.lower(F)
        fr = Frame()
        fr.f = F
        fr.bi = 0
        fr.ip = 0
        fr.prev = -1
        fr.regs = list(args) + [None] * (F.nregs - len(args)) + F.consts
        fr.allocas = []
        fr.call = call
        fr.reveal = reveal
        fr.visits = None
        fr.vfork = None
        fr.quiet = False
        self._uid += 1
        fr.uid = self._uid
        st.frames.append(fr)
        d = len(st.frames)
        if d > st.depth:
            st.depth = d
        if d > self.maxdepth:
            self.maxdepth = d
        if d > self.opts['maxdepth']:
            raise Stop('bounded', 'call depth over %d' % self.opts['maxdepth'])
        c = self.calls
        c[F.name] = c.get(F.name, 0) + 1

    def explore(self, st0):
        """all paths from st0; returns list of (kind, detail) of path ends"""
        work = [st0]
        ends = []
        while work:
            st = work.pop()
            if self.deadline and time.time() > self.deadline:
                raise Stop('bounded', 'time limit')
            r = self.run(st, work)
            ends.append(r)
            self.paths += 1
            if self.paths > self.opts['maxpaths']:
                raise Stop('bounded', 'path limit')
        return ends

    def run(self, st, work):
        try:
            while True:
                fr = st.frames[-1]
                ins = fr.f.blocks[fr.bi].ins[fr.ip]
                try:
                    h = ins.h
                    if h is None:
                        h = ins.h = self.H[ins.op].__func__
                    h(self, st, fr, ins)
                except Fork as e:
                    self.atomic = False
                    self.fork(st, e.cond, work)
                self.steps += 1
                if not self.steps & 0x3fff and self.deadline and time.time() > self.deadline:
                    raise Stop('bounded', 'time limit')
        except Stop as e:
            self.atomic = False
            if e.kind == 'genfail':
                raise
            if e.kind in ('unsupported', 'bounded'):
                self.bounded.append((e.kind, e.detail, self.loc(st)))
                if st.gen:
                    raise Stop('genfail', e.detail)
            return (e.kind, e.detail)

    def fork(self, st, cond, work):
        """decide cond: continue st with one side, push the other"""
        cond = self.simp(st, cond)
        q = self.decide(st, cond)
        if q is None:
            other = st.clone(self)
            st.nforks += 1
            other.nforks += 1
            self.assume(other, t.not_(cond))
            work.append(other)
            self.assume(st, cond)
            return
        # decided: remember it so that re-execution sees it
        if q:
            self.assume(st, cond)
            if cond not in st.pcset and isinstance(cond, T):
                st.pcset.add(cond)
        else:
            n = t.not_(cond)
            self.assume(st, n)
        if isinstance(self.simp(st, cond), T) and self.simp(st, cond) not in st.pcset and t.not_(self.simp(st, cond)) not in st.pcset:
            raise Stop('unsupported', 'fork makes no progress on ' + t.show(cond, 4))

    # ------------------------------------------------------------ instructions
    BIN = {'add': t.add, 'sub': t.sub, 'mul': t.mul, 'and': t.and_, 'or': t.or_, 'xor': t.xor, 'shl': t.shl,
           'lshr': t.lshr, 'ashr': t.ashr, 'udiv': t.udiv, 'sdiv': t.sdiv, 'urem': t.urem, 'srem': t.srem}

    def val(self, v, w):
        if isinstance(v, str):
            return self.undef(w)
        return v

    def i_bin(self, st, fr, ins):
        op, a, b, w, nsw, nuw = ins.a
        R = fr.regs
        a = R[a]
        b = R[b]
        if isinstance(a, str):
            a = self.undef(w)
        if isinstance(b, str):
            b = self.undef(w)
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Stop('unsupported', 'operation on %r' % (a,))
        if op in ('shl', 'lshr', 'ashr'):
            if isinstance(b, int):
                if b >= w:
                    self.check(st, 'safety', 0, 'shift amount is less than the width')
                    raise Stop('ub')
            else:
                b = self.simp(st, b)
                if not self.check(st, 'safety', t.ult(b, w, w), 'shift amount is less than the width'):
                    raise Stop('ub')
                if not isinstance(b, int):
                    b = self.small_shift(st, b)
        elif op in ('udiv', 'sdiv', 'urem', 'srem'):
            if not isinstance(b, int) or b == 0:
                if not self.check(st, 'safety', t.ne(b, 0, w), 'divisor is not zero'):
                    raise Stop('ub')
            if op == 'sdiv' or op == 'srem':
                a = self.simp(st, a)
                if isinstance(b, int) and not isinstance(a, int):
                    # pointer differences: non-negative when provable
                    if t.rng(a)[1] >> (w - 1) and b < 1 << (w - 1):
                        if self.known(st, t.not_(t.ext(a, w - 1, 1))):
                            r = t.udiv(a, b, w) if op == 'sdiv' else t.urem(a, b, w)
                            R[ins.dst] = self.div_lin(st, a, b, w, r) if op == 'sdiv' else r
                            fr.ip += 1
                            return
        elif op == 'lshr' and not isinstance(a, int):
            a = self.simp(st, a)
        if nsw and (w >= 32):
            self.check_nsw(st, op, a, b, w)
        r = self.BIN[op](a, b, w)
        if not isinstance(r, int):
            if op in ('lshr', 'udiv', 'ashr') and isinstance(b, int) and not isinstance(a, int):
                k = b if op != 'udiv' else (b.bit_length() - 1 if b & (b - 1) == 0 else None)
                if k is not None and op != 'ashr':
                    r = self.div_lin(st, a, 1 << k, w, r)
                elif op == 'ashr' and a.op == 'lin' and self.known(st, t.not_(t.ext(a, w - 1, 1))):
                    r = self.div_lin(st, a, 1 << b, w, t.lshr(a, b, w))
        R[ins.dst] = r
        fr.ip += 1

    def small_shift(self, st, b):
        """symbolic shift amounts: decide the value when there is only one"""
        lo, hi = t.rng(b)
        if lo == hi:
            return lo
        return b

    def div_lin(self, st, a, d, w, r):
        """(sum)/d for sums with coefficients divisible by d: exact when the
        sum does not wrap, which ranges or the path condition may show"""
        if not isinstance(a, T) or a.op != 'lin' or (isinstance(r, T) and r.op == 'lin'):
            return r
        c, ts = a.args
        if any(k % d for _, k in ts):
            # coefficients as negative numbers
            if any(((k - (1 << w)) if k > M[w] >> 1 else k) % d for _, k in ts):
                return r
        tot = 1 << w
        # candidate quotient q; valid if q*d + (c mod d) == a as integers: prove q <= max/d
        for cc in (c, c - tot):
            q = t.mk_lin(cc // d, {x: ((k - tot) if k > M[w] >> 1 else k) // d for x, k in ts}, w)
            cond = t.ule(q, (tot - 1) // d, w)
            if self.known(st, cond):
                return q
        return r

    def check_nsw(self, st, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            x, y = t._sg(a, w), t._sg(b, w)
            r = x + y if op == 'add' else (x - y if op == 'sub' else (x * y if op == 'mul' else x << y))
            if not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                self.check(st, 'safety', 0, 'signed arithmetic does not overflow')
                raise Stop('ub')
            return
        ra, rb = t.rng(a), t.rng(b)
        half = 1 << (w - 1)

        def sr(r):
            if r[1] < half:
                return r
            if r[0] >= half:
                return (r[0] - 2 * half, r[1] - 2 * half)
            return (-half, half - 1)
        x, y = sr(ra), sr(rb)
        if op == 'add':
            lo, hi = x[0] + y[0], x[1] + y[1]
        elif op == 'sub':
            lo, hi = x[0] - y[1], x[1] - y[0]
        elif op == 'mul':
            p = [i * j for i in x for j in y]
            lo, hi = min(p), max(p)
        else:
            return
        if -half <= lo and hi < half:
            return
        if op in ('add', 'sub'):
            sa, sb = t.ext(a, w - 1, 1), t.ext(b, w - 1, 1)
            r = t.add(a, b, w) if op == 'add' else t.sub(a, b, w)
            s = t.ext(r, w - 1, 1)
            if op == 'add':
                ov = t.and_(t.eq(sa, sb, 1), t.ne(sa, s, 1), 1)
            else:
                ov = t.and_(t.ne(sa, sb, 1), t.ne(sa, s, 1), 1)
            if not self.check(st, 'safety', t.not_(ov), 'signed arithmetic does not overflow'):
                raise Stop('ub')
        else:
            p = t.mul(t.sext(a, w, 2 * w), t.sext(b, w, 2 * w), 2 * w)
            c = t.eq(p, t.sext(t.ext(p, 0, w), w, 2 * w), 2 * w)
            if not self.check(st, 'safety', c, 'signed arithmetic does not overflow'):
                raise Stop('ub')

    def i_icmp(self, st, fr, ins):
        p, a, b, w = ins.a
        R = fr.regs
        a = R[a]
        b = R[b]
        if isinstance(a, str):
            a = self.undef(w)
        if isinstance(b, str):
            b = self.undef(w)
        if st.sub:
            a = self.simp(st, a)
            b = self.simp(st, b)
        if p == 'eq':
            r = t.eq(a, b, w)
        elif p == 'ne':
            r = t.ne(a, b, w)
        elif p == 'ult':
            r = t.ult(a, b, w)
        elif p == 'ule':
            r = t.ule(a, b, w)
        elif p == 'ugt':
            r = t.ult(b, a, w)
        elif p == 'uge':
            r = t.ule(b, a, w)
        elif p == 'slt':
            r = t.slt(a, b, w)
        elif p == 'sle':
            r = t.sle(a, b, w)
        elif p == 'sgt':
            r = t.slt(b, a, w)
        else:
            r = t.sle(b, a, w)
        R[ins.dst] = r
        fr.ip += 1

    def i_load(self, st, fr, ins):
        a, ty, n, at = ins.a
        self.atomic = at
        fr.regs[ins.dst] = self.load_val(st, fr.regs[a], ty, n)
        self.atomic = False
        fr.ip += 1

    def i_store(self, st, fr, ins):
        v, a, ty, n, at = ins.a
        self.atomic = at
        self.store_val(st, fr.regs[a], fr.regs[v], ty, n)
        self.atomic = False
        fr.ip += 1

    def i_gep(self, st, fr, ins):
        b, off, dyn = ins.a
        a = fr.regs[b]
        if isinstance(a, str):
            a = self.undef(64)
        if dyn:
            for r, w, sz in dyn:
                x = fr.regs[r]
                if isinstance(x, str):
                    x = self.undef(w)
                if w != 64:
                    x = t.sext(x, w, 64)
                a = t.add(a, t.mulc(self.simp(st, x), sz, 64), 64)
        if off:
            a = t.add(a, off & M[64], 64)
        fr.regs[ins.dst] = a
        fr.ip += 1

    def i_alloca(self, st, fr, ins):
        o = self.alloc(st, ins.a[0], 'stack', fr.f.name)
        fr.allocas.append(o.id)
        fr.regs[ins.dst] = o.base
        fr.ip += 1

    def i_allocadyn(self, st, fr, ins):
        sz, n, w = ins.a
        k = self.simp(st, fr.regs[n])
        if not isinstance(k, int):
            raise Stop('unsupported', 'variable sized stack object')
        o = self.alloc(st, sz * k, 'stack', fr.f.name)
        fr.allocas.append(o.id)
        fr.regs[ins.dst] = o.base
        fr.ip += 1

    def i_trunc(self, st, fr, ins):
        a, fw, w = ins.a
        v = fr.regs[a]
        fr.regs[ins.dst] = t.ext(v, 0, w) if not isinstance(v, str) else v
        fr.ip += 1

    def i_zext(self, st, fr, ins):
        a, fw, w = ins.a
        v = fr.regs[a]
        if isinstance(v, str):
            v = self.undef(fw)
        fr.regs[ins.dst] = t.zext(v, fw, w)
        fr.ip += 1

    def i_sext(self, st, fr, ins):
        a, fw, w = ins.a
        v = fr.regs[a]
        if isinstance(v, str):
            v = self.undef(fw)
        fr.regs[ins.dst] = t.sext(v, fw, w)
        fr.ip += 1

    def i_mov(self, st, fr, ins):
        fr.regs[ins.dst] = fr.regs[ins.a[0]]
        fr.ip += 1

    def i_select(self, st, fr, ins):
        c, a, b, ty = ins.a
        R = fr.regs
        c = self.simp(st, R[c])
        if isinstance(c, str):
            c = self.undef(1)
        if isinstance(c, int):
            R[ins.dst] = R[a] if c else R[b]
        else:
            x, y = R[a], R[b]
            if ty[0] != 'i' or isinstance(x, str) or isinstance(y, str) or self.ispointer(st, x) or self.ispointer(st, y):
                raise Fork(c)
            R[ins.dst] = t.ite(c, x, y, ty[1])
        fr.ip += 1

    def ispointer(self, st, v):
        if isinstance(v, int):
            return v >= SMALLBASE and v < (1 << 63) and self.find(st, v) is not None
        if isinstance(v, T) and v.w == 64 and v.op == 'lin':
            return self.ispointer(st, v.args[0])
        return False

    def goto(self, st, fr, b):
        fr.prev = fr.bi
        B = fr.f.blocks[b]
        if B.phis:
            R = fr.regs
            p = fr.prev
            vals = [(d, R[m[p]]) for d, m in B.phis]
            for d, v in vals:
                R[d] = v
        fr.bi = b
        fr.ip = 0
        if b in fr.f.headers:
            self.header(st, fr, b)

    def i_br(self, st, fr, ins):
        self.goto(st, fr, ins.a[0][0])

    def i_cbr(self, st, fr, ins):
        (a, b), c = ins.a
        c = fr.regs[c]
        if isinstance(c, str):
            c = self.undef(1)
        if not isinstance(c, int):
            c = self.simp(st, c)
        if isinstance(c, int):
            self.goto(st, fr, a if c else b)
            return
        if c in st.pcset:
            self.goto(st, fr, a)
            return
        n = t.not_(c)
        if n in st.pcset:
            self.goto(st, fr, b)
            return
        if any(v.args[0].startswith('undef') for v in t.vars_of(c)):
            self.check(st, 'safety', 0, 'decision on an uninitialised value')
            raise Stop('ub')
        raise Fork(c)

    def i_switch(self, st, fr, ins):
        _, c, w, cases, dflt = ins.a
        v = fr.regs[c]
        v = self.simp(st, v)
        if isinstance(v, str):
            self.check(st, 'safety', 0, 'decision on an uninitialised value')
            raise Stop('ub')
        for k, b in cases:
            q = t.eq(v, k, w)
            if isinstance(q, int):
                if q:
                    self.goto(st, fr, b)
                    return
                continue
            if q in st.pcset:
                self.goto(st, fr, b)
                return
            if t.not_(q) in st.pcset:
                continue
            raise Fork(q)
        self.goto(st, fr, dflt)

    def i_unreachable(self, st, fr, ins):
        self.check(st, 'safety', 0, 'unreachable code is not reached')
        raise Stop('ub')

    def i_unsupported(self, st, fr, ins):
        raise Stop('unsupported', str(ins.a[0]))

    # calls ---------------------------------------------------------
    def i_call(self, st, fr, ins):
        callee, cr, args, rt, aty, byval, _, _ = ins.a
        self.do_call(st, fr, ins, callee, cr, args, rt, aty, byval)

    def i_invoke(self, st, fr, ins):
        _, callee, cr, args, rt, aty, byval, nd, ud = ins.a
        self.do_call(st, fr, ins, callee, cr, args, rt, aty, byval)

    def do_call(self, st, fr, ins, callee, cr, args, rt, aty, byval):
        R = fr.regs
        if callee is None:
            a = self.simp(st, R[cr])
            if isinstance(a, str):
                self.check(st, 'safety', 0, 'call through an uninitialised pointer')
                raise Stop('ub')
            if not isinstance(a, int):
                if a.op == 'ite':
                    raise Fork(a.args[0])
                raise Stop('unsupported', 'call of symbolic address ' + t.show(a, 3))
            F = self.m.fbyaddr.get(a)
            if F is None:
                self.check(st, 'safety', 0, 'call of something that is not a function')
                raise Stop('ub')
            callee = F.name
        av = [R[x] if x >= 0 else None for x in args]
        if byval:
            tmp = []
            for k, sz in byval:
                o = self.alloc(st, sz, 'stack', 'byval')
                tmp.append(o.id)
                self.copy(st, o.base, av[k], sz)
                av[k] = o.base
            n = len(st.frames)
            self.call_named(st, fr, ins, callee, av, rt, aty)
            if len(st.frames) > n:
                st.frames[-1].allocas.extend(tmp)
            else:
                fr.allocas.extend(tmp)
            return
        self.call_named(st, fr, ins, callee, av, rt, aty)

    def call_named(self, st, fr, ins, callee, av, rt, aty):
        h = self.h_replace.get(callee)
        if h is not None:
            F = self.m.funcs[h]
            self.contracts_used[callee] = self.contracts_used.get(callee, 0) + 1
            self.push(st, F, av, call=ins)
            return
        f = self.models.get(callee)
        if f is not None:
            self.externs[callee] = self.externs.get(callee, 0) + 1
            r = f(self, st, fr, ins, av, rt, aty)
            if r is self.NORET:
                return
            self.finish_call(st, fr, ins, r)
            return
        if callee in self.opaque or callee.startswith('uf_'):
            args = []
            for a, ty in zip(av, aty):
                self.flat(a, ty, args)
            args = [self.simp(st, a) for a in args]
            r = self.mkuf(callee, args, rt, aty)
            self.finish_call(st, fr, ins, r)
            return
        F = self.m.funcs.get(callee)
        if F is None or F.isdecl:
            f = self.prefix_model(callee)
            if f is not None:
                self.externs[callee] = self.externs.get(callee, 0) + 1
                r = f(self, st, fr, ins, av, rt, aty)
                if r is self.NORET:
                    return
                self.finish_call(st, fr, ins, r)
                return
            raise Stop('unsupported', 'call of external function ' + callee)
        self.push(st, F, av, call=ins)
        p = self.h_ctor.get(callee)
        if p is not None:
            # contract hook before the real body: called with the same arguments
            self.contracts_used[callee] = self.contracts_used.get(callee, 0) + 1
            self.push(st, self.m.funcs[p], list(av), call='before')

    NORET = object()

    def flat(self, v, ty, out):
        if ty[0] == 's':
            for (o, x), e in zip(ty[1], v):
                self.flat(e, x, out)
        else:
            out.append(self.val(v, ty[1]))

    def mkuf(self, name, args, rt, aty):
        from . import solve
        ws = []
        for ty in aty:
            self.flatw(ty, ws)
        if rt[0] == 'i':
            solve.UFSIG[name] = (tuple(ws), rt[1])
            return t.uf(name, args, rt[1])
        if rt[0] == 's':
            out = []
            for i, (o, x) in enumerate(rt[1]):
                solve.UFSIG['%s.%d' % (name, i)] = (tuple(ws), x[1])
                out.append(t.uf('%s.%d' % (name, i), args, x[1]))
            return tuple(out)
        raise Stop('unsupported', 'opaque function type')

    def flatw(self, ty, out):
        if ty[0] == 's':
            for o, x in ty[1]:
                self.flatw(x, out)
        else:
            out.append(ty[1])

    def finish_call(self, st, fr, ins, r):
        """the call instruction ins of frame fr returned r"""
        if ins is None:
            return
        if ins.dst is not None:
            fr.regs[ins.dst] = r
        if ins.op == 'invoke':
            self.goto(st, fr, ins.a[7])
        else:
            fr.ip += 1

    def i_ret(self, st, fr, ins):
        a = ins.a[0]
        v = fr.regs[a] if a is not None else None
        self.leave(st, fr)
        st.frames.pop()
        if fr.reveal is not None:
            self.revealed(st, fr, v)
            if not st.frames:
                raise Stop('done')
            up = st.frames[-1]
            self.finish_call(st, up, fr.call, None)
            return
        c = fr.call
        if c == 'before':
            return
        if not st.frames:
            raise Stop('done')
        self.finish_call(st, st.frames[-1], c, v)

    def leave(self, st, fr):
        for oid in fr.allocas:
            self.drop(st, oid)

    def drop(self, st, oid):
        """the object's lifetime ends; later accesses hit no object"""
        o = st.objs[oid]
        if 'share' in st.opts:
            self.shared(st, o, None, None, 'release')
        st.objs.pop(oid)
        b = o.base
        st.reg.pop(('b', b >> BIG) if b >= BIGBIT else b >> SMALL, None)
        if o.kind == 'heap':
            st.heap -= 1
        if st.watch is not None and oid in st.watch:
            st.frame0 = st.frame0 | {oid}

    def revealed(self, st, fr, v):
        kind, name, args, rt, aty = fr.reveal
        u = self.mkuf(name, args, rt, aty)
        if isinstance(u, tuple):
            pairs = list(zip(u, v))
        else:
            pairs = [(u, v)]
        for a, b in pairs:
            b = self.val(b, a.w)
            if a is b:
                continue
            st.defs[a] = b

    # exceptions ------------------------------------------------------
    def throw(self, st, addr, ti):
        st.exc = (addr, ti)
        self.unwind(st)

    def unwind(self, st):
        """current frame is the one whose instruction threw; find a landing pad"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.bi].ins[fr.ip]
            if ins.op == 'invoke':
                ud = ins.a[8]
                B = fr.f.blocks[ud]
                lp = None
                for x in B.ins:
                    if x.op == 'landingpad':
                        lp = x
                        break
                sel = self.select(st, lp)
                if sel is not None:
                    self.goto(st, fr, ud)
                    return
            self.leave(st, fr)
            st.frames.pop()
        self.uncaught(st)

    def uncaught(self, st):
        self.failures.append(Failure('post', 'no exception escapes', '?', 'refuted', 'exception %s' % (st.exc[1],), st))
        if st.gen:
            raise Stop('genfail', 'exception')
        raise Stop('exception', str(st.exc[1]))

    def select(self, st, lp):
        """selector value for the current exception or None"""
        clauses, cleanup = lp.a
        for kind, c in clauses:
            if kind == 'catch':
                if c == 0:
                    return 1
                n = self.tinames.get(c)
                if n is not None and self.ti_sub(st.exc[1], n):
                    return self.typeid(n)
            else:
                return None if False else (0 if cleanup else 2)
        return 0 if cleanup else None

    def typeid(self, n):
        d = self.__dict__.setdefault('_tids', {})
        return d.setdefault(n, 10 + len(d))

    STDTI = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception',
             '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error',
             '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
             '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt11range_error': '_ZTISt13runtime_error',
             '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt15underflow_error': '_ZTISt13runtime_error',
             '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt12bad_weak_ptr': '_ZTISt9exception',
             '_ZTISt8bad_cast': '_ZTISt9exception'}

    def ti_bases(self, n):
        """[(base name, offset)] of a class typeinfo"""
        c = self.__dict__.setdefault('_tib', {})
        if n in c:
            return c[n]
        r = []
        if n in self.STDTI:
            r = [(self.STDTI[n], 0)]
        else:
            g = self.m.gvs.get(n)
            if g is not None and not ir.IsDecl(g):
                v = self.m.const(ir.GVInit(g))
                if len(v) == 3:
                    b = self.tinames.get(v[2])
                    if b:
                        r = [(b, 0)]
                elif len(v) > 4:
                    for i in range(4, len(v), 2):
                        b = self.tinames.get(v[i])
                        off = v[i + 1] >> 8
                        if b:
                            r.append((b, off))
        c[n] = r
        return r

    def ti_sub(self, a, b):
        if a == b:
            return True
        return any(self.ti_sub(x, b) for x, _ in self.ti_bases(a))

    def i_landingpad(self, st, fr, ins):
        sel = self.select(st, ins)
        fr.regs[ins.dst] = (st.exc[0], sel if sel is not None else 0)
        fr.ip += 1

    def i_resume(self, st, fr, ins):
        self.leave(st, fr)
        st.frames.pop()
        if not st.frames:
            self.uncaught(st)
        self.unwind(st)

    def i_extractvalue(self, st, fr, ins):
        v = fr.regs[ins.a[0]]
        for i in ins.a[1]:
            if isinstance(v, str):
                break
            v = v[i]
        fr.regs[ins.dst] = v
        fr.ip += 1

    def i_insertvalue(self, st, fr, ins):
        agg, v, ix = ins.a
        fr.regs[ins.dst] = self.insert(fr.regs[agg], fr.regs[v], ix)
        fr.ip += 1

    def insert(self, agg, v, ix):
        if not ix:
            return v
        l = list(agg)
        l[ix[0]] = self.insert(l[ix[0]], v, ix[1:])
        return tuple(l)

    def i_atomicrmw(self, st, fr, ins):
        op, p, v, w = ins.a
        a = fr.regs[p]
        x = fr.regs[v]
        n = (w + 7) // 8
        self.atomic = True
        old = self.load_val(st, a, ('i', w), n)
        if op == 0:
            new = x
        elif op == 1:
            new = t.add(old, x, w)
        elif op == 2:
            new = t.sub(old, x, w)
        elif op == 3:
            new = t.and_(old, x, w)
        elif op == 5:
            new = t.or_(old, x, w)
        elif op == 6:
            new = t.xor(old, x, w)
        else:
            raise Stop('unsupported', 'atomicrmw')
        self.write(st, a, n, new)
        self.atomic = False
        fr.regs[ins.dst] = old
        fr.ip += 1

    def i_cmpxchg(self, st, fr, ins):
        p, c, x, w = ins.a
        R = fr.regs
        n = (w + 7) // 8
        self.atomic = True
        old = self.load_val(st, R[p], ('i', w), n)
        e = self.simp(st, t.eq(old, R[c], w))
        if not isinstance(e, int):
            raise Fork(e)
        if e:
            self.write(st, R[p], n, R[x])
        self.atomic = False
        R[ins.dst] = (old, e)
        fr.ip += 1

    # loops: see loops.py
    def header(self, st, fr, b):
        from . import loops
        loops.at_header(self, st, fr, b)
