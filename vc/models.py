"""Models (assumed contracts) of external functions, and the vc_* intrinsics
that contract harnesses use."""
from . import terms as t
from .terms import T, M
from . import mem
from .mem import UNDEF
from .engine import Stop, Fork, Failure

R = {}
PREFIX = []


def model(*names):
    def d(f):
        for n in names:
            R[n] = f
        return f
    return d


def prefix(p):
    def d(f):
        PREFIX.append((p, f))
        return f
    return d


def install(e):
    e.models = dict(R)

    def pm(name):
        for p, f in PREFIX:
            if name.startswith(p):
                return f
        return None
    e.prefix_model = pm
    e.ext_globals = {'__libc_single_threaded': (0 if e.opts.get('threads') else 1, 1), '_ZSt7nothrow': (0, 1), '__dso_handle': (0, 8)}
    # definitions in the module win over models, except for the intrinsics
    for n in list(e.models):
        F = e.m.funcs.get(n)
        if F is not None and not F.isdecl and not n.startswith('vc_') and not n.startswith(FORCE):
            del e.models[n]


FORCE = ('_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEE', '_ZNSirs')


def cstr(e, st, a):
    """concrete C string or None"""
    out = []
    o, off = e.split_addr(st, a)
    if o is None or not isinstance(off, int):
        return None
    while True:
        b = mem.get_byte(o, off)
        if not isinstance(b, int):
            return None
        if b == 0:
            return bytes(out).decode(errors='replace')
        out.append(b)
        off += 1


# ------------------------------------------------------------------ libc, libstdc++

@model('_Znwm', '_Znam', '_ZnwmSt11align_val_t')
def m_new(e, st, fr, ins, a, rt, aty):
    n = e.simp(st, a[0])
    if isinstance(n, str):
        raise Stop('unsupported', 'allocation of uninitialised size')
    o = e.alloc(st, n, 'heap', 'new')
    return o.base


@model('malloc')
def m_malloc(e, st, fr, ins, a, rt, aty):
    return m_new(e, st, fr, ins, a, rt, aty)


@model('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t')
def m_delete(e, st, fr, ins, a, rt, aty):
    p = e.simp(st, a[0])
    if isinstance(p, int) and p == 0:
        return None
    o, off = e.split_addr(st, p)
    if o is None:
        e.check(st, 'safety', 0, 'release of memory that is not allocated')
        raise Stop('ub')
    if o.kind != 'heap' or not (isinstance(off, int) and off == 0):
        e.check(st, 'safety', 0, 'release of memory that was not allocated so')
        raise Stop('ub')
    e.drop(st, o.id)
    return None


@prefix('llvm.memcpy')
def m_memcpy_i(e, st, fr, ins, a, rt, aty):
    e.copy(st, a[0], a[1], zx(e, a[2], aty[2]))
    return None


@prefix('llvm.memmove')
def m_memmove_i(e, st, fr, ins, a, rt, aty):
    e.copy(st, a[0], a[1], zx(e, a[2], aty[2]))
    return None


@prefix('llvm.memset')
def m_memset_i(e, st, fr, ins, a, rt, aty):
    e.fill(st, a[0], a[1], zx(e, a[2], aty[2]))
    return None


def zx(e, v, ty):
    return t.zext(v, ty[1], 64) if ty[1] != 64 else v


@model('memcpy', 'memmove')
def m_memcpy(e, st, fr, ins, a, rt, aty):
    e.copy(st, a[0], a[1], a[2])
    return a[0]


@model('memset')
def m_memset(e, st, fr, ins, a, rt, aty):
    e.fill(st, a[0], t.ext(a[1], 0, 8), a[2])
    return a[0]


@model('strlen')
def m_strlen(e, st, fr, ins, a, rt, aty):
    n = 0
    while True:
        b = e.load_val(st, t.add(a[0], n, 64), ('i', 8), 1)
        c = e.simp(st, t.eq(b, 0, 8))
        if isinstance(c, T):
            q = e.decide(st, c)
            if q is None:
                raise Fork(c)
            c = q
        if c:
            return n
        n += 1
        if n > 4096:
            raise Stop('unsupported', 'strlen')


@model('memchr')
def m_memchr(e, st, fr, ins, a, rt, aty):
    n = e.simp(st, a[2])
    if not isinstance(n, int):
        n = e.concretize(st, n)
    ch = t.ext(a[1], 0, 8)
    # found/not found is decided as a whole, the position only when needed
    vals = [e.load_val(st, t.add(a[0], i, 64), ('i', 8), 1) for i in range(n)]
    anyc = 0
    for v in vals:
        anyc = t.or_(anyc, t.eq(v, ch, 8), 1)
    anyc = e.simp(st, anyc)
    if isinstance(anyc, T):
        q = e.decide(st, anyc)
        if q is None:
            raise Fork(anyc)
        anyc = q
    if not anyc:
        return 0
    r = t.add(a[0], n - 1, 64)
    if isinstance(a[0], int):
        # the position as a term over the offset
        pos = n - 1
        for i in range(n - 2, -1, -1):
            pos = t.ite(t.eq(vals[i], ch, 8), i, pos, 64)
        return t.add(a[0], pos, 64) if isinstance(pos, int) else t.mk_lin(a[0], {pos: 1}, 64)
    return r


@model('memcmp', 'bcmp')
def m_memcmp(e, st, fr, ins, a, rt, aty):
    n = e.simp(st, a[2])
    if not isinstance(n, int):
        n = e.concretize(st, n)
    r = 0
    for i in range(n - 1, -1, -1):
        x = e.load_val(st, t.add(a[0], i, 64), ('i', 8), 1)
        y = e.load_val(st, t.add(a[1], i, 64), ('i', 8), 1)
        d = t.sub(t.zext(x, 8, 32), t.zext(y, 8, 32), 32)
        r = t.ite(t.eq(x, y, 8), r, d, 32)
    return r


def _between(c, lo, hi):
    return t.and_(t.ule(lo, c, 32), t.ule(c, hi, 32), 1)


def _ctype(e, name, c):
    """in the C locale"""
    dig = _between(c, 48, 57)
    up, lo = _between(c, 65, 90), _between(c, 97, 122)
    if name == 'isdigit':
        return dig
    if name == 'isxdigit':
        return t.or_(dig, t.or_(_between(c, 65, 70), _between(c, 97, 102), 1), 1)
    if name == 'isalpha':
        return t.or_(up, lo, 1)
    if name == 'isalnum':
        return t.or_(dig, t.or_(up, lo, 1), 1)
    if name == 'isupper':
        return up
    if name == 'islower':
        return lo
    if name == 'isspace':
        return t.or_(t.eq(c, 32, 32), _between(c, 9, 13), 1)
    return None


def _mk_ctype(name):
    @model(name)
    def f(e, st, fr, ins, a, rt, aty):
        q = _ctype(e, name, a[0])
        return t.ite(q, 0x100, 0, 32)


for _n in ('isdigit', 'isxdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isspace'):
    _mk_ctype(_n)


@model('tolower')
def m_tolower(e, st, fr, ins, a, rt, aty):
    return t.ite(_between(a[0], 65, 90), t.add(a[0], 32, 32), a[0], 32)


@model('toupper')
def m_toupper(e, st, fr, ins, a, rt, aty):
    return t.ite(_between(a[0], 97, 122), t.sub(a[0], 32, 32), a[0], 32)


@model('htonl', 'ntohl')
def m_htonl(e, st, fr, ins, a, rt, aty):
    x = a[0]
    return t.cat([(t.ext(x, 8 * (3 - i), 8), 8) for i in range(4)])


@prefix('llvm.bswap')
def m_bswap(e, st, fr, ins, a, rt, aty):
    n = rt[1] // 8
    return t.cat([(t.ext(a[0], 8 * (n - 1 - i), 8), 8) for i in range(n)])


@prefix('llvm.fshl')
def m_fshl(e, st, fr, ins, a, rt, aty):
    w = rt[1]
    s = t.urem(e.simp(st, a[2]), w, w)
    if not isinstance(s, int):
        s = e.concretize(st, s)
    if s == 0:
        return a[0]
    return t.or_(t.shl(a[0], s, w), t.lshr(a[1], w - s, w), w)


@prefix('llvm.fshr')
def m_fshr(e, st, fr, ins, a, rt, aty):
    w = rt[1]
    s = t.urem(e.simp(st, a[2]), w, w)
    if not isinstance(s, int):
        s = e.concretize(st, s)
    if s == 0:
        return a[1]
    return t.or_(t.shl(a[0], w - s, w), t.lshr(a[1], s, w), w)


@prefix('llvm.lifetime.start')
def m_lt_start(e, st, fr, ins, a, rt, aty):
    o, off = e.split_addr(st, a[1])
    if o is not None and o.kind == 'stack':
        if o.slots:
            o = e.own(st, o)
            o.slots = {}
    return None


@prefix('llvm.lifetime.end')
def m_lt_end(e, st, fr, ins, a, rt, aty):
    return m_lt_start(e, st, fr, ins, a, rt, aty)


@prefix('llvm.invariant.start')
def m_inv_start(e, st, fr, ins, a, rt, aty):
    return 0


@prefix('llvm.invariant.end')
def m_inv_end(e, st, fr, ins, a, rt, aty):
    return None


@prefix('llvm.launder.invariant.group')
def m_launder(e, st, fr, ins, a, rt, aty):
    return a[0]


@prefix('llvm.strip.invariant.group')
def m_strip(e, st, fr, ins, a, rt, aty):
    return a[0]


def _wide(a, w, signed):
    return (t.sext if signed else t.zext)(a, w, 2 * w)


def _soverflow(op):
    def f(e, st, fr, ins, a, rt, aty):
        w = aty[0][1]
        r = op(_wide(a[0], w, True), _wide(a[1], w, True), 2 * w)
        v = t.ext(r, 0, w)
        return (v, t.not_(t.eq(r, t.sext(v, w, 2 * w), 2 * w)))
    return f


prefix('llvm.sadd.with.overflow')(_soverflow(t.add))
prefix('llvm.ssub.with.overflow')(_soverflow(t.sub))
prefix('llvm.smul.with.overflow')(_soverflow(t.mul))


@prefix('llvm.usub.sat')
def m_usubsat(e, st, fr, ins, a, rt, aty):
    w = rt[1]
    return t.ite(t.ult(a[0], a[1], w), 0, t.sub(a[0], a[1], w), w)


@prefix('llvm.uadd.sat')
def m_uaddsat(e, st, fr, ins, a, rt, aty):
    w = rt[1]
    s = t.add(a[0], a[1], w)
    return t.ite(t.ult(s, a[0], w), (1 << w) - 1, s, w)


@prefix('llvm.ctlz')
def m_ctlz(e, st, fr, ins, a, rt, aty):
    w = rt[1]
    r = w
    for i in range(w):
        r = t.ite(t.ext(a[0], i, 1), w - 1 - i, r, w)
    return r


@prefix('llvm.cttz')
def m_cttz(e, st, fr, ins, a, rt, aty):
    w = rt[1]
    r = w
    for i in reversed(range(w)):
        r = t.ite(t.ext(a[0], i, 1), i, r, w)
    return r


@prefix('llvm.bitreverse')
def m_bitreverse(e, st, fr, ins, a, rt, aty):
    w = rt[1]
    r = 0
    for i in range(w):
        r = t.or_(r, t.shl(t.zext(t.ext(a[0], i, 1), 1, w), w - 1 - i, w), w)
    return r


@prefix('llvm.expect')
def m_expect(e, st, fr, ins, a, rt, aty):
    return a[0]


@prefix('llvm.assume')
def m_assume(e, st, fr, ins, a, rt, aty):
    return None


@prefix('llvm.is.constant')
def m_isconst(e, st, fr, ins, a, rt, aty):
    return 0


@prefix('llvm.objectsize')
def m_objsize(e, st, fr, ins, a, rt, aty):
    return M[rt[1]]


@prefix('llvm.umax')
def m_umax(e, st, fr, ins, a, rt, aty):
    w = rt[1]
    return t.ite(t.ult(a[0], a[1], w), a[1], a[0], w)


@prefix('llvm.umin')
def m_umin(e, st, fr, ins, a, rt, aty):
    w = rt[1]
    return t.ite(t.ult(a[0], a[1], w), a[0], a[1], w)


@prefix('llvm.smax')
def m_smax(e, st, fr, ins, a, rt, aty):
    w = rt[1]
    return t.ite(t.slt(a[0], a[1], w), a[1], a[0], w)


@prefix('llvm.smin')
def m_smin(e, st, fr, ins, a, rt, aty):
    w = rt[1]
    return t.ite(t.slt(a[0], a[1], w), a[0], a[1], w)


@prefix('llvm.umul.with.overflow')
def m_umulo(e, st, fr, ins, a, rt, aty):
    w = aty[0][1]
    p = t.mul(t.zext(a[0], w, 2 * w), t.zext(a[1], w, 2 * w), 2 * w)
    return (t.mul(a[0], a[1], w), t.ne(t.ext(p, w, w), 0, w))


@prefix('llvm.uadd.with.overflow')
def m_uaddo(e, st, fr, ins, a, rt, aty):
    w = aty[0][1]
    s = t.add(a[0], a[1], w)
    return (s, t.ult(s, a[0], w))


@prefix('llvm.usub.with.overflow')
def m_usubo(e, st, fr, ins, a, rt, aty):
    w = aty[0][1]
    return (t.sub(a[0], a[1], w), t.ult(a[0], a[1], w))


@prefix('llvm.ctpop')
def m_ctpop(e, st, fr, ins, a, rt, aty):
    w = rt[1]
    r = 0
    for i in range(w):
        r = t.add(r, t.zext(t.ext(a[0], i, 1), 1, w), w)
    return r


@prefix('llvm.abs')
def m_abs(e, st, fr, ins, a, rt, aty):
    w = rt[1]
    return t.ite(t.slt(a[0], 0, w), t.neg(a[0], w), a[0], w)


@prefix('llvm.trap')
def m_trap(e, st, fr, ins, a, rt, aty):
    e.check(st, 'safety', 0, 'trap is not reached')
    raise Stop('ub')


@prefix('llvm.eh.typeid.for')
def m_typeid(e, st, fr, ins, a, rt, aty):
    n = e.tinames.get(a[0])
    return e.typeid(n)


@prefix('llvm.stacksave')
def m_ss(e, st, fr, ins, a, rt, aty):
    return 0


@prefix('llvm.stackrestore')
def m_sr(e, st, fr, ins, a, rt, aty):
    return None


@model('abort', '_ZSt9terminatev', '__cxa_pure_virtual', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__assert_fail',
       '__cxa_throw_bad_array_new_length')
def m_abort(e, st, fr, ins, a, rt, aty):
    e.check(st, 'safety', 0, 'the program is not aborted')
    raise Stop('ub')


@model('__cxa_allocate_exception')
def m_cxa_alloc(e, st, fr, ins, a, rt, aty):
    o = e.alloc(st, a[0], 'exc', 'exception')
    return o.base


@model('__cxa_free_exception')
def m_cxa_free(e, st, fr, ins, a, rt, aty):
    return None


@model('__cxa_throw')
def m_cxa_throw(e, st, fr, ins, a, rt, aty):
    ti = e.tinames.get(a[1], '?%s' % a[1])
    e.throw(st, a[0], ti)
    return e.NORET


@model('__cxa_begin_catch')
def m_begin_catch(e, st, fr, ins, a, rt, aty):
    st.caught = st.caught + [st.exc]
    return a[0]


@model('__cxa_get_exception_ptr')
def m_exc_ptr(e, st, fr, ins, a, rt, aty):
    return a[0]


@model('__cxa_end_catch')
def m_end_catch(e, st, fr, ins, a, rt, aty):
    st.caught = st.caught[:-1]
    return None


@model('__cxa_rethrow')
def m_rethrow(e, st, fr, ins, a, rt, aty):
    st.exc = st.caught[-1]
    e.unwind(st)
    return e.NORET


def thrower(ti):
    def f(e, st, fr, ins, a, rt, aty):
        o = e.alloc(st, 16, 'exc', ti)
        e.throw(st, o.base, ti)
        return e.NORET
    return f


for n, ti in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'),
              ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
              ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
              ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
              ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
              ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
              ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
              ('_ZSt20__throw_bad_weak_ptrv', '_ZTISt12bad_weak_ptr'),
              ('_ZSt21__throw_runtime_errorPKc', '_ZTISt13runtime_error')):
    R[n] = thrower(ti)


@prefix('_ZNSt13runtime_error')
def m_rt(e, st, fr, ins, a, rt, aty):
    return None


@prefix('_ZNSt11logic_error')
def m_rt2(e, st, fr, ins, a, rt, aty):
    return None


for q in ('_ZNSt12length_error', '_ZNSt12out_of_range', '_ZNSt16invalid_argument', '_ZNSt9exception', '_ZNSt12domain_error',
          '_ZNSt11range_error', '_ZNSt14overflow_error'):
    PREFIX.append((q, m_rt))


@model('__cxa_atexit')
def m_atexit(e, st, fr, ins, a, rt, aty):
    return 0


@model('__errno_location')
def m_errno(e, st, fr, ins, a, rt, aty):
    k = st.counter.get('errno')
    if k is None or k not in st.objs:
        o = e.alloc(st, 4, 'global', 'errno')
        mem.put(o, 0, 4, 0)
        st.counter['errno'] = o.id
        return o.base
    return st.objs[k].base


def hexval(c):
    """(is hex digit, value) of a character term"""
    isd = t.and_(t.ule(0x30, c, 8), t.ule(c, 0x39, 8), 1)
    isl = t.and_(t.ule(0x61, c, 8), t.ule(c, 0x66, 8), 1)
    isu = t.and_(t.ule(0x41, c, 8), t.ule(c, 0x46, 8), 1)
    v = t.ite(isd, t.sub(c, 0x30, 8), t.ite(isl, t.sub(c, 0x57, 8), t.sub(c, 0x37, 8), 8), 8)
    return t.or_(isd, t.or_(isl, isu, 1), 1), t.ext(v, 0, 4)


def parse_hex(e, st, chars, bits, what):
    """value of a text of hexadecimal digits only; a text with anything else
    gets an arbitrary value (over-approximation, noted)"""
    val = 0
    allhex = 1
    parts = []
    for c in chars:
        ok, v = hexval(c)
        allhex = t.and_(allhex, ok, 1)
        parts.insert(0, (v, 4))
    q = allhex
    if isinstance(q, T):
        q = e.decide(st, q)
        if q is None:
            raise Fork(allhex)
    if not q or not chars:
        st.approx = st.approx + [what + ' of a text that is not hexadecimal']
        return None
    v = t.cat(parts)
    n = 4 * len(parts)
    if n > bits:
        # overflow unless the leading digits are zero
        top = t.ext(v, bits, n - bits)
        z = t.eq(top, 0, n - bits)
        if isinstance(z, T):
            q = e.decide(st, z)
            if q is None:
                raise Fork(z)
            z = q
        if not z:
            st.approx = st.approx + [what + ' out of range']
            return None
        v = t.ext(v, 0, bits)
    elif n < bits:
        v = t.zext(v, n, bits)
    return v


def read_cstr(e, st, a, maxn=200):
    """characters up to the terminating zero"""
    out = []
    while True:
        b = e.load_val(st, t.add(a, len(out), 64), ('i', 8), 1)
        z = e.simp(st, t.eq(b, 0, 8))
        if isinstance(z, T):
            q = e.decide(st, z)
            if q is None:
                raise Fork(z)
            z = q
        if z:
            return out
        out.append(b)
        if len(out) > maxn:
            raise Stop('unsupported', 'long text')


@model('strtoull', 'strtoul', '__isoc23_strtoull', '__isoc23_strtoul')
def m_strtoull(e, st, fr, ins, a, rt, aty):
    if not (isinstance(a[2], int) and a[2] == 16):
        raise Stop('unsupported', 'strtoull base')
    ch = read_cstr(e, st, a[0])
    v = parse_hex(e, st, ch, 64, 'strtoull')
    n = len(ch)
    if v is None:
        # stops anywhere, may report that the number is too large
        v = t.fresh('strtoull', 64)
        end = t.add(a[0], t.fresh('strtoull', 64, 0, n, True), 64) if n else a[0]
        e.write(st, m_errno(e, st, fr, ins, [], None, None), 4, t.fresh('errno', 32))
    else:
        end = t.add(a[0], n, 64)
    if not (isinstance(a[1], int) and a[1] == 0):
        e.write(st, a[1], 8, end)
    return v


def string_chars(e, st, a):
    p = e.load_val(st, a, ('i', 64), 8)
    n = e.simp(st, e.load_val(st, t.add(a, 8, 64), ('i', 64), 8))
    if not isinstance(n, int):
        n = e.concretize(st, n)
    return [e.load_val(st, t.add(p, i, 64), ('i', 8), 1) for i in range(n)]


IS = '_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEE'


@model(IS + 'C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode', IS + 'C2ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode')
def m_iss(e, st, fr, ins, a, rt, aty):
    chars = string_chars(e, st, a[1])
    o, off = e.split_addr(st, a[0])
    o = e.own(st, o)
    o.ghost = dict(o.ghost or {})
    o.ghost['iss'] = (tuple(chars), 10)
    # vtable with a zero virtual-base offset: the stream is its own ios_base
    return None


@model(IS + 'D1Ev', IS + 'D2Ev')
def m_iss_d(e, st, fr, ins, a, rt, aty):
    return None


def iss_of(e, st, a):
    o, off = e.split_addr(st, a)
    if o is None or not o.ghost or 'iss' not in o.ghost:
        raise Stop('unsupported', 'stream that is not a modelled istringstream')
    return o


@model('_ZNSirsEPFRSt8ios_baseS0_E')
def m_manip(e, st, fr, ins, a, rt, aty):
    o = iss_of(e, st, a[0])
    F = e.m.fbyaddr.get(a[1])
    if F is None or F.name != '_ZSt3hexRSt8ios_base':
        raise Stop('unsupported', 'stream manipulator')
    o = e.own(st, o)
    o.ghost = dict(o.ghost)
    o.ghost['iss'] = (o.ghost['iss'][0], 16)
    return a[0]


def m_extract(bits):
    def f(e, st, fr, ins, a, rt, aty):
        o = iss_of(e, st, a[0])
        ch, base = o.ghost['iss']
        if base != 16:
            raise Stop('unsupported', 'decimal extraction')
        v = parse_hex(e, st, list(ch), bits, 'stream extraction')
        if v is None:
            v = t.fresh('extract', bits)
        e.write(st, a[1], bits // 8, v)
        return a[0]
    return f


R['_ZNSirsERj'] = m_extract(32)
R['_ZNSirsERm'] = m_extract(64)
R['_ZNSirsERy'] = m_extract(64)


def m_sextract(e, st, fr, ins, a, rt, aty):
    """operator>>(int&) and friends are extracted by _M_extract"""
    raise Stop('unsupported', 'stream extraction')


for n, b in (('_ZNSi10_M_extractIjEERSiRT_', 32), ('_ZNSi10_M_extractImEERSiRT_', 64), ('_ZNSi10_M_extractIyEERSiRT_', 64)):
    R[n] = m_extract(b)


@model('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def m_iosinit(e, st, fr, ins, a, rt, aty):
    return None


@model('__dynamic_cast')
def m_dyncast(e, st, fr, ins, a, rt, aty):
    p = a[0]
    if isinstance(p, int) and p == 0:
        return 0
    vp = e.load_val(st, p, ('i', 64), 8)
    ti = e.load_val(st, t.sub(vp, 8, 64), ('i', 64), 8)
    top = e.load_val(st, t.sub(vp, 16, 64), ('i', 64), 8)
    name = e.tinames.get(ti)
    dst = e.tinames.get(a[2])
    full = t.add(p, top, 64)

    def find(n, off):
        if n == dst:
            return off
        for b, o in e.ti_bases(n):
            r = find(b, off + o)
            if r is not None:
                return r
        return None
    r = find(name, 0)
    if r is None:
        return 0
    return t.add(full, r, 64)


# ------------------------------------------------------------------ intrinsics

def nm(e, st, a):
    s = cstr(e, st, a)
    if s is None:
        raise Stop('unsupported', 'label is not constant')
    return s


def uniq(st, name):
    k = ('in', name)
    st.counter[k] = st.counter.get(k, 0) + 1
    return name if st.counter[k] == 1 else '%s#%d' % (name, st.counter[k])


@model('vc_u64')
def vc_u64(e, st, fr, ins, a, rt, aty):
    name = uniq(st, nm(e, st, a[0]))
    lo, hi = a[1], a[2]
    v = t.var(name, 64, lo, hi, True)
    st.inputs = st.inputs + [(name, v)]
    return v


def bits(w):
    def f(e, st, fr, ins, a, rt, aty):
        name = uniq(st, nm(e, st, a[0]))
        v = t.var(name, w)
        st.inputs = st.inputs + [(name, v)]
        return v
    return f


R['vc_bits64'] = bits(64)
R['vc_bits32'] = bits(32)
R['vc_bits8'] = bits(8)


@model('vc_assume')
def vc_assume(e, st, fr, ins, a, rt, aty):
    c = a[0]
    c = t.ext(c, 0, 1) if not isinstance(c, int) and c.w > 1 else c
    e.assume(st, c)
    if isinstance(c, T) and e.p.sat(e.facts(st)) is False:
        raise Stop('infeasible')
    return None


@model('vc_check')
def vc_check(e, st, fr, ins, a, rt, aty):
    c = a[0]
    if isinstance(c, str):
        c = e.undef(1)
    c = t.ext(c, 0, 1) if not isinstance(c, int) and c.w > 1 else c
    e.check(st, 'post', c, nm(e, st, a[1]))
    return None


@model('vc_check_eq')
def vc_check_eq(e, st, fr, ins, a, rt, aty):
    e.check(st, 'post', t.eq(e.val(a[0], 64), e.val(a[1], 64), 64), nm(e, st, a[2]))
    return None


@model('vc_case')
def vc_case(e, st, fr, ins, a, rt, aty):
    base = nm(e, st, a[0])
    n = st.counter.get(('in', base), 0) + 1
    name = base if n == 1 else '%s#%d' % (base, n)
    lo, hi = a[1], a[2]
    k = ('case', name)
    v = st.opts.get(k)
    if v is None:
        # one path per value
        x = t.var('case_' + name, 64, lo, hi, True)
        v = e.concretize(st, x)
    st.opts[k] = v
    st.counter[('in', base)] = n
    st.trace = st.trace + ['%s=%d' % (name, v)]
    if not any(n == name for n, _ in st.inputs):
        st.inputs = st.inputs + [(name, v)]
    return v


@model('vc_concretize')
def vc_concretize(e, st, fr, ins, a, rt, aty):
    return e.concretize(st, a[0])


@model('vc_symbolic')
def vc_symbolic(e, st, fr, ins, a, rt, aty):
    return 1


@model('vc_cover')
def vc_cover(e, st, fr, ins, a, rt, aty):
    n = nm(e, st, a[0])
    if not e.covers.get(n):
        r = e.p.sat(e.all_facts(st), 10000)
        e.covers[n] = r is not False
    return None


def fn_of(e, a):
    F = e.m.fbyaddr.get(a)
    if F is None:
        raise Stop('unsupported', 'function pointer expected')
    return F.name


def make_vec(e, st, vec, fn, start, n, eb):
    from . import solve
    n = e.simp(st, n)
    c = e.simp(st, t.eq(n, 0, 64))
    if isinstance(c, T):
        q = e.decide(st, c)
        if q is None:
            raise Fork(c)
        c = q
    if c:
        for i in range(3):
            e.write(st, t.add(vec, 8 * i, 64), 8, 0)
        return
    solve.UFSIG[fn] = ((64,), 8 * eb)
    ln = t.mulc(n, eb, 64)
    o = e.alloc(st, ln, 'heap', 'vec:' + fn)
    if isinstance(ln, int):
        for i in range(n):
            mem.put(o, i * eb, eb, t.uf(fn, (e.simp(st, t.add(start, i, 64)),), 8 * eb))
    else:
        o.layers = (('f', ('fn', fn, start, eb)),)
    e.write(st, vec, 8, o.base)
    e.write(st, t.add(vec, 8, 64), 8, t.add(o.base, ln, 64))
    e.write(st, t.add(vec, 16, 64), 8, t.add(o.base, ln, 64))


@model('vc_fill_bytes')
def vc_fill_bytes(e, st, fr, ins, a, rt, aty):
    make_vec(e, st, a[0], fn_of(e, a[1]), a[2], a[3], 1)
    return None


@model('vc_fill_words')
def vc_fill_words(e, st, fr, ins, a, rt, aty):
    make_vec(e, st, a[0], fn_of(e, a[1]), a[2], a[3], 8)
    return None


@model('vc_make_string')
def vc_make_string(e, st, fr, ins, a, rt, aty):
    """std::string of n characters uf(i): (string*, fn, n)"""
    fn = fn_of(e, a[1])
    s = a[0]
    n = e.simp(st, a[2])
    from . import solve
    solve.UFSIG[fn] = ((64,), 8)
    if isinstance(n, int) and n <= 15:
        e.write(st, s, 8, t.add(s, 16, 64))
        e.write(st, t.add(s, 8, 64), 8, n)
        for i in range(n):
            e.write(st, t.add(s, 16 + i, 64), 1, t.uf(fn, (i,), 8))
        e.write(st, t.add(s, 16 + n, 64), 1, 0)
        return None
    sz = t.add(n, 1, 64)
    o = e.alloc(st, sz, 'heap', 'string')
    if isinstance(n, int):
        for i in range(n):
            mem.put(o, i, 1, t.uf(fn, (i,), 8))
        mem.put(o, n, 1, 0)
    else:
        o.layers = (('f', ('fn', fn, 0, 1)), ('w', n, 1, 0))
    e.write(st, s, 8, o.base)
    e.write(st, t.add(s, 8, 64), 8, n)
    e.write(st, t.add(s, 16, 64), 8, n)
    return None


def vec_of(e, st, v):
    b = e.load_val(st, v, ('i', 64), 8)
    f = e.load_val(st, t.add(v, 8, 64), ('i', 64), 8)
    return b, f


@model('vc_check_bytes')
def vc_check_bytes(e, st, fr, ins, a, rt, aty):
    """(vector<byte>*, fn, start, n, label): size is n and byte i is fn(start+i)"""
    v, fnp, start, n, lab = a
    return check_contents(e, st, fr, v, ('fn', fn_of(e, fnp), start, 1), 0, n, nm(e, st, lab))


@model('vc_check_words')
def vc_check_words(e, st, fr, ins, a, rt, aty):
    v, fnp, start, skip, n, lab = a
    return check_contents(e, st, fr, v, ('fn', fn_of(e, fnp), start, 8), skip, n, nm(e, st, lab))


def indices(e, eb, skip):
    """terms that together stand for every index below 2^42, split by the
    position in an element of eb bytes when the first element lacks `skip`"""
    if eb == 1 or not isinstance(skip, int):
        return [t.fresh('idx', 64, 0, 1 << 42, True)]
    h = t.fresh('idx', 64, 0, 1 << 42, True)
    out = []
    for r in range(eb):
        d = r - skip
        # skip + idx == eb * h + r
        while d < 0:
            d += eb
        out.append(t.add(t.mulc(h, eb, 64), d, 64))
    return out


@model('vc_check_prefix')
def vc_check_prefix(e, st, fr, ins, a, rt, aty):
    v, fnp, start, skip, n, lab = a
    return check_contents(e, st, fr, v, ('fn', fn_of(e, fnp), start, 8), skip, n, nm(e, st, lab), True)


def check_contents(e, st, fr, v, fd, skip, n, label, prefix=False):
    from . import solve
    solve.UFSIG[fd[1]] = ((64,), 8 * fd[3])
    b, f = vec_of(e, st, v)
    n = e.simp(st, n)
    size = e.simp(st, t.sub(f, b, 64))
    k = ('cb', label, fr.bi, fr.ip, len(st.frames))
    idx = st.counter.get(k)
    if idx is None:
        c = t.not_(t.ult(size, n, 64)) if prefix else t.eq(size, n, 64)
        e.check(st, 'post', c, label + ': length')
        idx = 0
        st.counter[k] = idx
    if isinstance(size, int) and not prefix:
        n = size
    if isinstance(n, int):
        if n > 300:
            raise Stop('unsupported', 'long concrete comparison')
        for i in range(n):
            x = e.load_val(st, t.add(b, i, 64), ('i', 8), 1)
            e.check(st, 'post', t.eq(x, e.fn_read(st, fd, e.simp(st, t.add(skip, i, 64)), 1), 8), label + ': content')
        del st.counter[k]
        return None
    # arbitrary index below n; the path continues without facts about it
    for idx in indices(e, fd[3], skip):
        sub = st.clone(e)
        e.assume(sub, t.ult(idx, n, 64))
        work = [sub]
        while work:
            s2 = work.pop()
            if e.p.sat(e.facts(s2)) is False:
                continue
            try:
                x = e.load_val(s2, t.add(b, idx, 64), ('i', 8), 1)
                e.check(s2, 'post', t.eq(x, e.fn_read(s2, fd, e.simp(s2, t.add(skip, idx, 64)), 1), 8), label + ': content')
            except Fork as q:
                e.fork(s2, q.cond, work)
                work.append(s2)
            except Stop as q:
                if q.kind not in ('infeasible', 'ub'):
                    raise
    del st.counter[k]
    return None


@model('vc_template')
def vc_template(e, st, fr, ins, a, rt, aty):
    """(fn, base): fn(base + k) is a candidate for values that change in loops"""
    name = fn_of(e, a[0])
    if (name, a[1]) not in st.tmpl:
        st.tmpl = st.tmpl + [(name, a[1])]
    return None


@model('vc_reveal')
def vc_reveal(e, st, fr, ins, a, rt, aty):
    """(fn, arg...): adds fn(arg...) == body"""
    name = fn_of(e, a[0])
    args = [e.simp(st, x) for x in a[1:]]
    F = e.m.funcs[name]
    if name not in e.opaque:
        return None
    e.m.lower(F)
    import vc.ir as ir
    frt = None
    args = args[:F.nparams]
    aty2 = tuple(F.pty)
    # return type from the ret instruction
    for B in F.blocks:
        for x in B.ins:
            if x.op == 'ret' and x.a[0] is not None:
                r = x.a[0]
                if r < F.nregs:
                    frt = F.regty[r]
    if frt is None:
        frt = ('i', 64)
    args = [t.ext(x, 0, ty[1]) if ty[1] < 64 else x for x, ty in zip(args, aty2)]
    u = e.mkuf(name, args, frt, aty2)
    first = u[0] if isinstance(u, tuple) else u
    if first in st.defs:
        return None
    e.push(st, F, args, call=ins, reveal=('r', name, tuple(args), frt, aty2))
    return e.NORET


@model('vc_ghost_set')
def vc_ghost_set(e, st, fr, ins, a, rt, aty):
    o, off = e.split_addr(st, a[0])
    o = e.own(st, o)
    o.ghost = dict(o.ghost or {})
    o.ghost[(off, a[1])] = a[2]
    return None


@model('vc_ghost')
def vc_ghost(e, st, fr, ins, a, rt, aty):
    o, off = e.split_addr(st, a[0])
    if o is None or not o.ghost or (off, a[1]) not in o.ghost:
        raise Stop('unsupported', 'object without ghost state (constructed in an unknown way)')
    return o.ghost[(off, a[1])]


@model('vc_frame_begin')
def vc_frame_begin(e, st, fr, ins, a, rt, aty):
    ids = set()
    e.load_globals(st)
    for oid, o in st.objs.items():
        if o.kind == 'global' and o.name.startswith('_ZGV'):
            continue
        if o.kind == 'stack' and not o.slots:
            continue
        ids.add(oid)
    st.watch = frozenset(ids)
    st.frame0 = frozenset()
    st.live0 = dict(st.objs)
    for o in st.objs.values():
        o.owner = 0
    return None


@model('vc_frame_except')
def vc_frame_except(e, st, fr, ins, a, rt, aty):
    o, off = e.split_addr(st, a[0])
    if st.watch is not None:
        st.watch = st.watch - {o.id}
    return None


def is_ctrl(e, o):
    """a shared_ptr control block?"""
    c = o.slots.get(0)
    if c is None or not isinstance(c[0], int):
        return False
    g = e.gobj.get(c[0] >> mem.SMALL)
    return g is not None and g[0].startswith('_ZTVSt') and '_Sp_counted' in g[0]


@model('vc_frame_end')
def vc_frame_end(e, st, fr, ins, a, rt, aty):
    lab = nm(e, st, a[0])
    watch, old, touched = st.watch, st.live0, st.frame0
    st.watch = None
    n = 0
    for oid in sorted(watch):
        o0 = old[oid]
        if o0.kind == 'global' and o0.name == 'errno':
            continue
        if o0.ro:
            continue
        n += 1
        if oid not in touched:
            continue
        o1 = st.objs.get(oid)
        if o1 is None:
            e.check(st, 'frame', 0, lab + ': objects that existed before still exist')
            continue
        same_contents(e, st, o0, o1, lab)
    e.check(st, 'frame', 1, lab + ': %s' % 'nothing that existed before has changed')
    st.live0 = None
    st.frame0 = None
    return None


def same_contents(e, st, o0, o1, lab):
    if o0.layers is not None:
        ok = o0.layers == o1.layers
        if not ok:
            # every later layer must rewrite what was there: not attempted
            e.check(st, 'frame', 0, lab + ': contents are unchanged')
        return
    skip = set()
    if is_ctrl(e, o0):
        skip = set(range(8, 16))
        # enable_shared_from_this: the weak count changes in the same block
    offs = set(o0.slots) | set(o1.slots)
    for off in sorted(offs):
        if off in skip:
            continue
        c0 = o0.slots.get(off)
        n = c0[1] if c0 else o1.slots[off][1]
        v0 = mem.get(o0, off, n)
        v1 = mem.get(o1, off, n)
        if isinstance(v0, str):
            continue
        if isinstance(v1, str):
            e.check(st, 'frame', 0, lab + ': contents are unchanged')
            continue
        if v0 is v1 or (isinstance(v0, int) and isinstance(v1, int) and v0 == v1):
            continue
        e.check(st, 'frame', t.eq(v0, v1, 8 * n), lab + ': contents are unchanged')


@model('vc_same')
def vc_same(e, st, fr, ins, a, rt, aty):
    """(p, q, label): the object graphs of p (actual) and q (canonical) are
    equal: same classes, same values, same shape"""
    from . import loops
    lab = nm(e, st, a[2])
    loops.same_graph(e, st, a[0], a[1], lab)
    return None


@model('vc_depth_limit')
def vc_depth_limit(e, st, fr, ins, a, rt, aty):
    st.base_depth = len(st.frames)
    st.depth = len(st.frames)
    return None


@model('vc_depth_check')
def vc_depth_check(e, st, fr, ins, a, rt, aty):
    d = st.depth - st.base_depth
    e.check(st, 'depth', int(d <= a[0]), nm(e, st, a[1]))
    return None


@model('vc_heap')
def vc_heap(e, st, fr, ins, a, rt, aty):
    return st.heap


# ------------------------------------------------------------------ threads

def lock_id(e, st, a):
    o, off = e.split_addr(st, a)
    if o is None or not isinstance(off, int):
        raise Stop('unsupported', 'mutex at an unknown address')
    return (o.id, off)


@model('pthread_mutex_lock', 'vc_lock')
def m_lock(e, st, fr, ins, a, rt, aty):
    e.access(st, a[0], 8, 'lock')
    k = lock_id(e, st, a[0])
    held = st.opts.get('locks', ())
    e.check(st, 'safety', int(k not in held), 'a mutex is not locked twice')
    if k in held:
        raise Stop('ub')
    st.opts['locks'] = held + (k,)
    return 0


@model('pthread_mutex_unlock', 'vc_unlock')
def m_unlock(e, st, fr, ins, a, rt, aty):
    k = lock_id(e, st, a[0])
    held = st.opts.get('locks', ())
    e.check(st, 'safety', int(k in held), 'a mutex is unlocked by its owner')
    st.opts['locks'] = tuple(x for x in held if x != k)
    return 0


@model('pthread_mutex_destroy', 'pthread_mutex_init')
def m_mutex0(e, st, fr, ins, a, rt, aty):
    return 0


def guard_end(st, a):
    if st.opts.get('guard') == a:
        del st.opts['guard'], st.opts['guarded']


def guard_lock(e, st, a, old, new):
    """what the guard of a static object orders"""
    o, off = e.split_addr(st, a)
    held = tuple(x for x in st.opts.get('locks', ()) if x != (old, o.id))
    if new and (new, o.id) not in held:
        held += ((new, o.id),)
    st.opts['locks'] = held


@model('__cxa_guard_acquire')
def m_guard(e, st, fr, ins, a, rt, aty):
    e.atomic = True
    b = e.load_val(st, a[0], ('i', 8), 1)
    e.atomic = False
    b = e.simp(st, t.eq(b, 0, 8))
    if not isinstance(b, int):
        raise Stop('unsupported', 'guard of a static object')
    if b and 'guarded' not in st.opts:
        # what is allocated from here on is made by the initialisation
        st.opts['guarded'], st.opts['guard'] = e._oid, a[0]
    guard_lock(e, st, a[0], None, 'init' if b else 'done')
    return b


@model('__cxa_guard_release')
def m_guard_release(e, st, fr, ins, a, rt, aty):
    e.atomic = True
    e.write(st, a[0], 1, 1)
    e.atomic = False
    guard_end(st, a[0])
    guard_lock(e, st, a[0], 'init', 'done')
    return None


@model('__cxa_guard_abort')
def m_guard_abort(e, st, fr, ins, a, rt, aty):
    guard_end(st, a[0])
    guard_lock(e, st, a[0], 'init', None)
    return None


@model('vc_share_begin')
def vc_share_begin(e, st, fr, ins, a, rt, aty):
    """from here on threads share everything that exists"""
    e.load_globals(st)
    ids = frozenset(i for i, o in st.objs.items() if not o.ro and not (o.kind == 'stack' and not o.slots) and not (o.kind == 'global' and o.name == 'errno'))
    e.shares.append(ids)
    st.opts['share'] = len(e.shares) - 1
    return None


@model('vc_share_end')
def vc_share_end(e, st, fr, ins, a, rt, aty):
    e.check(st, 'post', int(all(x[0] == 'done' for x in st.opts.get('locks', ()))), nm(e, st, a[0]) + ': no lock is held any more')
    st.opts.pop('share', None)
    return None


@model('vc_fail')
def vc_fail(e, st, fr, ins, a, rt, aty):
    e.check(st, 'post', 0, nm(e, st, a[0]))
    raise Stop('done')


@model('vc_length')
def vc_length(e, st, fr, ins, a, rt, aty):
    return None


@model('vc_end')
def vc_end(e, st, fr, ins, a, rt, aty):
    raise Stop('done')


@model('vc_option')
def vc_option(e, st, fr, ins, a, rt, aty):
    st.opts[nm(e, st, a[0])] = a[1]
    return None


@model('vc_longer')
def vc_longer(e, st, fr, ins, a, rt, aty):
    b, f = vec_of(e, st, a[0])
    n = e.simp(st, t.sub(f, b, 64))
    return 0 if isinstance(n, int) and n <= a[1] else 1


@model('vc_any')
def vc_any(e, st, fr, ins, a, rt, aty):
    return t.fresh('anyskip', 64)
