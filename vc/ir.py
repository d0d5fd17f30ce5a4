"""Reads LLVM bitcode through the LLVM-C API (ctypes) and lowers functions,
on demand, to register code for engine.py.  Nothing is dropped silently: an
instruction that is not understood becomes an 'unsupported' instruction, which
the engine reports when (and only when) a path reaches it."""
import ctypes as C

L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM-18.so')
P = C.c_void_p


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ContextCreate = _f('LLVMContextCreate', P)
MemBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _f('LLVMParseBitcodeInContext2', C.c_int, P, P, C.POINTER(P))
FirstFn = _f('LLVMGetFirstFunction', P, P)
NextFn = _f('LLVMGetNextFunction', P, P)
FirstGV = _f('LLVMGetFirstGlobal', P, P)
NextGV = _f('LLVMGetNextGlobal', P, P)
FirstAlias = _f('LLVMGetFirstGlobalAlias', P, P)
NextAlias = _f('LLVMGetNextGlobalAlias', P, P)
Aliasee = _f('LLVMAliasGetAliasee', P, P)
ValName = _f('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
IsDecl = _f('LLVMIsDeclaration', C.c_int, P)
GVInit = _f('LLVMGetInitializer', P, P)
GVType = _f('LLVMGlobalGetValueType', P, P)
GVConst = _f('LLVMIsGlobalConstant', C.c_int, P)
GVTLS = _f('LLVMIsThreadLocal', C.c_int, P)
TypeOf = _f('LLVMTypeOf', P, P)
TypeKind = _f('LLVMGetTypeKind', C.c_int, P)
IntW = _f('LLVMGetIntTypeWidth', C.c_uint, P)
NStruct = _f('LLVMCountStructElementTypes', C.c_uint, P)
StructAt = _f('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
ElemType = _f('LLVMGetElementType', P, P)
ArrLen = _f('LLVMGetArrayLength2', C.c_uint64, P)
VecLen = _f('LLVMGetVectorSize', C.c_uint, P)
ModuleDL = _f('LLVMGetModuleDataLayout', P, P)
ABISize = _f('LLVMABISizeOfType', C.c_uint64, P, P)
StoreSize = _f('LLVMStoreSizeOfType', C.c_uint64, P, P)
OffsetOf = _f('LLVMOffsetOfElement', C.c_uint64, P, P, C.c_uint)
FirstBB = _f('LLVMGetFirstBasicBlock', P, P)
NextBB = _f('LLVMGetNextBasicBlock', P, P)
FirstIn = _f('LLVMGetFirstInstruction', P, P)
NextIn = _f('LLVMGetNextInstruction', P, P)
Opc = _f('LLVMGetInstructionOpcode', C.c_int, P)
NOps = _f('LLVMGetNumOperands', C.c_int, P)
Op = _f('LLVMGetOperand', P, P, C.c_uint)
Kind = _f('LLVMGetValueKind', C.c_int, P)
ZExt = _f('LLVMConstIntGetZExtValue', C.c_uint64, P)
PrintV = _f('LLVMPrintValueToString', P, P)
DispMsg = _f('LLVMDisposeMessage', None, P)
ConstOpc = _f('LLVMGetConstOpcode', C.c_int, P)
NParams = _f('LLVMCountParams', C.c_uint, P)
Param = _f('LLVMGetParam', P, P, C.c_uint)
ICmpPred = _f('LLVMGetICmpPredicate', C.c_int, P)
GEPSrc = _f('LLVMGetGEPSourceElementType', P, P)
Called = _f('LLVMGetCalledValue', P, P)
NArgs = _f('LLVMGetNumArgOperands', C.c_uint, P)
NormDest = _f('LLVMGetNormalDest', P, P)
UnwDest = _f('LLVMGetUnwindDest', P, P)
NSucc = _f('LLVMGetNumSuccessors', C.c_uint, P)
Succ = _f('LLVMGetSuccessor', P, P, C.c_uint)
IsCond = _f('LLVMIsConditional', C.c_int, P)
Cond = _f('LLVMGetCondition', P, P)
PhiN = _f('LLVMCountIncoming', C.c_uint, P)
PhiV = _f('LLVMGetIncomingValue', P, P, C.c_uint)
PhiB = _f('LLVMGetIncomingBlock', P, P, C.c_uint)
NClauses = _f('LLVMGetNumClauses', C.c_uint, P)
Clause = _f('LLVMGetClause', P, P, C.c_uint)
IsCleanup = _f('LLVMIsCleanup', C.c_int, P)
NIdx = _f('LLVMGetNumIndices', C.c_uint, P)
Idx = _f('LLVMGetIndices', C.POINTER(C.c_uint), P)
AllocTy = _f('LLVMGetAllocatedType', P, P)
NSW = _f('LLVMGetNSW', C.c_int, P)
NUW = _f('LLVMGetNUW', C.c_int, P)
Ordering = _f('LLVMGetOrdering', C.c_int, P)
RMWOp = _f('LLVMGetAtomicRMWBinOp', C.c_int, P)
DbgLine = _f('LLVMGetDebugLocLine', C.c_uint, P)
DbgFile = _f('LLVMGetDebugLocFilename', C.c_char_p, P, C.POINTER(C.c_uint))
AsBB = _f('LLVMValueAsBasicBlock', P, P)
IsNull = _f('LLVMIsNull', C.c_int, P)
CDSElem = _f('LLVMGetAggregateElement', P, P, C.c_uint)
FnIntrinsic = _f('LLVMGetIntrinsicID', C.c_uint, P)
AttrKind = _f('LLVMGetEnumAttributeKindForName', C.c_uint, C.c_char_p, C.c_size_t)
CSAttr = _f('LLVMGetCallSiteEnumAttribute', P, P, C.c_uint, C.c_uint)
TypeAttrVal = _f('LLVMGetTypeAttributeValue', P, P)
FnTypeOfCall = _f('LLVMGetCalledFunctionType', P, P)
Linkage = _f('LLVMGetLinkage', C.c_int, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub',
       12: 'mul', 14: 'udiv', 15: 'sdiv', 17: 'urem', 18: 'srem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and',
       24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 66: 'fneg', 68: 'freeze'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
# value kinds
VK_ARG, VK_BB = 0, 1
(VK_FUNC, VK_ALIAS, VK_IFUNC, VK_GV, VK_BADDR, VK_CE, VK_CARR, VK_CSTRUCT, VK_CVEC, VK_UNDEF, VK_CAZ, VK_CDA, VK_CDV,
 VK_CI, VK_CFP, VK_NULL, VK_CTN, VK_MDV, VK_ASM, VK_INST, VK_POISON) = range(5, 26)

TK_VOID, TK_INT, TK_FUNC, TK_STRUCT, TK_ARR, TK_PTR, TK_VEC = 0, 8, 9, 10, 11, 12, 13

UNDEF = 'undef'


class Unsupported(Exception):
    pass


class Ins:
    __slots__ = ('op', 'dst', 'a', 'line', 'file', 'h')

    def __init__(self, op, dst, a, line, file):
        self.op = op
        self.dst = dst
        self.a = a
        self.line = line
        self.file = file
        self.h = None


class Func:
    __slots__ = ('name', 'ptr', 'nparams', 'nregs', 'consts', 'blocks', 'rty', 'headers', 'lowered', 'isdecl', 'addr',
                 'live', 'pty', 'regty', 'ninstr', 'vararg')


class Block:
    __slots__ = ('idx', 'phis', 'ins', 'succ')


class Module:
    def __init__(self, path):
        ctx = ContextCreate()
        buf = P()
        err = C.c_char_p()
        if MemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        mod = P()
        if ParseBC(ctx, buf, C.byref(mod)):
            raise RuntimeError('cannot parse ' + path)
        self.mod = mod
        self.dl = ModuleDL(mod)
        self.funcs = {}
        self.fbyaddr = {}
        self.gvs = {}          # name -> (addr, size, ptr)
        self.gaddr = {}        # value pointer -> address
        self.aliases = {}
        self.byval = AttrKind(b'byval', 5)
        a = 0x10000
        f = FirstFn(mod)
        while f:
            F = Func()
            F.name = self.name(f)
            F.ptr = f
            F.lowered = False
            F.isdecl = bool(IsDecl(f))
            F.addr = a
            F.nparams = NParams(f)
            self.funcs[F.name] = F
            self.fbyaddr[a] = F
            self.gaddr[f] = a
            a += 16
            f = NextFn(f)
        g = FirstGV(mod)
        self.gvlist = []
        i = 0
        while g:
            n = self.name(g)
            ty = GVType(g)
            try:
                sz = ABISize(self.dl, ty) if TypeKind(ty) != TK_STRUCT or True else 0
            except Exception:
                sz = 0
            self.gvs[n] = g
            self.gvlist.append((n, g, sz))
            g = NextGV(g)
        al = FirstAlias(mod)
        while al:
            self.aliases[self.name(al)] = al
            al = NextAlias(al)

    def name(self, v):
        n = C.c_size_t()
        s = ValName(v, C.byref(n))
        return s.decode() if s else ''

    def text(self, v):
        p = PrintV(v)
        s = C.cast(p, C.c_char_p).value.decode(errors='replace')
        DispMsg(p)
        return s

    # -- types
    def width(self, ty):
        k = TypeKind(ty)
        if k == TK_INT:
            return IntW(ty)
        if k == TK_PTR:
            return 64
        if k in (2, 3):
            return 32 if k == 2 else 64
        return None

    def ty(self, ty):
        """('i',w) | ('s',[(off,ty)],size) | ('v',) | ('x', text)"""
        k = TypeKind(ty)
        if k == TK_INT:
            return ('i', IntW(ty))
        if k == TK_PTR:
            return ('i', 64)
        if k == TK_VOID:
            return ('v',)
        if k == TK_STRUCT:
            n = NStruct(ty)
            return ('s', tuple((OffsetOf(self.dl, ty, i), self.ty(StructAt(ty, i))) for i in range(n)), ABISize(self.dl, ty))
        if k == TK_ARR:
            e = ElemType(ty)
            es = ABISize(self.dl, e)
            t = self.ty(e)
            n = ArrLen(ty)
            return ('s', tuple((i * es, t) for i in range(n)), es * n)
        if k == TK_VEC:
            e = ElemType(ty)
            es = ABISize(self.dl, e)
            t = self.ty(e)
            n = VecLen(ty)
            return ('s', tuple((i * es, t) for i in range(n)), es * n)
        if k == 2 or k == 3:
            return ('f', 32 if k == 2 else 64)
        return ('x', k)

    # -- constants
    def const(self, v):
        k = Kind(v)
        if k == VK_CI:
            w = IntW(TypeOf(v))
            if w <= 64:
                return ZExt(v) & ((1 << w) - 1)
            s = self.text(v).split()[-1]
            return int(s) & ((1 << w) - 1)
        if k == VK_NULL:
            return 0
        if k in (VK_UNDEF, VK_POISON):
            t = self.ty(TypeOf(v))
            return self.undef(t)
        if k in (VK_FUNC, VK_GV):
            return self.gaddr[v]
        if k == VK_ALIAS:
            return self.const(Aliasee(v))
        if k == VK_CAZ:
            return self.zero(self.ty(TypeOf(v)))
        if k in (VK_CSTRUCT, VK_CARR, VK_CVEC):
            return tuple(self.const(Op(v, i)) for i in range(NOps(v)))
        if k in (VK_CDA, VK_CDV):
            t = self.ty(TypeOf(v))
            return tuple(self.const(CDSElem(v, i)) for i in range(len(t[1])))
        if k == VK_CFP:
            return UNDEF
        if k == VK_CE:
            o = OPC.get(ConstOpc(v))
            if o == 'gep':
                base = self.const(Op(v, 0))
                c, dyn = self.gep(v, const=True)
                return (base + c) & ((1 << 64) - 1)
            if o in ('bitcast', 'ptrtoint', 'inttoptr'):
                return self.const(Op(v, 0))
            if o == 'sub':
                return (self.const(Op(v, 0)) - self.const(Op(v, 1))) & ((1 << 64) - 1)
            if o == 'add':
                return (self.const(Op(v, 0)) + self.const(Op(v, 1))) & ((1 << 64) - 1)
            if o == 'trunc':
                return self.const(Op(v, 0)) & ((1 << IntW(TypeOf(v))) - 1)
        raise Unsupported('constant ' + self.text(v)[:200])

    def undef(self, t):
        if t[0] == 's':
            return tuple(self.undef(x) for _, x in t[1])
        return UNDEF

    def zero(self, t):
        if t[0] == 's':
            return tuple(self.zero(x) for _, x in t[1])
        return 0

    def gep(self, v, const=False, get=None):
        ty = GEPSrc(v)
        n = NOps(v)
        off = 0
        dyn = []
        for i in range(1, n):
            ix = Op(v, i)
            ci = Kind(ix) == VK_CI
            if i == 1:
                sz = ABISize(self.dl, ty)
            else:
                k = TypeKind(ty)
                if k == TK_STRUCT:
                    x = ZExt(ix)
                    off += OffsetOf(self.dl, ty, x)
                    ty = StructAt(ty, x)
                    continue
                ty = ElemType(ty)
                sz = ABISize(self.dl, ty)
            if ci:
                w = IntW(TypeOf(ix))
                x = ZExt(ix) & ((1 << w) - 1)
                if x >> (w - 1):
                    x -= 1 << w
                off += x * sz
            else:
                if const:
                    raise Unsupported('gep constant')
                dyn.append((get(ix), IntW(TypeOf(ix)), sz))
        return off, tuple(dyn)

    # -- functions
    def lower(self, F):
        if F.lowered:
            return F
        f = F.ptr
        regs = {}
        F.regty = []
        for i in range(F.nparams):
            p = Param(f, i)
            regs[p] = i
            F.regty.append(self.ty(TypeOf(p)))
        F.pty = list(F.regty)
        bbs = []
        bbi = {}
        b = FirstBB(f)
        while b:
            bbi[b] = len(bbs)
            ins = []
            i = FirstIn(b)
            while i:
                ins.append(i)
                i = NextIn(i)
            bbs.append(ins)
            b = NextBB(b)
        n = F.nparams
        for ins in bbs:
            for i in ins:
                t = self.ty(TypeOf(i))
                if t[0] != 'v':
                    regs[i] = n
                    F.regty.append(t)
                    n += 1
        F.nregs = n
        F.consts = []
        cmap = {}

        def get(v):
            r = regs.get(v)
            if r is not None:
                return r
            k = Kind(v)
            if k == VK_MDV or k == VK_ASM:
                return -1
            if v in cmap:
                return cmap[v]
            try:
                c = self.const(v)
            except Unsupported as e:
                c = ('unsupported', str(e))
            r = n + len(F.consts)
            F.consts.append(c)
            cmap[v] = r
            return r

        F.blocks = []
        for bi, ins in enumerate(bbs):
            B = Block()
            B.idx = bi
            B.phis = []
            B.ins = []
            B.succ = []
            for i in ins:
                o = OPC.get(Opc(i), 'op%d' % Opc(i))
                dst = regs.get(i)
                line = DbgLine(i)
                fl = None
                if line:
                    ln = C.c_uint()
                    s = DbgFile(i, C.byref(ln))
                    fl = s[:ln.value].decode() if s else None
                try:
                    r = self.ins(F, i, o, dst, get, bbi)
                except Unsupported as e:
                    r = ('unsupported', (str(e),))
                if r is None:
                    continue
                op, a = r
                if op == 'phi':
                    B.phis.append((dst, a))
                else:
                    B.ins.append(Ins(op, dst, a, line, fl))
                    if op in ('br', 'cbr', 'switch', 'invoke'):
                        B.succ = list(a[0])
            F.blocks.append(B)
        self.loops(F)
        F.live = None
        F.lowered = True
        return F

    def ins(self, F, i, o, dst, get, bbi):
        ops = lambda k: get(Op(i, k))
        if o in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'):
            w = self.width(TypeOf(i))
            if w is None:
                raise Unsupported('vector op ' + self.text(i))
            nsw = bool(NSW(i)) if o in ('add', 'sub', 'mul', 'shl') else False
            nuw = bool(NUW(i)) if o in ('add', 'sub', 'mul', 'shl') else False
            return ('bin', (o, ops(0), ops(1), w, nsw, nuw))
        if o == 'icmp':
            w = self.width(TypeOf(Op(i, 0)))
            if w is None:
                raise Unsupported('icmp vector')
            return ('icmp', (PRED[ICmpPred(i)], ops(0), ops(1), w))
        if o == 'load':
            return ('load', (ops(0), self.ty(TypeOf(i)), StoreSize(self.dl, TypeOf(i)), Ordering(i) != 0))
        if o == 'store':
            return ('store', (ops(0), ops(1), self.ty(TypeOf(Op(i, 0))), StoreSize(self.dl, TypeOf(Op(i, 0))), Ordering(i) != 0))
        if o == 'gep':
            off, dyn = self.gep(i, get=get)
            return ('gep', (ops(0), off, dyn))
        if o == 'alloca':
            n = Op(i, 0)
            if Kind(n) != VK_CI:
                return ('allocadyn', (ABISize(self.dl, AllocTy(i)), get(n), self.width(TypeOf(n))))
            return ('alloca', (ABISize(self.dl, AllocTy(i)) * ZExt(n),))
        if o in ('trunc', 'zext', 'sext'):
            fw, w = self.width(TypeOf(Op(i, 0))), self.width(TypeOf(i))
            if fw is None:
                raise Unsupported('vector cast')
            return (o, (ops(0), fw, w))
        if o in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            fw, w = self.width(TypeOf(Op(i, 0))), self.width(TypeOf(i))
            if fw != w:
                if o == 'bitcast' or w is None or fw is None:
                    raise Unsupported('cast ' + self.text(i))
                return ('trunc' if w < fw else 'zext', (ops(0), fw, w))
            return ('mov', (ops(0),))
        if o == 'select':
            return ('select', (ops(0), ops(1), ops(2), self.ty(TypeOf(i))))
        if o == 'phi':
            return ('phi', {bbi[PhiB(i, k)]: get(PhiV(i, k)) for k in range(PhiN(i))})
        if o == 'br':
            if IsCond(i):
                return ('cbr', ((bbi[Succ(i, 0)], bbi[Succ(i, 1)]), get(Cond(i))))
            return ('br', ((bbi[Succ(i, 0)],),))
        if o == 'switch':
            n = NOps(i)
            dflt = bbi[AsBB(Op(i, 1))]
            cases = [(ZExt(Op(i, k)), bbi[AsBB(Op(i, k + 1))]) for k in range(2, n, 2)]
            return ('switch', (tuple([dflt] + [b for _, b in cases]), get(Op(i, 0)), self.width(TypeOf(Op(i, 0))), tuple(cases), dflt))
        if o == 'ret':
            return ('ret', (ops(0) if NOps(i) else None,))
        if o == 'unreachable':
            return ('unreachable', ())
        if o in ('call', 'invoke'):
            cv = Called(i)
            nargs = NArgs(i)
            args = []
            for k in range(nargs):
                av = Op(i, k)
                args.append(get(av))
            byval = []
            for k in range(nargs):
                at = CSAttr(i, k + 1, self.byval)
                if at:
                    byval.append((k, ABISize(self.dl, TypeAttrVal(at))))
            kind = Kind(cv)
            if kind == VK_ALIAS:
                cv = Aliasee(cv)
                kind = Kind(cv)
            callee = None
            cr = None
            if kind == VK_FUNC:
                callee = self.name(cv)
                if callee.startswith('llvm.dbg') or callee.startswith('llvm.experimental.noalias'):
                    return None
            elif kind == VK_ASM:
                raise Unsupported('inline asm')
            else:
                cr = get(cv)
            rt = self.ty(TypeOf(i))
            aty = tuple(self.ty(TypeOf(Op(i, k))) if Kind(Op(i, k)) != VK_MDV else ('v',) for k in range(nargs))
            if o == 'call':
                return ('call', (callee, cr, tuple(args), rt, aty, tuple(byval), None, None))
            nd, ud = bbi[NormDest(i)], bbi[UnwDest(i)]
            return ('invoke', ((nd, ud), callee, cr, tuple(args), rt, aty, tuple(byval), nd, ud))
        if o == 'landingpad':
            cl = []
            for k in range(NClauses(i)):
                c = Clause(i, k)
                kk = Kind(c)
                if TypeKind(TypeOf(c)) == TK_ARR:
                    cl.append(('filter', self.const(c)))
                else:
                    cl.append(('catch', self.const(c)))
            return ('landingpad', (tuple(cl), bool(IsCleanup(i))))
        if o == 'resume':
            return ('resume', (ops(0),))
        if o == 'extractvalue':
            ix = Idx(i)
            return ('extractvalue', (ops(0), tuple(ix[k] for k in range(NIdx(i)))))
        if o == 'insertvalue':
            ix = Idx(i)
            return ('insertvalue', (ops(0), ops(1), tuple(ix[k] for k in range(NIdx(i)))))
        if o == 'atomicrmw':
            w = self.width(TypeOf(i))
            return ('atomicrmw', (RMWOp(i), ops(0), ops(1), w))
        if o == 'cmpxchg':
            w = self.width(TypeOf(Op(i, 1)))
            return ('cmpxchg', (ops(0), ops(1), ops(2), w))
        if o == 'fence':
            return None
        raise Unsupported(o + ': ' + self.text(i)[:200])

    def loops(self, F):
        """headers = targets of DFS back edges"""
        n = len(F.blocks)
        state = [0] * n
        F.headers = set()
        stack = [(0, iter(F.blocks[0].succ))] if n else []
        if n:
            state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state[s] == 0:
                    state[s] = 1
                    stack.append((s, iter(F.blocks[s].succ)))
                    break
                if state[s] == 1:
                    F.headers.add(s)
            else:
                state[b] = 2
                stack.pop()

    def uses(self, ins):
        a = ins.a
        op = ins.op
        if op == 'bin' or op == 'icmp':
            return (a[1], a[2])
        if op == 'load':
            return (a[0],)
        if op == 'store':
            return (a[0], a[1])
        if op == 'gep':
            return (a[0],) + tuple(d[0] for d in a[2])
        if op == 'allocadyn':
            return (a[1],)
        if op in ('trunc', 'zext', 'sext', 'mov', 'resume'):
            return (a[0],)
        if op == 'select':
            return a[:3]
        if op == 'cbr' or op == 'switch':
            return (a[1],)
        if op == 'ret':
            return (a[0],) if a[0] is not None else ()
        if op == 'call':
            return (() if a[1] is None else (a[1],)) + a[2]
        if op == 'invoke':
            return (() if a[2] is None else (a[2],)) + a[3]
        if op == 'extractvalue':
            return (a[0],)
        if op == 'insertvalue':
            return (a[0], a[1])
        if op == 'atomicrmw':
            return (a[1], a[2])
        if op == 'cmpxchg':
            return a[:3]
        return ()

    def liveness(self, F):
        """live-in register sets per block (phi results of the block included)"""
        if F.live is not None:
            return F.live
        nb = len(F.blocks)
        N = F.nregs
        use = []
        df = []
        for B in F.blocks:
            u, d = set(), set(x for x, _ in B.phis)
            for ins in B.ins:
                for r in self.uses(ins):
                    if 0 <= r < N and r not in d:
                        u.add(r)
                if ins.dst is not None:
                    d.add(ins.dst)
            use.append(u)
            df.append(d)
        live = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for b in range(nb - 1, -1, -1):
                out = set()
                for s in F.blocks[b].succ:
                    out |= live[s] - set(x for x, _ in F.blocks[s].phis)
                    for _, m in F.blocks[s].phis:
                        r = m.get(b)
                        if r is not None and r < N:
                            out.add(r)
                new = use[b] | (out - df[b]) | (live[b] & set())
                # phis of this block count as live at its start
                new |= set(x for x, _ in F.blocks[b].phis)
                if new != live[b]:
                    live[b] = new
                    ch = True
        F.live = live
        return live
