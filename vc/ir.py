"""LLVM bitcode loader: reads the module that clang produced from /repo's sources through the LLVM-C API
(ctypes on libLLVM-18) and decodes functions lazily into flat Python lists."""
import ctypes as C
import os

_LIBS = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so.1"]
L = None
for _p in _LIBS:
    try:
        L = C.CDLL(_p)
        break
    except OSError:
        continue
if L is None:
    raise ImportError("libLLVM-18 not found")

V = C.c_void_p
U = C.c_uint
def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn

CreateMB = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(V), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, V, V, C.POINTER(V))
CtxCreate = _f("LLVMContextCreate", V)
GetDL = _f("LLVMGetModuleDataLayout", V, V)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, V, V)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, V, V)
OffsetOf = _f("LLVMOffsetOfElement", C.c_ulonglong, V, V, U)
FirstFunction = _f("LLVMGetFirstFunction", V, V)
NextFunction = _f("LLVMGetNextFunction", V, V)
FirstGlobal = _f("LLVMGetFirstGlobal", V, V)
NextGlobal = _f("LLVMGetNextGlobal", V, V)
ValueName2 = _f("LLVMGetValueName2", C.c_void_p, V, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, V)
GetInit = _f("LLVMGetInitializer", V, V)
GlobalValueType = _f("LLVMGlobalGetValueType", V, V)
IsGlobalConstant = _f("LLVMIsGlobalConstant", C.c_int, V)
FirstBB = _f("LLVMGetFirstBasicBlock", V, V)
NextBB = _f("LLVMGetNextBasicBlock", V, V)
FirstInst = _f("LLVMGetFirstInstruction", V, V)
NextInst = _f("LLVMGetNextInstruction", V, V)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, V)
TypeOf = _f("LLVMTypeOf", V, V)
TypeKind = _f("LLVMGetTypeKind", C.c_int, V)
IntWidth = _f("LLVMGetIntTypeWidth", U, V)
ArrayLen = _f("LLVMGetArrayLength2", C.c_ulonglong, V)
VecLen = _f("LLVMGetVectorSize", U, V)
ElemType = _f("LLVMGetElementType", V, V)
NStruct = _f("LLVMCountStructElementTypes", U, V)
StructElt = _f("LLVMStructGetTypeAtIndex", V, V, U)
NumOperands = _f("LLVMGetNumOperands", C.c_int, V)
Operand = _f("LLVMGetOperand", V, V, U)
NumArgOperands = _f("LLVMGetNumArgOperands", U, V)
CalledValue = _f("LLVMGetCalledValue", V, V)
CalledFnType = _f("LLVMGetCalledFunctionType", V, V)
CountParams = _f("LLVMCountParams", U, V)
GetParam = _f("LLVMGetParam", V, V, U)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, V)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, V)
CountIncoming = _f("LLVMCountIncoming", U, V)
IncomingValue = _f("LLVMGetIncomingValue", V, V, U)
IncomingBlock = _f("LLVMGetIncomingBlock", V, V, U)
NumSucc = _f("LLVMGetNumSuccessors", U, V)
Succ = _f("LLVMGetSuccessor", V, V, U)
IsConditional = _f("LLVMIsConditional", C.c_int, V)
AllocatedType = _f("LLVMGetAllocatedType", V, V)
GEPSource = _f("LLVMGetGEPSourceElementType", V, V)
NumIndices = _f("LLVMGetNumIndices", U, V)
GetIndices = _f("LLVMGetIndices", C.POINTER(U), V)
IsAConstantInt = _f("LLVMIsAConstantInt", V, V)
IsAConstantFP = _f("LLVMIsAConstantFP", V, V)
ConstZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, V)
ConstReal = _f("LLVMConstRealGetDouble", C.c_double, V, C.POINTER(C.c_int))
IsNull = _f("LLVMIsNull", C.c_int, V)
IsUndef = _f("LLVMIsUndef", C.c_int, V)
ValueKind = _f("LLVMGetValueKind", C.c_int, V)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, V)
AggElt = _f("LLVMGetAggregateElement", V, V, U)
IsConstString = _f("LLVMIsConstantString", C.c_int, V)
AsString = _f("LLVMGetAsString", C.c_void_p, V, C.POINTER(C.c_size_t))
NumMask = _f("LLVMGetNumMaskElements", U, V)
MaskVal = _f("LLVMGetMaskValue", C.c_int, V, U)
PrintValue = _f("LLVMPrintValueToString", C.c_void_p, V)
DisposeMsg = _f("LLVMDisposeMessage", None, C.c_void_p)
AliasAliasee = _f("LLVMAliasGetAliasee", V, V)
FirstAlias = _f("LLVMGetFirstGlobalAlias", V, V)
NextAlias = _f("LLVMGetNextGlobalAlias", V, V)
SwitchDefault = _f("LLVMGetSwitchDefaultDest", V, V)
NormalDest = _f("LLVMGetNormalDest", V, V)
UnwindDest = _f("LLVMGetUnwindDest", V, V)
NumClauses = _f("LLVMGetNumClauses", U, V)
IsCleanup = _f("LLVMIsCleanup", C.c_int, V)

OPN = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub',
       12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr',
       22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext',
       32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 60: 'addrspacecast', 68: 'freeze'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt', 11: 'uge',
        12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Undef:
    def __repr__(self):
        return 'UNDEF'
UNDEF = Undef()


class Type:
    __slots__ = ('kind', 'w', 'n', 'el', 'els', 'size', 'offs', 'store')
    def __repr__(self):
        return '%s%s' % (self.kind, self.w or '')


class Fn:
    """A function of the module; body decoded on first use."""
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.decl = bool(IsDecl(ref))
        self.loaded = False
        self.loops = None
    def __repr__(self):
        return '@' + self.name
    def load(self):
        if not self.loaded:
            _decode(self)
            self.loaded = True


class GVar:
    """Address of a global variable."""
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.decl = bool(IsDecl(ref))
        self.const = bool(IsGlobalConstant(ref))
        self.type = mod.type(GlobalValueType(ref))
    def __repr__(self):
        return '@' + self.name
    def init(self):
        return None if self.decl else self.mod.const(GetInit(self.ref))


class GAddr:
    """constant address: global + offset"""
    __slots__ = ('g', 'off')
    def __init__(self, g, off):
        self.g, self.off = g, off
    def __repr__(self):
        return '%r+%d' % (self.g, self.off)


class CFloat:
    """floating-point constant"""
    __slots__ = ('v',)
    def __init__(self, v):
        self.v = v
    def __repr__(self):
        return 'CFloat(%r)' % self.v


class Agg:
    """constant aggregate"""
    __slots__ = ('els',)
    def __init__(self, els):
        self.els = els


NULLP = 'null'


class Inst:
    __slots__ = ('op', 'dst', 'ops', 'ty', 'x', 'y', 'z')
    def __init__(self, op, dst, ops, ty):
        self.op, self.dst, self.ops, self.ty = op, dst, ops, ty
        self.x = self.y = self.z = None


class Block:
    __slots__ = ('idx', 'insts', 'phis', 'succs', 'ref', 'name')


def _cstr(p, n):
    return C.string_at(p, n).decode('utf-8', 'replace')


def vname(ref):
    n = C.c_size_t()
    p = ValueName2(ref, C.byref(n))
    return _cstr(p, n.value)


class Module:
    def __init__(self, path):
        self.ctx = CtxCreate()
        mb = V()
        msg = C.c_char_p()
        if CreateMB(path.encode(), C.byref(mb), C.byref(msg)):
            raise IOError("cannot read %s" % path)
        m = V()
        if ParseBC(self.ctx, mb, C.byref(m)):
            raise IOError("cannot parse bitcode %s" % path)
        self.m = m
        self.dl = GetDL(m)
        self._types = {}
        self._consts = {}
        self.fns = {}
        self.gvars = {}
        self.byref = {}
        f = FirstFunction(m)
        while f:
            n = vname(f)
            o = Fn(self, f, n)
            self.fns[n] = o
            self.byref[f] = o
            f = NextFunction(f)
        g = FirstGlobal(m)
        while g:
            n = vname(g)
            o = GVar(self, g, n)
            self.gvars[n] = o
            self.byref[g] = o
            g = NextGlobal(g)
        a = FirstAlias(m)
        while a:
            self.byref[a] = ('alias', a)
            o = self._alias(a)
            if isinstance(o, Fn):
                self.fns[vname(a)] = o
            a = NextAlias(a)

    def _alias(self, a):
        t = AliasAliasee(a)
        o = self.byref.get(t)
        if isinstance(o, tuple):
            return self._alias(o[1])
        return o

    def type(self, ref):
        t = self._types.get(ref)
        if t is not None:
            return t
        k = TypeKind(ref)
        t = Type()
        t.w = 0
        t.n = 0
        t.el = None
        t.els = None
        t.offs = None
        t.size = 0
        t.store = 0
        if k == 0:
            t.kind = 'void'
        elif k == 8:
            t.kind = 'int'
            t.w = IntWidth(ref)
        elif k == 3:
            t.kind = 'double'
        elif k == 2:
            t.kind = 'float'
        elif k == 12:
            t.kind = 'ptr'
            t.w = 64
        elif k == 10:
            t.kind = 'struct'
        elif k == 11:
            t.kind = 'array'
            t.n = ArrayLen(ref)
        elif k == 13:
            t.kind = 'vec'
            t.n = VecLen(ref)
        elif k == 9:
            t.kind = 'fn'
        elif k == 4:
            t.kind = 'x86fp80'
        else:
            t.kind = 'other%d' % k
        self._types[ref] = t
        if t.kind in ('array', 'vec'):
            t.el = self.type(ElemType(ref))
        if t.kind == 'struct':
            n = NStruct(ref)
            t.els = [self.type(StructElt(ref, i)) for i in range(n)]
            try:
                t.offs = [OffsetOf(self.dl, ref, i) for i in range(n)]
            except Exception:
                t.offs = None
        if t.kind in ('int', 'double', 'float', 'ptr', 'struct', 'array', 'vec', 'x86fp80'):
            t.size = ABISize(self.dl, ref)
            t.store = StoreSize(self.dl, ref)
        return t

    def const(self, ref):
        c = self._consts.get(ref)
        if c is None:
            c = self._const(ref)
            self._consts[ref] = c
        return c

    def _const(self, ref):
        g = self.byref.get(ref)
        if g is not None:
            if isinstance(g, tuple):
                g = self._alias(g[1])
            return GAddr(g, 0)
        ty = self.type(TypeOf(ref))
        if IsUndef(ref):
            if ty.kind in ('struct', 'array', 'vec'):
                return self._zero(ty, UNDEF)
            return UNDEF
        if IsAConstantInt(ref):
            if ty.w <= 64:
                return ConstZExt(ref)
            return self._bigint(ref, ty)
        if IsAConstantFP(ref):
            ls = C.c_int()
            return CFloat(ConstReal(ref, C.byref(ls)))
        if IsNull(ref):
            return self._zero(ty, None)
        k = ValueKind(ref)
        # 9.. : see LLVMValueKind: ConstantExpr=11? decode by trying
        if ty.kind in ('struct', 'array', 'vec'):
            if IsConstString(ref):
                n = C.c_size_t()
                p = AsString(ref, C.byref(n))
                return Agg(list(C.string_at(p, n.value)))
            n = ty.n if ty.kind != 'struct' else len(ty.els)
            return Agg([self.const(AggElt(ref, i)) for i in range(n)])
        op = OPN.get(ConstOpcode(ref))
        if op == 'gep':
            base = self.const(Operand(ref, 0))
            off, dyn = self.gep(ref, lambda r: self.const(r))
            assert not dyn, 'dynamic const gep'
            if base == NULLP:
                return off
            if isinstance(base, int):
                return base + off
            return GAddr(base.g, base.off + off)
        if op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
            c = self.const(Operand(ref, 0))
            if c == NULLP and op == 'ptrtoint':
                return 0
            return c
        if op in ('sub', 'add', 'trunc', 'xor', 'icmp', 'zext', 'mul', 'shl'):
            return ('cexpr', op, [self.const(Operand(ref, i)) for i in range(NumOperands(ref))], ty)
        raise NotImplementedError('constant ' + self.str(ref))

    def _bigint(self, ref, ty):
        s = self.str(ref)
        v = int(s.split()[-1])
        return v & ((1 << ty.w) - 1)

    def _zero(self, ty, u):
        if ty.kind == 'int':
            return 0 if u is None else u
        if ty.kind in ('double', 'float', 'x86fp80'):
            return CFloat(0.0) if u is None else u
        if ty.kind == 'ptr':
            return NULLP if u is None else u
        if ty.kind == 'struct':
            return Agg([self._zero(e, u) for e in ty.els])
        if ty.kind in ('array', 'vec'):
            z = self._zero(ty.el, u)
            return Agg([z] * ty.n)
        return UNDEF

    def str(self, ref):
        p = PrintValue(ref)
        s = C.string_at(p).decode('utf-8', 'replace')
        DisposeMsg(p)
        return s

    def gep(self, ref, getop):
        """(constant byte offset, [(operand, scale, width)])"""
        t = self.type(GEPSource(ref))
        n = NumOperands(ref)
        off = 0
        dyn = []
        for i in range(1, n):
            o = Operand(ref, i)
            if i == 1:
                scale = t.size
            elif t.kind == 'struct':
                k = ConstZExt(o)
                off += t.offs[k]
                t = t.els[k]
                continue
            else:
                t = t.el
                scale = t.size
            if IsAConstantInt(o):
                w = self.type(TypeOf(o)).w
                c = ConstZExt(o)
                if c >> (w - 1):
                    c -= 1 << w
                off += c * scale
            elif scale:
                dyn.append((getop(o), scale, self.type(TypeOf(o)).w))
        return off, dyn


def _decode(fn):
    mod = fn.mod
    slots = {}
    consts = []   # (slot, const)
    nslot = [0]

    def slot_of(ref):
        s = slots.get(ref)
        if s is None:
            s = nslot[0]
            nslot[0] += 1
            slots[ref] = s
        return s
    np_ = CountParams(fn.ref)
    fn.params = [slot_of(GetParam(fn.ref, i)) for i in range(np_)]
    bbs = []
    bbidx = {}
    b = FirstBB(fn.ref)
    while b:
        bbidx[b] = len(bbs)
        bbs.append(b)
        b = NextBB(b)
    local = set(slots)
    raw = []
    for b in bbs:
        lst = []
        i = FirstInst(b)
        while i:
            lst.append(i)
            local.add(i)
            i = NextInst(i)
        raw.append(lst)

    def op_(ref):
        s = slots.get(ref)
        if s is not None:
            return s
        s = slot_of(ref)
        if ref not in local:
            consts.append((s, mod.const(ref), mod.type(TypeOf(ref))))
        return s
    fn.blocks = []
    for bi, lst in enumerate(raw):
        blk = Block()
        blk.idx = bi
        blk.ref = bbs[bi]
        blk.insts = []
        blk.phis = {}
        blk.name = None
        phis = []
        for r in lst:
            opc = OPN.get(Opcode(r))
            if opc is None:
                raise NotImplementedError('opcode ' + mod.str(r))
            ty = mod.type(TypeOf(r))
            if opc == 'phi':
                d = op_(r)
                phis.append((d, ty))
                for k in range(CountIncoming(r)):
                    blk.phis.setdefault(bbidx[IncomingBlock(r, k)], []).append((d, op_(IncomingValue(r, k)), ty))
                continue
            ins = Inst(opc, None, (), ty)
            if ty.kind != 'void':
                ins.dst = op_(r)
            if opc == 'br':
                if IsConditional(r):
                    ins.ops = (op_(Operand(r, 0)),)
                    ins.x = (bbidx[Succ(r, 0)], bbidx[Succ(r, 1)])
                else:
                    ins.x = (bbidx[Succ(r, 0)],)
            elif opc == 'switch':
                n = NumOperands(r)
                ins.ops = (op_(Operand(r, 0)),)
                ins.y = mod.type(TypeOf(Operand(r, 0)))
                cases = []
                for k in range(2, n, 2):
                    cases.append((ConstZExt(Operand(r, k)), bbidx[Operand_bb(r, k + 1)]))
                ins.x = (cases, bbidx[SwitchDefault(r)])
            elif opc in ('call', 'invoke'):
                na = NumArgOperands(r)
                cv = CalledValue(r)
                args = []
                for k in range(na):
                    o = Operand(r, k)
                    if TypeKind(TypeOf(o)) == 14:   # metadata
                        args.append(None)
                    else:
                        args.append(op_(o))
                ins.ops = tuple(args)
                callee = mod.byref.get(cv)
                if isinstance(callee, tuple):
                    callee = mod._alias(callee[1])
                if callee is None and ValueKind(cv) == 25:
                    callee = 'asm'
                ins.x = callee if callee is not None else op_(cv)
                ins.z = tuple(mod.type(TypeOf(Operand(r, k))) if args[k] is not None else None for k in range(na))
                if opc == 'invoke':
                    ins.y = (bbidx[NormalDest(r)], bbidx[UnwindDest(r)])
            elif opc == 'gep':
                ins.ops = (op_(Operand(r, 0)),)
                ins.x, ins.y = mod.gep(r, op_)
            elif opc == 'alloca':
                ins.x = mod.type(AllocatedType(r))
                ins.ops = (op_(Operand(r, 0)),)
            elif opc in ('icmp', 'fcmp'):
                ins.ops = (op_(Operand(r, 0)), op_(Operand(r, 1)))
                ins.x = ICMP[ICmpPred(r)] if opc == 'icmp' else FCMP[FCmpPred(r)]
                ins.y = mod.type(TypeOf(Operand(r, 0)))
            elif opc in ('extractvalue', 'insertvalue'):
                n = NumIndices(r)
                p = GetIndices(r)
                ins.x = [p[k] for k in range(n)]
                ins.ops = tuple(op_(Operand(r, k)) for k in range(NumOperands(r)))
            elif opc == 'shufflevector':
                ins.ops = (op_(Operand(r, 0)), op_(Operand(r, 1)))
                ins.x = [MaskVal(r, k) for k in range(NumMask(r))]
                ins.y = mod.type(TypeOf(Operand(r, 0)))
            elif opc == 'landingpad':
                ins.ops = ()
                ins.x = NumClauses(r)
            else:
                ins.ops = tuple(op_(Operand(r, k)) for k in range(NumOperands(r)))
                if ins.ops:
                    ins.y = mod.type(TypeOf(Operand(r, 0)))
            blk.insts.append(ins)
        t = lst[-1]
        blk.succs = [bbidx[Succ(t, k)] for k in range(NumSucc(t))]
        blk.name = phis
        fn.blocks.append(blk)
    fn.nslots = nslot[0]
    fn.consts = consts
    # keep only phis lists complete in block order
    _loops(fn)


ValueAsBB = _f("LLVMValueAsBasicBlock", V, V)
def Operand_bb(r, k):
    return ValueAsBB(Operand(r, k))


def _loops(fn):
    """natural loops: header index -> set of body block indices"""
    n = len(fn.blocks)
    succ = [b.succs for b in fn.blocks]
    # DFS order
    order = []
    seen = [False] * n
    st = [(0, iter(succ[0]))]
    seen[0] = True
    while st:
        u, it = st[-1]
        for v in it:
            if not seen[v]:
                seen[v] = True
                st.append((v, iter(succ[v])))
                break
        else:
            order.append(u)
            st.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    preds = [[] for _ in range(n)]
    for u in rpo:
        for v in succ[u]:
            preds[v].append(u)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True
    loops = {}

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in idom:
                return False
            nb = idom[b]
            if nb == b:
                return False
            b = nb
    for u in rpo:
        for v in succ[u]:
            if dominates(v, u):
                body = loops.setdefault(v, {v})
                stack = [u]
                while stack:
                    x = stack.pop()
                    if x not in body:
                        body.add(x)
                        stack.extend(preds[x])
    fn.loops = loops
    fn.preds = preds
