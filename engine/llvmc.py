"""Loader: turns LLVM bitcode (compiled from /repo's current sources) into plain
Python structures, through the LLVM-C API.  Nothing here interprets the code; it
only decodes it.  Values are small tuples:

  ('c', n)            integer constant (unsigned representation)
  ('null',)           null pointer
  ('undef',)          undef / poison
  ('r', i)            SSA register (argument or instruction result)
  ('g', name)         global variable (address)
  ('f', name)         function (address)
  ('gep', val, off)   constant expression: val + byte offset
  ('agg', [..])       constant aggregate
"""
import ctypes as C
import functools

_L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM.so.1')
P = C.c_void_p


def _fn(name, res, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


CreateMB = _fn('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBC = _fn('LLVMParseBitcode2', C.c_int, P, C.POINTER(P))
FirstFn = _fn('LLVMGetFirstFunction', P, P)
NextFn = _fn('LLVMGetNextFunction', P, P)
FirstGV = _fn('LLVMGetFirstGlobal', P, P)
NextGV = _fn('LLVMGetNextGlobal', P, P)
GetName = _fn('LLVMGetValueName2', P, P, C.POINTER(C.c_size_t))
IsDecl = _fn('LLVMIsDeclaration', C.c_int, P)
CountParams = _fn('LLVMCountParams', C.c_uint, P)
GetParam = _fn('LLVMGetParam', P, P, C.c_uint)
FirstBB = _fn('LLVMGetFirstBasicBlock', P, P)
NextBB = _fn('LLVMGetNextBasicBlock', P, P)
FirstI = _fn('LLVMGetFirstInstruction', P, P)
NextI = _fn('LLVMGetNextInstruction', P, P)
Opcode = _fn('LLVMGetInstructionOpcode', C.c_int, P)
NumOps = _fn('LLVMGetNumOperands', C.c_int, P)
GetOp = _fn('LLVMGetOperand', P, P, C.c_uint)
TypeOf = _fn('LLVMTypeOf', P, P)
TypeKind = _fn('LLVMGetTypeKind', C.c_int, P)
IntWidth = _fn('LLVMGetIntTypeWidth', C.c_uint, P)
ElemTy = _fn('LLVMGetElementType', P, P)
ArrLen = _fn('LLVMGetArrayLength2', C.c_uint64, P)
CountElems = _fn('LLVMCountStructElementTypes', C.c_uint, P)
StructElem = _fn('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
StructName = _fn('LLVMGetStructName', C.c_char_p, P)
IsConst = _fn('LLVMIsConstant', C.c_int, P)
ValueKind = _fn('LLVMGetValueKind', C.c_int, P)
ConstZ = _fn('LLVMConstIntGetZExtValue', C.c_uint64, P)
PrintV = _fn('LLVMPrintValueToString', P, P)
DisposeMsg = _fn('LLVMDisposeMessage', None, P)
GepTy = _fn('LLVMGetGEPSourceElementType', P, P)
ConstOpcode = _fn('LLVMGetConstOpcode', C.c_int, P)
AllocTy = _fn('LLVMGetAllocatedType', P, P)
ICmpPred = _fn('LLVMGetICmpPredicate', C.c_int, P)
CalledVal = _fn('LLVMGetCalledValue', P, P)
NumArgs = _fn('LLVMGetNumArgOperands', C.c_uint, P)
NumSucc = _fn('LLVMGetNumSuccessors', C.c_uint, P)
Succ = _fn('LLVMGetSuccessor', P, P, C.c_uint)
IsCond = _fn('LLVMIsConditional', C.c_int, P)
Cond = _fn('LLVMGetCondition', P, P)
CountInc = _fn('LLVMCountIncoming', C.c_uint, P)
IncVal = _fn('LLVMGetIncomingValue', P, P, C.c_uint)
IncBB = _fn('LLVMGetIncomingBlock', P, P, C.c_uint)
NumIdx = _fn('LLVMGetNumIndices', C.c_uint, P)
Indices = _fn('LLVMGetIndices', C.POINTER(C.c_uint), P)
GlobInit = _fn('LLVMGetInitializer', P, P)
GlobValTy = _fn('LLVMGlobalGetValueType', P, P)
IsGlobConst = _fn('LLVMIsGlobalConstant', C.c_int, P)
ElemConst = _fn('LLVMGetElementAsConstant', P, P, C.c_uint)
GetAggElem = _fn('LLVMGetAggregateElement', P, P, C.c_uint)
IsConstStr = _fn('LLVMIsConstantString', C.c_int, P)
AsStr = _fn('LLVMGetAsString', P, P, C.POINTER(C.c_size_t))
ModDL = _fn('LLVMGetModuleDataLayout', P, P)
AbiSize = _fn('LLVMABISizeOfType', C.c_ulonglong, P, P)
OffElem = _fn('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
DbgLine = _fn('LLVMGetDebugLocLine', C.c_uint, P)
DbgFile = _fn('LLVMGetDebugLocFilename', P, P, C.POINTER(C.c_uint))
NormalDest = _fn('LLVMGetNormalDest', P, P)
UnwindDest = _fn('LLVMGetUnwindDest', P, P)
GetNSW = _fn('LLVMGetNSW', C.c_int, P)
AliaseeF = _fn('LLVMAliasGetAliasee', P, P)
FirstAlias = _fn('LLVMGetFirstGlobalAlias', P, P)
NextAlias = _fn('LLVMGetNextGlobalAlias', P, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume',
       59: 'landingpad', 61: 'cleanupret', 62: 'catchret', 63: 'catchpad', 64: 'cleanuppad', 65: 'catchswitch'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}

_cxx = C.CDLL('libstdc++.so.6')
_dem = _cxx.__cxa_demangle
_dem.restype = P
_dem.argtypes = [C.c_char_p, P, P, C.POINTER(C.c_int)]
_libc = C.CDLL(None)
_libc.free.argtypes = [P]


@functools.lru_cache(None)
def demangle(n):
    if not n.startswith('_Z'):
        return n
    st = C.c_int()
    r = _dem(n.encode(), None, None, C.byref(st))
    if st.value != 0 or not r:
        return n
    s = C.string_at(r).decode()
    _libc.free(r)
    return s


class Inst:
    __slots__ = ('op', 'res', 'a', 'ty', 'x', 'line')

    def __init__(s, op, res, a, ty, x, line):
        s.op, s.res, s.a, s.ty, s.x, s.line = op, res, a, ty, x, line

    def __repr__(s):
        return f'%{s.res} = {s.op} {s.ty} {s.a} {s.x} @{s.line}'


class Func:
    def __init__(s, name):
        s.name = name
        s.dem = demangle(name)
        s.params = []      # types
        s.blocks = []      # list of list of Inst
        s.nregs = 0
        s.file = None
        s.line = 0


class Module:
    """Types: ('i',n) ints are given as int n; 'p' pointer; 'v' void;
    ('s', size, [(off, ty)..]) struct; ('a', size, n, elty, elsize) array; 'f' float."""

    def __init__(self, path):
        mb, err, m = P(), C.c_char_p(), P()
        if CreateMB(path.encode(), C.byref(mb), C.byref(err)):
            raise RuntimeError('cannot read ' + path)
        if ParseBC(mb, C.byref(m)):
            raise RuntimeError('cannot parse ' + path)
        self.m = m
        self.dl = ModDL(m)
        self.fptr, self.gptr = {}, {}
        self._ty, self._funcs, self._ginit = {}, {}, {}
        f = FirstFn(m)
        while f:
            self.fptr[self._name(f)] = f
            f = NextFn(f)
        a = FirstAlias(m)
        while a:
            self.fptr[self._name(a)] = AliaseeF(a)
            a = NextAlias(a)
        g = FirstGV(m)
        while g:
            self.gptr[self._name(g)] = g
            g = NextGV(g)

    @staticmethod
    def _name(v):
        n = C.c_size_t()
        p = GetName(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def is_decl(self, name):
        f = self.fptr.get(name)
        return f is None or bool(IsDecl(f))

    # ---- types
    def type(self, t):
        r = self._ty.get(t)
        if r is None:
            r = self._ty[t] = self._type(t)
        return r

    def _type(self, t):
        k = TypeKind(t)
        if k == 8:
            return IntWidth(t)
        if k == 12:
            return 'p'
        if k == 0:
            return 'v'
        if k == 10:
            sz = AbiSize(self.dl, t)
            return ('s', sz, tuple((OffElem(self.dl, t, i), self.type(StructElem(t, i))) for i in range(CountElems(t))))
        if k == 11:
            n = ArrLen(t)
            e = ElemTy(t)
            return ('a', AbiSize(self.dl, t), n, self.type(e), AbiSize(self.dl, e))
        if k == 13:
            return ('vec', AbiSize(self.dl, t))
        return ('other', k)

    def tsize(self, ty):
        if isinstance(ty, int):
            n = (ty + 7) // 8
            return 1 << (n - 1).bit_length() if n <= 8 else n
        if ty == 'p':
            return 8
        return ty[1]

    # ---- constants
    def const(self, v):
        k = ValueKind(v)
        if k == 18:                                   # ConstantInt
            w = IntWidth(TypeOf(v))
            if w <= 64:
                return ('c', ConstZ(v) & ((1 << w) - 1))
            p = PrintV(v)
            s = C.string_at(p).decode()
            DisposeMsg(p)
            return ('c', int(s.split()[1]) & ((1 << w) - 1))
        if k == 20:
            return ('null',)
        if k in (11, 24, 25) or k == 12:
            return ('undef',)
        if k == 5:
            return ('f', self._name(v))
        if k == 8:
            return ('g', self._name(v))
        if k == 6:
            return ('f', self._name(v))
        if k == 10:                                   # ConstantExpr
            op = OPC[ConstOpcode(v)]
            if op == 'gep':
                off = self.gep_parts(v)
                if off[1]:
                    raise NotImplementedError('symbolic const gep')
                return ('gep', self.const(GetOp(v, 0)), off[0])
            if op in ('bitcast', 'ptrtoint', 'inttoptr'):
                return self.const(GetOp(v, 0))
            raise NotImplementedError('constexpr ' + op)
        if k == 14 or k == 15 or k == 9 or k == 13 or k == 16 or k == 17:   # aggregates
            ty = self.type(TypeOf(v))
            n = ty[2] if ty[0] == 'a' else len(ty[2])
            if k == 9 or k == 13:
                pass
            return ('agg', [self.const(GetAggElem(v, i)) for i in range(n)])
        p = PrintV(v)
        s = C.string_at(p).decode()
        DisposeMsg(p)
        if 'zeroinitializer' in s:
            return ('zero',)
        return ('unk', k, s[:80])

    def global_init(self, name):
        """(size, const?, list of (offset, size, value)) or None for an external global."""
        if name in self._ginit:
            return self._ginit[name]
        g = self.gptr[name]
        t = self.type(GlobValTy(g))
        init = GlobInit(g) if not IsDecl(g) else None
        out = None
        if init:
            cells = []
            self._flat(self.const_any(init), t, 0, cells)
            out = cells
        r = (self.tsize(t), bool(IsGlobConst(g)), out, t)
        self._ginit[name] = r
        return r

    def const_any(self, v):
        t = TypeOf(v)
        k = TypeKind(t)
        p = PrintV(v) if k in (10, 11) else None
        if p:
            s = C.string_at(p)
            DisposeMsg(p)
            if s.rstrip().endswith(b'zeroinitializer'):
                return ('zero',)
        if k == 11 and IsConstStr(v):
            n = C.c_size_t()
            q = AsStr(v, C.byref(n))
            return ('agg', [('c', b) for b in C.string_at(q, n.value)])
        if k in (10, 11):
            ty = self.type(t)
            n = ty[2] if ty[0] == 'a' else len(ty[2])
            return ('agg', [self.const_any(GetAggElem(v, i)) for i in range(n)])
        return self.const(v)

    def _flat(self, c, ty, off, out):
        if c[0] == 'zero':
            out.append((off, self.tsize(ty), ('zero',)))
        elif c[0] == 'agg':
            if ty[0] == 'a':
                for i, e in enumerate(c[1]):
                    self._flat(e, ty[3], off + i * ty[4], out)
            else:
                for (o, et), e in zip(ty[2], c[1]):
                    self._flat(e, et, off + o, out)
        else:
            out.append((off, self.tsize(ty), c))

    def gep_parts(self, v):
        """(constant byte offset, [(operand ptr, scale)])."""
        t = GepTy(v)
        n = NumOps(v)
        const, sym = 0, []
        i0 = GetOp(v, 1)
        sz = AbiSize(self.dl, t)

        def add(idx, scale):
            nonlocal const
            if ValueKind(idx) == 18:
                w = IntWidth(TypeOf(idx))
                c = ConstZ(idx) & ((1 << w) - 1)
                if c >> (w - 1):
                    c -= 1 << w
                const += c * scale
            else:
                sym.append((idx, scale))
        add(i0, sz)
        cur = t
        for i in range(2, n):
            idx = GetOp(v, i)
            k = TypeKind(cur)
            if k == 10:
                c = ConstZ(idx)
                const += OffElem(self.dl, cur, c)
                cur = StructElem(cur, c)
            else:
                cur = ElemTy(cur)
                add(idx, AbiSize(self.dl, cur))
        return const, sym

    # ---- functions
    def func(self, name):
        f = self._funcs.get(name)
        if f is None:
            f = self._funcs[name] = self._func(name)
        return f

    def _func(self, name):
        fp = self.fptr[name]
        F = Func(name)
        regs = {}
        for i in range(CountParams(fp)):
            p = GetParam(fp, i)
            regs[p] = len(regs)
            F.params.append(self.type(TypeOf(p)))
        bbs = {}
        b = FirstBB(fp)
        order = []
        while b:
            bbs[b] = len(order)
            order.append(b)
            i = FirstI(b)
            while i:
                regs[i] = len(regs)
                i = NextI(i)
            b = NextBB(b)
        F.nregs = len(regs)

        def val(v):
            r = regs.get(v)
            if r is not None:
                return ('r', r)
            return self.const(v)
        n = C.c_uint()
        for b in order:
            blk = []
            i = FirstI(b)
            while i:
                op = OPC[Opcode(i)]
                ty = self.type(TypeOf(i))
                res = regs[i]
                line = DbgLine(i)
                if line and not F.line:
                    F.line = line
                    fpn = DbgFile(i, C.byref(n))
                    F.file = C.string_at(fpn, n.value).decode() if fpn else None
                a, x = (), None
                if op == 'br':
                    if IsCond(i):
                        a = (val(Cond(i)),)
                        x = (bbs[Succ(i, 0)], bbs[Succ(i, 1)])
                    else:
                        x = (bbs[Succ(i, 0)],)
                elif op == 'switch':
                    a = (val(GetOp(i, 0)),)
                    cases = []
                    for k in range(1, NumSucc(i)):
                        cases.append((self.const(GetOp(i, 2 * k))[1], bbs[Succ(i, k)]))
                    x = (bbs[Succ(i, 0)], cases)
                elif op in ('call', 'invoke'):
                    cv = CalledVal(i)
                    try:
                        callee = val(cv)
                    except NotImplementedError:
                        callee = ('unk',)
                    args = []
                    for k in range(NumArgs(i)):
                        o = GetOp(i, k)
                        if TypeKind(TypeOf(o)) == 14:     # metadata
                            args.append(('undef',))
                        else:
                            args.append((val(o)))
                    a = tuple(args)
                    x = (callee, tuple(self.type(TypeOf(GetOp(i, k))) for k in range(NumArgs(i))),
                         (bbs[NormalDest(i)], bbs[UnwindDest(i)]) if op == 'invoke' else None)
                elif op == 'phi':
                    x = [(bbs[IncBB(i, k)], val(IncVal(i, k))) for k in range(CountInc(i))]
                elif op == 'gep':
                    c, sym = self.gep_parts(i)
                    a = (val(GetOp(i, 0)),)
                    x = (c, [(val(v), IntWidth(TypeOf(v)), s) for v, s in sym])
                elif op == 'alloca':
                    t = self.type(AllocTy(i))
                    a = (val(GetOp(i, 0)),)
                    x = (t, self.tsize(t))
                elif op == 'icmp':
                    a = (val(GetOp(i, 0)), val(GetOp(i, 1)))
                    x = (PRED[ICmpPred(i)], self.type(TypeOf(GetOp(i, 0))))
                elif op in ('extractvalue', 'insertvalue'):
                    a = tuple(val(GetOp(i, k)) for k in range(NumOps(i)))
                    ix = Indices(i)
                    x = tuple(ix[k] for k in range(NumIdx(i)))
                elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
                    a = (val(GetOp(i, 0)),)
                    x = self.type(TypeOf(GetOp(i, 0)))
                elif op in ('landingpad', 'resume', 'unreachable'):
                    pass
                elif op == 'store':
                    a = (val(GetOp(i, 0)), val(GetOp(i, 1)))
                    x = self.type(TypeOf(GetOp(i, 0)))
                else:
                    a = tuple(val(GetOp(i, k)) for k in range(NumOps(i)))
                    if op in ('add', 'sub', 'mul', 'shl'):
                        x = bool(GetNSW(i))
                blk.append(Inst(op, res, a, ty, x, line))
                i = NextI(i)
            F.blocks.append(blk)
        return F
