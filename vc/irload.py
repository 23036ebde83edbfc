"""Loads LLVM 18 bitcode through the LLVM-C API (ctypes) into plain Python objects.

Nothing here interprets anything; it is a faithful reader of the module clang produced
from /repo's current source."""
import ctypes as C
import subprocess, glob

for _p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1"):
    try:
        L = C.CDLL(_p, mode=C.RTLD_LOCAL)
        break
    except OSError:
        L = None
if L is None:
    raise RuntimeError("no libLLVM")

VP = C.c_void_p
def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = args
    return fn

ContextCreate = _f("LLVMContextCreate", VP)
MemBufFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(VP), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, VP, VP, C.POINTER(VP))
FirstFunction = _f("LLVMGetFirstFunction", VP, VP)
NextFunction = _f("LLVMGetNextFunction", VP, VP)
FirstGlobal = _f("LLVMGetFirstGlobal", VP, VP)
NextGlobal = _f("LLVMGetNextGlobal", VP, VP)
FirstBB = _f("LLVMGetFirstBasicBlock", VP, VP)
NextBB = _f("LLVMGetNextBasicBlock", VP, VP)
FirstI = _f("LLVMGetFirstInstruction", VP, VP)
NextI = _f("LLVMGetNextInstruction", VP, VP)
GetName2 = _f("LLVMGetValueName2", C.c_char_p, VP, C.POINTER(C.c_size_t))
TypeOf = _f("LLVMTypeOf", VP, VP)
TypeKind = _f("LLVMGetTypeKind", C.c_int, VP)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, VP)
CountStructElts = _f("LLVMCountStructElementTypes", C.c_uint, VP)
StructEltAt = _f("LLVMStructGetTypeAtIndex", VP, VP, C.c_uint)
ArrayLen = _f("LLVMGetArrayLength2", C.c_uint64, VP)
VectorSize = _f("LLVMGetVectorSize", C.c_uint, VP)
EltType = _f("LLVMGetElementType", VP, VP)
ModuleDL = _f("LLVMGetModuleDataLayout", VP, VP)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, VP, VP)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, VP, VP)
ABIAlign = _f("LLVMABIAlignmentOfType", C.c_uint, VP, VP)
EltOffset = _f("LLVMOffsetOfElement", C.c_ulonglong, VP, VP, C.c_uint)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, VP)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, VP)
ValueKind = _f("LLVMGetValueKind", C.c_int, VP)
NumOperands = _f("LLVMGetNumOperands", C.c_int, VP)
Operand = _f("LLVMGetOperand", VP, VP, C.c_uint)
CountParams = _f("LLVMCountParams", C.c_uint, VP)
GetParam = _f("LLVMGetParam", VP, VP, C.c_uint)
IsDecl = _f("LLVMIsDeclaration", C.c_int, VP)
GlobalValueType = _f("LLVMGlobalGetValueType", VP, VP)
GetInit = _f("LLVMGetInitializer", VP, VP)
IsGlobalConst = _f("LLVMIsGlobalConstant", C.c_int, VP)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, VP)
IsConditional = _f("LLVMIsConditional", C.c_int, VP)
Condition = _f("LLVMGetCondition", VP, VP)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, VP)
Succ = _f("LLVMGetSuccessor", VP, VP, C.c_uint)
CountIncoming = _f("LLVMCountIncoming", C.c_uint, VP)
IncomingValue = _f("LLVMGetIncomingValue", VP, VP, C.c_uint)
IncomingBlock = _f("LLVMGetIncomingBlock", VP, VP, C.c_uint)
CalledValue = _f("LLVMGetCalledValue", VP, VP)
NumArgs = _f("LLVMGetNumArgOperands", C.c_uint, VP)
NormalDest = _f("LLVMGetNormalDest", VP, VP)
UnwindDest = _f("LLVMGetUnwindDest", VP, VP)
GEPSource = _f("LLVMGetGEPSourceElementType", VP, VP)
AllocatedType = _f("LLVMGetAllocatedType", VP, VP)
NumIndices = _f("LLVMGetNumIndices", C.c_uint, VP)
Indices = _f("LLVMGetIndices", C.POINTER(C.c_uint), VP)
NumClauses = _f("LLVMGetNumClauses", C.c_uint, VP)
Clause = _f("LLVMGetClause", VP, VP, C.c_uint)
IsCleanup = _f("LLVMIsCleanup", C.c_int, VP)
IsUndef = _f("LLVMIsUndef", C.c_int, VP)
BBAsValue = _f("LLVMBasicBlockAsValue", VP, VP)
ValueAsBB = _f("LLVMValueAsBasicBlock", VP, VP)
GetOperandBB = ValueAsBB
IntZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, VP)
PrintVal = _f("LLVMPrintValueToString", C.c_void_p, VP)
Dispose = _f("LLVMDisposeMessage", None, VP)
DataElt = _f("LLVMGetElementAsConstant", VP, VP, C.c_uint)
AggElt = _f("LLVMGetAggregateElement", VP, VP, C.c_uint)
AtomicRMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, VP)
GetExact = _f("LLVMGetExact", C.c_int, VP)
GetNUW = _f("LLVMGetNUW", C.c_int, VP)
GetNSW = _f("LLVMGetNSW", C.c_int, VP)
AliasGetAliasee = _f("LLVMAliasGetAliasee", VP, VP)
FirstAlias = _f("LLVMGetFirstGlobalAlias", VP, VP)
NextAlias = _f("LLVMGetNextGlobalAlias", VP, VP)
ReturnType = _f("LLVMGetReturnType", VP, VP)
MaskLen = _f("LLVMGetNumMaskElements", C.c_uint, VP)
MaskVal = _f("LLVMGetMaskValue", C.c_int, VP, C.c_uint)
TypeStr = _f("LLVMPrintTypeToString", C.c_void_p, VP)

GetSubprogram = _f("LLVMGetSubprogram", VP, VP)
ScopeFile = _f("LLVMDIScopeGetFile", VP, VP)
FileName = _f("LLVMDIFileGetFilename", C.c_void_p, VP, C.POINTER(C.c_uint))
FileDir = _f("LLVMDIFileGetDirectory", C.c_void_p, VP, C.POINTER(C.c_uint))
SubLine = _f("LLVMDISubprogramGetLine", C.c_uint, VP)
InstLoc = _f("LLVMInstructionGetDebugLoc", VP, VP)
LocLine = _f("LLVMDILocationGetLine", C.c_uint, VP)

OPC = {1:'ret',2:'br',3:'switch',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',
13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',
25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',
36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',
44:'phi',45:'call',46:'select',49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',
54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
PRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
VK = {0:'arg',1:'bb',5:'func',6:'alias',8:'global',10:'cexpr',11:'carr',12:'cstruct',13:'cvec',14:'undef',15:'czero',
16:'cdarr',17:'cdvec',18:'cint',19:'cfp',20:'cnull',22:'md',23:'asm',24:'inst',25:'undef'}


class Type:
    __slots__ = ("k", "w", "elts", "n", "elt", "size", "store", "offs", "align", "s")


class Instr:
    __slots__ = ("op", "ref", "ty", "ops", "x", "name")


class Block:
    __slots__ = ("ref", "phis", "instrs", "succs", "idx", "name", "fn")


class Function:
    def __init__(self, m, ref):
        self.m, self.ref = m, ref
        self.name = m._name(ref)
        self.decl = bool(IsDecl(ref))
        self.params = [GetParam(ref, i) for i in range(CountParams(ref))]
        self.ptys = [m.ty(TypeOf(p)) for p in self.params]
        self.rty = m.ty(ReturnType(GlobalValueType(ref)))
        self._blocks = None
        self.loops = None

    @property
    def src(self):
        """(file, line) of the definition, from the line tables"""
        sp = GetSubprogram(self.ref)
        if not sp:
            return None
        f = ScopeFile(sp)
        if not f:
            return None
        n = C.c_uint()
        p = FileName(f, C.byref(n))
        name = C.string_at(p, n.value).decode()
        if not name.startswith("/"):
            p = FileDir(f, C.byref(n))
            name = C.string_at(p, n.value).decode() + "/" + name
        return name, SubLine(sp)

    @property
    def dname(self):
        return self.m.demangled.get(self.name, self.name)

    def load(self):
        if self._blocks is None:
            self.m._load_fn(self)
        return self._blocks


class Module:
    def __init__(self, path):
        ctx = ContextCreate()
        buf, msg = VP(), C.c_char_p()
        if MemBufFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read " + path)
        mod = VP()
        if ParseBC(ctx, buf, C.byref(mod)):
            raise RuntimeError("cannot parse " + path)
        self.ref = mod
        self.dl = ModuleDL(mod)
        self._types = {}
        self.by_ref, self.by_name = {}, {}
        f = FirstFunction(mod)
        while f:
            fn = Function(self, f)
            self.by_ref[f] = fn
            self.by_name[fn.name] = fn
            f = NextFunction(f)
        self.globals = {}
        g = FirstGlobal(mod)
        while g:
            self.globals[g] = self._name(g)
            g = NextGlobal(g)
        self.aliases = {}
        a = FirstAlias(mod)
        while a:
            self.aliases[a] = AliasGetAliasee(a)
            a = NextAlias(a)
        names = list(self.by_name) + list(self.globals.values())
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self.demangled = dict(zip(names, out))
        self.gref_by_name = {n: r for r, n in self.globals.items()}

    def _name(self, v):
        n = C.c_size_t()
        s = GetName2(v, C.byref(n))
        return s.decode(errors="replace") if s else ""

    def ty(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        r = Type()
        self._types[t] = r
        k = TypeKind(t)
        r.w = r.n = 0
        r.elts = r.elt = r.offs = None
        r.size = r.store = 0
        r.align = 1
        p = TypeStr(t)
        r.s = C.cast(p, C.c_char_p).value.decode()
        Dispose(p)
        if k == 8:
            r.k = 'int'; r.w = IntWidth(t)
        elif k == 12:
            r.k = 'ptr'; r.w = 64
        elif k == 0:
            r.k = 'void'; return r
        elif k in (2, 3, 4, 5, 6, 1):
            r.k = 'fp'; r.w = {1: 16, 2: 32, 3: 64}.get(k, 128)
        elif k == 10:
            r.k = 'struct'
            n = CountStructElts(t)
            r.elts = [self.ty(StructEltAt(t, i)) for i in range(n)]
            r.n = n
            try:
                r.offs = [EltOffset(self.dl, t, i) for i in range(n)]
            except Exception:
                r.offs = None
        elif k == 11:
            r.k = 'array'; r.n = ArrayLen(t); r.elt = self.ty(EltType(t))
        elif k == 13:
            r.k = 'vector'; r.n = VectorSize(t); r.elt = self.ty(EltType(t))
        else:
            r.k = 'other'; return r
        r.size = ABISize(self.dl, t)
        r.store = StoreSize(self.dl, t)
        r.align = ABIAlign(self.dl, t)
        return r

    def show(self, v):
        p = PrintVal(v)
        s = C.cast(p, C.c_char_p).value.decode(errors="replace")
        Dispose(p)
        return s

    # ---- operand decoding: ('i', ref) instruction/argument value, ('c', value) etc.
    def operand(self, v):
        k = VK.get(ValueKind(v), 'other')
        if k in ('inst', 'arg'):
            return ('v', v)
        if k == 'bb':
            return ('bb', v)
        if k == 'md':
            return ('md', v)
        if k == 'asm':
            return ('asm', v)
        return ('k', v, k)

    def _load_fn(self, fn):
        blocks = []
        bmap = {}
        b = FirstBB(fn.ref)
        while b:
            B = Block()
            B.ref = BBAsValue(b)
            B.idx = len(blocks)
            B.fn = fn
            B.name = "b%d" % B.idx
            B.phis, B.instrs, B.succs = [], [], []
            blocks.append(B)
            bmap[B.ref] = B
            b = NextBB(b)
        b = FirstBB(fn.ref)
        i = 0
        while b:
            B = blocks[i]
            ins = FirstI(b)
            while ins:
                I = Instr()
                I.ref = ins
                I.op = OPC.get(Opcode(ins), 'other')
                I.ty = self.ty(TypeOf(ins))
                I.x = None
                I.name = ""
                op = I.op
                if op == 'phi':
                    n = CountIncoming(ins)
                    I.ops = [(bmap[BBAsValue(IncomingBlock(ins, j))].idx, self.operand(IncomingValue(ins, j))) for j in range(n)]
                    B.phis.append(I)
                    ins = NextI(ins)
                    continue
                if op == 'br':
                    if IsConditional(ins):
                        I.ops = [self.operand(Condition(ins))]
                        I.x = [bmap[BBAsValue(Succ(ins, 0))], bmap[BBAsValue(Succ(ins, 1))]]
                    else:
                        I.ops = []
                        I.x = [bmap[BBAsValue(Succ(ins, 0))]]
                elif op == 'switch':
                    I.ops = [self.operand(Operand(ins, 0))]
                    n = NumOperands(ins)
                    cases = []
                    for j in range(2, n, 2):
                        cases.append((IntZExt(Operand(ins, j)), bmap[Operand(ins, j + 1)]))
                    I.x = (bmap[Operand(ins, 1)], cases)
                elif op in ('call', 'invoke'):
                    n = NumArgs(ins)
                    I.ops = [self.operand(Operand(ins, j)) for j in range(n)]
                    cv = CalledValue(ins)
                    callee = self.operand(cv)
                    if op == 'invoke':
                        I.x = (callee, bmap[BBAsValue(NormalDest(ins))], bmap[BBAsValue(UnwindDest(ins))])
                    else:
                        I.x = (callee, None, None)
                else:
                    n = NumOperands(ins)
                    I.ops = [self.operand(Operand(ins, j)) for j in range(n)]
                    if op == 'icmp':
                        I.x = PRED[ICmpPred(ins)]
                    elif op == 'gep':
                        I.x = self.ty(GEPSource(ins)), GEPSource(ins)
                    elif op == 'alloca':
                        I.x = self.ty(AllocatedType(ins))
                    elif op in ('extractvalue', 'insertvalue'):
                        k = NumIndices(ins)
                        p = Indices(ins)
                        I.x = [p[j] for j in range(k)]
                    elif op == 'landingpad':
                        I.x = (bool(IsCleanup(ins)), [self.operand(Clause(ins, j)) for j in range(NumClauses(ins))])
                        I.ops = []
                    elif op == 'atomicrmw':
                        I.x = AtomicRMWOp(ins)
                    elif op in ('lshr', 'ashr', 'udiv', 'sdiv'):
                        I.x = bool(GetExact(ins))
                    elif op == 'shufflevector':
                        I.x = [MaskVal(ins, j) for j in range(MaskLen(ins))]
                B.instrs.append(I)
                ins = NextI(ins)
            t = B.instrs[-1]
            if t.op == 'br':
                B.succs = list(t.x)
            elif t.op == 'switch':
                B.succs = [t.x[0]] + [c[1] for c in t.x[1]]
            elif t.op == 'invoke':
                B.succs = [t.x[1], t.x[2]]
            b = NextBB(b)
            i += 1
        fn._blocks = blocks
        self._cfg(fn)

    def _cfg(self, fn):
        """reverse postorder, dominators, natural loops"""
        bl = fn._blocks
        n = len(bl)
        order, seen = [], [False] * n
        st = [(0, iter(bl[0].succs))]
        seen[0] = True
        while st:
            u, it = st[-1]
            for s in it:
                if not seen[s.idx]:
                    seen[s.idx] = True
                    st.append((s.idx, iter(s.succs)))
                    break
            else:
                order.append(u)
                st.pop()
        order.reverse()
        fn.rpo = order
        pos = {b: i for i, b in enumerate(order)}
        fn.pos = pos
        preds = {b: [] for b in order}
        for b in order:
            for s in bl[b].succs:
                preds[s.idx].append(b)
        fn.preds = preds
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        fn.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == order[0]:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in bl[b].succs:
                h = s.idx
                if pos[h] <= pos[b]:
                    if not dom(h, b):
                        raise RuntimeError("irreducible loop in " + fn.name)
                    body = loops.setdefault(h, {h})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x in body:
                            continue
                        body.add(x)
                        wl.extend(preds[x])
        fn.loops = loops
        # header -> innermost enclosing loop header
        fn.loop_of = {}
        for b in order:
            best = None
            for h, body in loops.items():
                if b in body and (best is None or len(body) < len(loops[best])):
                    best = h
            fn.loop_of[b] = best
        fn.loop_parent = {}
        for h in loops:
            best = None
            for h2, body in loops.items():
                if h2 != h and h in body and (best is None or len(body) < len(loops[best])):
                    best = h2
            fn.loop_parent[h] = best
