"""Reads LLVM IR (textual or bitcode) through the libLLVM-18 C API and turns it into
plain Python objects.  No IR is written or changed here: what the engine executes is
exactly what clang produced from /repo's sources."""
import ctypes as C, os, sys

_lib = None
for _p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so.1", "libLLVM-18.so"):
    try:
        _lib = C.CDLL(_p)
        break
    except OSError:
        pass
if _lib is None:
    raise RuntimeError("libLLVM-18 not found")

P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(_lib, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


CtxCreate = _f("LLVMContextCreate", P)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
NextAlias = _f("LLVMGetNextGlobalAlias", P, P)
Aliasee = _f("LLVMAliasGetAliasee", P, P)
ValueName2 = _f("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
CountParams = _f("LLVMCountParams", C.c_uint, P)
GetParam = _f("LLVMGetParam", P, P, C.c_uint)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P)
NextInst = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOperands = _f("LLVMGetNumOperands", C.c_int, P)
Operand = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
StructCount = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructElt = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
ElementType = _f("LLVMGetElementType", P, P)
ArrayLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
VecSize = _f("LLVMGetVectorSize", C.c_uint, P)
ModuleDL = _f("LLVMGetModuleDataLayout", P, P)
OffsetOfElt = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
CountIncoming = _f("LLVMCountIncoming", C.c_uint, P)
IncomingValue = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncomingBlock = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
Succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
CalledValue = _f("LLVMGetCalledValue", P, P)
CalledFnTy = _f("LLVMGetCalledFunctionType", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", C.c_uint, P)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
ConstIntZ = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
PrintValue = _f("LLVMPrintValueToString", C.c_void_p, P)
PrintType = _f("LLVMPrintTypeToString", C.c_void_p, P)
DisposeMsg = _f("LLVMDisposeMessage", None, C.c_void_p)
ConstReal = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
Initializer = _f("LLVMGetInitializer", P, P)
IsGlobalConst = _f("LLVMIsGlobalConstant", C.c_int, P)
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
NumIndices = _f("LLVMGetNumIndices", C.c_uint, P)
Indices = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
AllocatedType = _f("LLVMGetAllocatedType", P, P)
GEPType = _f("LLVMGetGEPSourceElementType", P, P)
NumMask = _f("LLVMGetNumMaskElements", C.c_uint, P)
MaskVal = _f("LLVMGetMaskValue", C.c_int, P, C.c_uint)
NumClauses = _f("LLVMGetNumClauses", C.c_uint, P)
Clause = _f("LLVMGetClause", P, P, C.c_uint)
IsCleanup = _f("LLVMIsCleanup", C.c_int, P)
UnwindDest = _f("LLVMGetUnwindDest", P, P)
NormalDest = _f("LLVMGetNormalDest", P, P)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
EltAsConst = _f("LLVMGetElementAsConstant", P, P, C.c_uint)
AggElt = _f("LLVMGetAggregateElement", P, P, C.c_uint)
DbgLine = _f("LLVMGetDebugLocLine", C.c_uint, P)
DbgFile = _f("LLVMGetDebugLocFilename", C.c_void_p, P, C.POINTER(C.c_uint))
AtomicBinOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
PoisonCheck = _f("LLVMIsPoison", C.c_int, P)
UndefCheck = _f("LLVMIsUndef", C.c_int, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "getelementptr", 30: "trunc", 31: "zext", 32: "sext",
       33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint",
       40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call",
       46: "select", 49: "va_arg", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw",
       58: "resume", 59: "landingpad"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 5: "fp128", 7: "label", 8: "int", 9: "func",
      10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata", 16: "token"}


class Ty:
    __slots__ = ("kind", "width", "elts", "elt", "n", "size", "store", "offsets")

    def __repr__(self):
        if self.kind == "int":
            return f"i{self.width}"
        if self.kind in ("array", "vector"):
            return f"[{self.n} x {self.elt}]"
        if self.kind == "struct":
            return "{" + ",".join(map(repr, self.elts)) + "}"
        return self.kind


class Inst:
    __slots__ = ("op", "ty", "ops", "id", "x", "line", "file", "block")

    def __repr__(self):
        return f"%{self.id} = {self.op} {self.ops} {self.x} @{self.line}"


class Block:
    __slots__ = ("id", "insts", "phis", "succs", "fn", "preds")

    def __repr__(self):
        return f"bb{self.id}"


class Function:
    def __init__(self, name):
        self.name = name
        self.blocks = None
        self.params = []
        self.decl = True
        self.ptr = None

    def __repr__(self):
        return f"@{self.name}"


class GlobalVar:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"@{self.name}"


# operand encodings: ('i', instid) local value; ('c', ConstNode)
class Const:
    """kind: int,fp,null,undef,zero,agg,fn,global,expr,bytes"""
    __slots__ = ("kind", "ty", "v", "x")

    def __repr__(self):
        return f"<{self.kind} {self.v}>"


class Module:
    def __init__(self, path):
        self.ctx = CtxCreate()
        buf = P()
        err = C.c_char_p()
        if MemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read " + path)
        m = P()
        if ParseIR(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError("cannot parse " + path + ": " + str(err.value))
        self.m = m
        self.dl = ModuleDL(m)
        self._types = {}
        self.functions = {}
        self.globals = {}
        self._byptr = {}
        f = FirstFn(m)
        while f:
            fn = Function(self._name(f))
            fn.ptr = f
            fn.decl = bool(IsDecl(f))
            self.functions[fn.name] = fn
            self._byptr[f] = fn
            f = NextFn(f)
        g = FirstGlobal(m)
        while g:
            gv = GlobalVar(self._name(g))
            gv.ptr = g
            gv.const = bool(IsGlobalConst(g))
            gv.ty = self.type(GlobalValueType(g))
            gv.decl = bool(IsDecl(g))
            self.globals[gv.name] = gv
            self._byptr[g] = gv
            g = NextGlobal(g)
        a = FirstAlias(m)
        self.aliases = {}
        while a:
            self.aliases[a] = Aliasee(a)
            tgt = self._byptr.get(Aliasee(a))
            if tgt is not None:
                self._byptr[a] = tgt
                if isinstance(tgt, Function):
                    self.functions[self._name(a)] = tgt
            a = NextAlias(a)

    def _name(self, v):
        n = C.c_size_t()
        p = ValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode("utf8", "replace")

    def type(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        ty = Ty()
        self._types[t] = ty
        ty.kind = TK.get(TypeKind(t), "other%d" % TypeKind(t))
        ty.width = 0
        ty.elts = ty.elt = ty.offsets = None
        ty.n = 0
        ty.size = ty.store = 0
        if ty.kind == "int":
            ty.width = IntWidth(t)
        elif ty.kind == "float":
            ty.width = 32
        elif ty.kind in ("double",):
            ty.width = 64
        elif ty.kind == "x86_fp80":
            ty.width = 80
        elif ty.kind == "ptr":
            ty.width = 64
        elif ty.kind == "struct":
            n = StructCount(t)
            ty.elts = [self.type(StructElt(t, i)) for i in range(n)]
            ty.n = n
        elif ty.kind in ("array", "vector"):
            ty.elt = self.type(ElementType(t))
            ty.n = ArrayLen(t) if ty.kind == "array" else VecSize(t)
        if ty.kind in ("int", "float", "double", "x86_fp80", "ptr", "struct", "array", "vector", "half", "fp128"):
            try:
                ty.size = ABISize(self.dl, t)
                ty.store = StoreSize(self.dl, t)
                if ty.kind == "struct":
                    ty.offsets = [OffsetOfElt(self.dl, t, i) for i in range(ty.n)]
            except Exception:
                pass
        return ty

    def global_init(self, gv):
        if gv.decl:
            return None
        i = Initializer(gv.ptr)
        return self.const(i) if i else None

    def const(self, v):
        k = ValueKind(v)
        c = Const()
        c.ty = self.type(TypeOf(v))
        c.x = None
        c.v = None
        # LLVMValueKind: Argument0 BB1 MemUse2 MemDef3 MemPhi4 Function5 GlobalAlias6 GlobalIFunc7 GlobalVariable8
        # BlockAddress9 ConstantExpr10 ConstantArray11 ConstantStruct12 ConstantVector13 Undef14 AggregateZero15
        # DataArray16 DataVector17 ConstantInt18 ConstantFP19 PointerNull20 TokenNone21 Metadata22 InlineAsm23 Instr24 Poison25
        if k == 5 or k == 6 and isinstance(self._byptr.get(v), Function):
            c.kind = "fn"
            c.v = self._byptr[v]
        elif k == 8:
            c.kind = "global"
            c.v = self._byptr[v]
        elif k == 6:
            tgt = self._byptr.get(v)
            if tgt is None:
                return self.const(self.aliases[v])
            c.kind = "global"
            c.v = tgt
        elif k == 10:
            c.kind = "expr"
            c.v = OPC[ConstOpcode(v)]
            c.x = {"ops": [self.const(Operand(v, i)) for i in range(NumOperands(v))]}
            if c.v == "getelementptr":
                c.x["src"] = self.type(GEPType(v))
            if c.v == "icmp":
                c.x["pred"] = ICMP[ICmpPred(v)]
        elif k in (11, 12, 13):
            c.kind = "agg"
            c.v = [self.const(Operand(v, i)) for i in range(NumOperands(v))]
        elif k in (14, 25, 26):
            c.kind = "undef"
        elif k == 15:
            c.kind = "zero"
        elif k in (16, 17):
            c.kind = "agg"
            c.v = [self.const(EltAsConst(v, i)) for i in range(c.ty.n)]
        elif k == 18:
            c.kind = "int"
            if c.ty.width <= 64:
                c.v = ConstIntZ(v) & ((1 << c.ty.width) - 1)
            else:
                p = PrintValue(v)
                s = C.string_at(p).decode().split()[-1]
                DisposeMsg(p)
                c.v = int(s) & ((1 << c.ty.width) - 1)
        elif k == 19:
            c.kind = "fp"
            lost = C.c_int()
            c.v = ConstReal(v, C.byref(lost))
        elif k == 20:
            c.kind = "null"
        elif k == 21:
            c.kind = "undef"
        else:
            p = PrintValue(v)
            s = C.string_at(p).decode()
            DisposeMsg(p)
            if k == 23 or "asm" in s:
                c.kind = "asm"
                c.v = s
            else:
                c.kind = "other"
                c.v = s[:200]
        return c

    def load(self, fn):
        """translate the body of fn (lazily)"""
        if fn.blocks is not None or fn.decl:
            return
        f = fn.ptr
        ids = {}
        np_ = CountParams(f)
        fn.params = []
        for i in range(np_):
            p = GetParam(f, i)
            ids[p] = i
            fn.params.append((i, self.type(TypeOf(p))))
        nid = np_
        bbs = []
        bbid = {}
        b = FirstBB(f)
        while b:
            blk = Block()
            blk.id = len(bbs)
            blk.fn = fn
            blk.phis = []
            blk.insts = []
            blk.succs = []
            blk.preds = []
            bbid[b] = blk
            bbs.append((b, blk))
            i = FirstInst(b)
            while i:
                ids[i] = nid
                nid += 1
                i = NextInst(i)
            b = NextBB(b)

        def opnd(v):
            k = ids.get(v)
            if k is not None:
                return ("i", k)
            vk = ValueKind(v)
            if vk == 1:
                return ("b", bbid[v])
            if vk == 22:
                return ("m", None)
            return ("c", self.const(v))

        for b, blk in bbs:
            i = FirstInst(b)
            while i:
                ins = Inst()
                ins.op = OPC.get(Opcode(i), "op%d" % Opcode(i))
                ins.ty = self.type(TypeOf(i))
                ins.id = ids[i]
                ins.x = None
                ins.block = blk
                ins.line = DbgLine(i)
                n = C.c_uint()
                fp = DbgFile(i, C.byref(n)) if ins.line else None
                ins.file = C.string_at(fp, n.value).decode() if fp else ""
                op = ins.op
                if op == "phi":
                    ins.ops = [(opnd(IncomingValue(i, k)), bbid[IncomingBlock(i, k)]) for k in range(CountIncoming(i))]
                    blk.phis.append(ins)
                    i = NextInst(i)
                    continue
                if op in ("call", "invoke"):
                    na = NumArgOps(i)
                    ins.ops = [opnd(Operand(i, k)) for k in range(na)]
                    callee = CalledValue(i)
                    ins.x = {"callee": opnd(callee)}
                    if op == "invoke":
                        ins.x["normal"] = bbid[NormalDest(i)]
                        ins.x["unwind"] = bbid[UnwindDest(i)]
                        blk.succs = [ins.x["normal"], ins.x["unwind"]]
                    c = ins.x["callee"]
                    if c[0] == "c" and c[1].kind == "fn" and c[1].v.name.startswith("llvm.dbg."):
                        i = NextInst(i)
                        continue
                elif op == "switch":
                    n_ = NumOperands(i)
                    ins.ops = [opnd(Operand(i, 0))]
                    ins.x = {"default": bbid[Operand(i, 1)],
                             "cases": [(self.const(Operand(i, k)).v, bbid[Operand(i, k + 1)]) for k in range(2, n_, 2)]}
                    blk.succs = [ins.x["default"]] + [c[1] for c in ins.x["cases"]]
                elif op == "br":
                    ns = NumSucc(i)
                    ins.x = [bbid[Succ(i, k)] for k in range(ns)]
                    blk.succs = ins.x
                    ins.ops = [opnd(Operand(i, 0))] if ns == 2 else []
                else:
                    ins.ops = [opnd(Operand(i, k)) for k in range(NumOperands(i))]
                    if op == "icmp":
                        ins.x = ICMP[ICmpPred(i)]
                    elif op == "fcmp":
                        ins.x = FCMP[FCmpPred(i)]
                    elif op == "alloca":
                        ins.x = self.type(AllocatedType(i))
                    elif op == "getelementptr":
                        ins.x = self.type(GEPType(i))
                    elif op in ("extractvalue", "insertvalue"):
                        p = Indices(i)
                        ins.x = [p[k] for k in range(NumIndices(i))]
                    elif op == "shufflevector":
                        ins.x = [MaskVal(i, k) for k in range(NumMask(i))]
                    elif op == "landingpad":
                        ins.x = {"clauses": [self.const(Clause(i, k)) for k in range(NumClauses(i))], "cleanup": bool(IsCleanup(i))}
                    elif op == "atomicrmw":
                        ins.x = AtomicBinOp(i)
                    elif op in ("bitcast", "trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc",
                                "ptrtoint", "inttoptr"):
                        ins.x = self.type(TypeOf(Operand(i, 0)))
                    elif op == "store":
                        ins.x = self.type(TypeOf(Operand(i, 0)))
                    elif op in ("extractelement",):
                        ins.x = self.type(TypeOf(Operand(i, 0)))
                blk.insts.append(ins)
                i = NextInst(i)
        fn.blocks = [blk for _, blk in bbs]
        for blk in fn.blocks:
            for s in blk.succs:
                if blk not in s.preds:
                    s.preds.append(blk)
        self._loops(fn)

    def _loops(self, fn):
        """dominators and natural loops: fn.loops = {header: set(blocks)}"""
        bl = fn.blocks
        entry = bl[0]
        order = []
        seen = set()
        st = [(entry, iter(entry.succs))]
        seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(s.succs)))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {entry: entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in b.preds:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a is not c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) is not new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a is b:
                    return True
                if idom[b] is b:
                    return False
                b = idom[b]

        loops = {}
        for b in rpo:
            for s in b.succs:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(p for p in x.preds if p in idx)
        fn.loops = loops
        fn.irreducible = any(idx[s] <= idx[b] and not dom(s, b) for b in rpo for s in b.succs if s in idx)
