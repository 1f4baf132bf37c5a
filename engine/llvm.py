"""Read LLVM IR into plain Python objects through libLLVM's C interface.

Nothing is executed: the module is parsed, optionally run through semantics
preserving LLVM passes (always-inline, mem2reg, ...), and copied into the
classes below.
"""
import ctypes as ct
import os

_CANDIDATES = (
    "/usr/lib/llvm-18/lib/libLLVM-18.so",
    "/usr/lib/x86_64-linux-gnu/libLLVM-18.so",
    "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
)


def _open():
    err = None
    for path in _CANDIDATES:
        if os.path.exists(path):
            try:
                return ct.CDLL(path)
            except OSError as e:
                err = e
    raise RuntimeError("libLLVM 18 not found: %s" % err)


L = _open()
P = ct.c_void_p
U = ct.c_uint
S = ct.c_size_t


def _d(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


for n in ("GetFirstFunction", "GetFirstGlobal", "GetFirstBasicBlock", "GetFirstInstruction",
          "GetNextFunction", "GetNextGlobal", "GetNextBasicBlock", "GetNextInstruction",
          "GetBasicBlockParent", "TypeOf", "GetElementType", "GlobalGetValueType",
          "GetCalledValue", "GetCalledFunctionType", "GetGEPSourceElementType",
          "GetAllocatedType", "InstructionGetDebugLoc", "DILocationGetInlinedAt",
          "DILocationGetScope", "DIScopeGetFile", "GetInitializer", "GetNormalDest",
          "GetUnwindDest", "GetSubprogram", "GetModuleDataLayout", "GetReturnType",
          "BasicBlockAsValue", "GetInstructionParent", "GetSwitchDefaultDest", "GetPersonalityFn"):
    _d("LLVM" + n, P, P)
for n in ("GetInstructionOpcode", "GetICmpPredicate", "GetNumOperands", "GetNumIndices",
          "GetTypeKind", "GetIntTypeWidth", "CountStructElementTypes", "GetArrayLength",
          "GetVectorSize", "CountParams", "GetLinkage", "GetVisibility", "IsDeclaration",
          "GetVolatile", "IsConstant", "IsNull", "IsUndef", "IsPoison", "GetNumSuccessors",
          "CountIncoming", "GetIntrinsicID", "GetConstOpcode", "IsPackedStruct",
          "IsGlobalConstant", "IsThreadLocal", "GetDebugLocLine", "DILocationGetLine",
          "GetValueKind", "GetNumMaskElements", "GetNumArgOperands", "IsExternallyInitialized",
          "GetNUW", "GetNSW", "GetNumHandlers"):
    _d("LLVM" + n, ct.c_int, P)
_d("LLVMGetArrayLength2", ct.c_uint64, P)
_d("LLVMGetIndices", ct.POINTER(U), P)
_d("LLVMGetOperand", P, P, U)
_d("LLVMGetSuccessor", P, P, U)
_d("LLVMGetIncomingValue", P, P, U)
_d("LLVMGetIncomingBlock", P, P, U)
_d("LLVMStructGetTypeAtIndex", P, P, U)
_d("LLVMGetParam", P, P, U)
_d("LLVMGetAggregateElement", P, P, U)
_d("LLVMGetElementAsConstant", P, P, U)
_d("LLVMGetMaskValue", ct.c_int, P, U)
_d("LLVMABISizeOfType", ct.c_uint64, P, P)
_d("LLVMSizeOfTypeInBits", ct.c_uint64, P, P)
_d("LLVMStoreSizeOfType", ct.c_uint64, P, P)
_d("LLVMOffsetOfElement", ct.c_uint64, P, P, U)
_d("LLVMByteOrder", ct.c_int, P)
_d("LLVMGetValueName2", P, P, ct.POINTER(S))
_d("LLVMGetStructName", ct.c_char_p, P)
_d("LLVMDIFileGetFilename", P, P, ct.POINTER(U))
_d("LLVMDIFileGetDirectory", P, P, ct.POINTER(U))
_d("LLVMConstIntGetZExtValue", ct.c_uint64, P)
_d("LLVMPrintValueToString", P, P)
_d("LLVMPrintTypeToString", P, P)
_d("LLVMPrintModuleToString", P, P)
_d("LLVMDisposeMessage", None, P)
_d("LLVMContextCreate", P)
_d("LLVMContextDispose", None, P)
_d("LLVMCreateMemoryBufferWithContentsOfFile", ct.c_int, ct.c_char_p, ct.POINTER(P), ct.POINTER(P))
_d("LLVMParseIRInContext", ct.c_int, P, P, ct.POINTER(P), ct.POINTER(P))
_d("LLVMCreatePassBuilderOptions", P)
_d("LLVMDisposePassBuilderOptions", None, P)
_d("LLVMRunPasses", P, P, ct.c_char_p, P, P)
_d("LLVMGetErrorMessage", P, P)
_d("LLVMGetEnumAttributeKindForName", U, ct.c_char_p, S)
_d("LLVMCreateEnumAttribute", P, P, U, ct.c_uint64)
_d("LLVMAddAttributeAtIndex", None, P, U, P)
_d("LLVMRemoveEnumAttributeAtIndex", None, P, U, U)
_d("LLVMGetEnumAttributeAtIndex", P, P, U, U)
_d("LLVMGetInlineAsmAsmString", P, P, ct.POINTER(S))
_d("LLVMGetInlineAsmConstraintString", P, P, ct.POINTER(S))
_d("LLVMIsConstantString", ct.c_int, P)
_d("LLVMGetCallSiteEnumAttribute", P, P, U, U)
_d("LLVMGetAtomicRMWBinOp", ct.c_int, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv",
       15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr",
       22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "getelementptr", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi",
       35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint",
       40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call",
       46: "select", 49: "vaarg", 50: "extractelement", 51: "insertelement",
       52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 60: "addrspacecast",
       61: "cleanupret", 62: "catchret", 63: "catchpad", 64: "cleanuppad",
       65: "catchswitch", 66: "fneg", 67: "callbr", 68: "freeze"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule",
        38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86fp80", 5: "fp128", 7: "label",
      8: "int", 9: "func", 10: "struct", 11: "array", 12: "ptr", 13: "vector",
      14: "metadata", 16: "token", 17: "scalablevector", 18: "bfloat"}


class Type:
    __slots__ = ("kind", "bits", "size", "elems", "offsets", "count", "name")

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.bits
        return self.name or self.kind


class Value:
    __slots__ = ("kind", "ty", "name", "__weakref__")


class Const(Value):
    __slots__ = ("val",)

    def __repr__(self):
        return "%r %d" % (self.ty, self.val)


class Other(Value):
    """undef, poison, null, metadata, label."""
    __slots__ = ()

    def __repr__(self):
        return self.kind


class Arg(Value):
    __slots__ = ("index", "func", "sret")

    def __repr__(self):
        return "%%arg%d" % self.index


class Agg(Value):
    """Constant aggregate (struct, array, vector)."""
    __slots__ = ("elems",)


class CExpr(Value):
    __slots__ = ("op", "ops", "extra", "pred")


class Asm(Value):
    __slots__ = ("text", "constraints")


class Global(Value):
    __slots__ = ("vty", "const", "init", "linkage", "tls", "decl", "size")

    def __repr__(self):
        return "@" + self.name


class Func(Value):
    __slots__ = ("args", "blocks", "decl", "linkage", "intrinsic", "file", "line", "ret",
                 "nounwind", "noreturn", "module", "personality")

    def __repr__(self):
        return "@" + self.name


class Block:
    __slots__ = ("name", "instrs", "func", "index")

    def succs(self):
        return self.instrs[-1].succ


class Instr(Value):
    __slots__ = ("op", "ops", "id", "block", "pred", "volatile", "succ", "indices", "gep",
                 "callee", "phi", "cases", "aty", "loc", "asize", "sty", "nounwind", "binop")

    def __repr__(self):
        return "%%%d=%s" % (self.id, self.op)

    @property
    def where(self):
        return self.loc[0] if self.loc else None


class Module:
    pass


def _msg(p):
    s = ct.cast(p, ct.c_char_p).value.decode("utf8", "replace")
    L.LLVMDisposeMessage(p)
    return s


def attr_kind(name):
    return L.LLVMGetEnumAttributeKindForName(name.encode(), len(name))


FN = 0xFFFFFFFF


def _name(p):
    n = S()
    q = L.LLVMGetValueName2(p, ct.byref(n))
    return ct.string_at(q, n.value).decode("utf8", "replace") if n.value else ""


class Loader:
    def __init__(self, path, passes="", inline=None, keep=None, locs=True, strip_attrs=()):
        """inline: predicate(name)->bool, marks defined functions alwaysinline."""
        self.ctx = L.LLVMContextCreate()
        buf = P()
        msg = P()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), ct.byref(buf), ct.byref(msg)):
            raise RuntimeError(_msg(msg))
        mod = P()
        if L.LLVMParseIRInContext(self.ctx, buf, ct.byref(mod), ct.byref(msg)):
            raise RuntimeError(_msg(msg))
        self.mod = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        kai, kni, kon = attr_kind("alwaysinline"), attr_kind("noinline"), attr_kind("optnone")
        f = L.LLVMGetFirstFunction(mod)
        while f:
            if not L.LLVMIsDeclaration(f):
                L.LLVMRemoveEnumAttributeAtIndex(f, FN, kon)
                if inline is not None:
                    L.LLVMRemoveEnumAttributeAtIndex(f, FN, kni)
                    L.LLVMRemoveEnumAttributeAtIndex(f, FN, kai)
                    a = kai if inline(_name(f)) else kni
                    L.LLVMAddAttributeAtIndex(f, FN, L.LLVMCreateEnumAttribute(self.ctx, a, 0))
            f = L.LLVMGetNextFunction(f)
        if passes:
            opt = L.LLVMCreatePassBuilderOptions()
            e = L.LLVMRunPasses(mod, passes.encode(), None, opt)
            if e:
                raise RuntimeError("passes: " + _msg(L.LLVMGetErrorMessage(e)))
            L.LLVMDisposePassBuilderOptions(opt)
        self.types = {}
        self.vals = {}
        self.files = {}
        self.locs = locs
        self.loccache = {}

    # types -----------------------------------------------------------------
    def type(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        r = Type()
        self.types[t] = r
        k = TK.get(L.LLVMGetTypeKind(t), "?")
        r.kind, r.bits, r.size, r.elems, r.offsets, r.count, r.name = k, 0, 0, None, None, 0, None
        if k == "int":
            r.bits = L.LLVMGetIntTypeWidth(t)
            r.size = L.LLVMABISizeOfType(self.dl, t)
        elif k == "ptr":
            r.bits = 8 * L.LLVMABISizeOfType(self.dl, t)
            r.size = r.bits // 8
        elif k in ("float", "double", "half", "x86fp80", "fp128", "bfloat"):
            r.size = L.LLVMABISizeOfType(self.dl, t)
            r.bits = 8 * r.size
        elif k == "struct":
            n = L.LLVMCountStructElementTypes(t)
            r.elems = [self.type(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                r.size = L.LLVMABISizeOfType(self.dl, t)
                r.offsets = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                pass
            nm = L.LLVMGetStructName(t)
            r.name = nm.decode() if nm else None
        elif k == "array":
            r.count = L.LLVMGetArrayLength2(t)
            r.elems = [self.type(L.LLVMGetElementType(t))]
            r.size = r.count * r.elems[0].size
        elif k == "vector":
            r.count = L.LLVMGetVectorSize(t)
            r.elems = [self.type(L.LLVMGetElementType(t))]
            r.size = L.LLVMABISizeOfType(self.dl, t)
        return r

    # values ----------------------------------------------------------------
    def value(self, v):
        r = self.vals.get(v)
        if r is not None:
            return r
        k = L.LLVMGetValueKind(v)
        # LLVMValueKind: 0 Argument 1 BasicBlock 5 Function 6 Alias 8 GlobalVariable
        # 10 ConstantExpr 11 Array 12 Struct 13 Vector 14 Undef 15 AggregateZero
        # 16 DataArray 17 DataVector 18 Int 19 FP 20 Null 21 TokenNone 22 Metadata
        # 23 InlineAsm 24 Instruction 25 Poison
        ty = self.type(L.LLVMTypeOf(v)) if k not in (1, 22) else None
        if k == 18:
            r = Const()
            r.kind = "const"
            if ty.bits <= 64:
                r.val = L.LLVMConstIntGetZExtValue(v) & ((1 << ty.bits) - 1)
            else:
                s = _msg(L.LLVMPrintValueToString(v)).split()[-1]
                r.val = int(s) & ((1 << ty.bits) - 1)
        elif k in (11, 12, 13, 16, 17):
            r = Agg()
            r.kind = "agg"
            n = ty.count if ty.kind in ("array", "vector") else len(ty.elems)
            r.ty = ty
            self.vals[v] = r
            r.elems = [self.value(L.LLVMGetAggregateElement(v, i)) for i in range(n)]
        elif k == 15:
            r = Other()
            r.kind = "zero"
        elif k in (14, 25):
            r = Other()
            r.kind = "undef"
        elif k == 20:
            r = Other()
            r.kind = "null"
        elif k == 10:
            r = CExpr()
            r.kind = "cexpr"
            r.ty = ty
            self.vals[v] = r
            r.op = OPC.get(L.LLVMGetConstOpcode(v), "?")
            r.ops = [self.value(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            r.extra = None
            r.pred = PRED.get(L.LLVMGetICmpPredicate(v)) if r.op == "icmp" else None
            if r.op == "getelementptr":
                r.extra = self.gep(L.LLVMGetGEPSourceElementType(v), r.ops)
        elif k == 8:
            r = Global()
            r.kind = "global"
            r.ty = ty
            self.vals[v] = r
            r.vty = self.type(L.LLVMGlobalGetValueType(v))
            r.size = r.vty.size
            r.const = bool(L.LLVMIsGlobalConstant(v))
            r.linkage = L.LLVMGetLinkage(v)
            r.tls = bool(L.LLVMIsThreadLocal(v))
            r.decl = bool(L.LLVMIsDeclaration(v))
            r.name = _name(v)
            i = L.LLVMGetInitializer(v)
            r.init = self.value(i) if i else None
        elif k == 5:
            r = Func()
            r.kind = "func"
            r.name = _name(v)
        elif k == 23:
            r = Asm()
            r.kind = "asm"
            n = S()
            q = L.LLVMGetInlineAsmAsmString(v, ct.byref(n))
            r.text = ct.string_at(q, n.value).decode()
            q = L.LLVMGetInlineAsmConstraintString(v, ct.byref(n))
            r.constraints = ct.string_at(q, n.value).decode()
        elif k == 1:
            raise KeyError("unseen block")
        else:
            r = Other()
            r.kind = {19: "fp", 22: "metadata", 21: "token", 9: "blockaddress", 6: "alias"}.get(k, "other%d" % k)
        r.ty = ty
        if not hasattr(r, "name"):
            r.name = ""
        self.vals[v] = r
        return r

    def gep(self, srct, ops):
        """constant byte offset, list of (operand, scale) for the rest, and the array member entered, if any."""
        off = 0
        var = []
        member = None
        t = self.type(srct)
        first = True
        for o in ops[1:]:
            if first:
                sz = t.size
                first = False
                if o.kind == "const":
                    off += _signed(o) * sz
                else:
                    var.append((o, sz))
                continue
            if t.kind == "struct":
                off += t.offsets[o.val]
                t = t.elems[o.val]
                member = (len(var), off, t.size) if t.kind == "array" else None
            else:
                t = t.elems[0]
                if o.kind == "const":
                    off += _signed(o) * t.size
                else:
                    var.append((o, t.size))
        return off, var, member

    # locations -------------------------------------------------------------
    def file(self, f):
        if not f:
            return "?"
        r = self.files.get(f)
        if r is None:
            n = U()
            a = ct.string_at(L.LLVMDIFileGetFilename(f, ct.byref(n)), n.value).decode()
            q = L.LLVMDIFileGetDirectory(f, ct.byref(n))
            d = ct.string_at(q, n.value).decode() if n.value else ""
            r = os.path.normpath(os.path.join(d, a))
            self.files[f] = r
        return r

    def loc(self, i):
        d = L.LLVMInstructionGetDebugLoc(i)
        if not d:
            return ()
        r = self.loccache.get(d)
        if r is None:
            out = []
            q = d
            while q:
                line = L.LLVMDILocationGetLine(q)
                sc = L.LLVMDILocationGetScope(q)
                out.append((self.file(L.LLVMDIScopeGetFile(sc)), line))
                q = L.LLVMDILocationGetInlinedAt(q)
            r = tuple(out)
            self.loccache[d] = r
        return r

    # module ----------------------------------------------------------------
    def load(self, want=None):
        m = Module()
        m.big_endian = L.LLVMByteOrder(self.dl) == 0
        m.funcs, m.globals = {}, {}
        g = L.LLVMGetFirstGlobal(self.mod)
        gl = []
        while g:
            gl.append(g)
            g = L.LLVMGetNextGlobal(g)
        fl = []
        f = L.LLVMGetFirstFunction(self.mod)
        knu, knr, ksr = attr_kind("nounwind"), attr_kind("noreturn"), attr_kind("sret")
        while f:
            fl.append(f)
            r = Func()
            r.kind = "func"
            r.name = _name(f)
            r.ty = self.type(L.LLVMTypeOf(f))
            r.decl = bool(L.LLVMIsDeclaration(f))
            r.linkage = L.LLVMGetLinkage(f)
            r.intrinsic = r.name.startswith("llvm.")
            r.nounwind = bool(L.LLVMGetEnumAttributeAtIndex(f, FN, knu))
            r.noreturn = bool(L.LLVMGetEnumAttributeAtIndex(f, FN, knr))
            r.blocks = []
            r.args = []
            r.module = m
            r.file, r.line = "?", 0
            r.personality = False
            sp = L.LLVMGetSubprogram(f)
            if sp:
                r.file = self.file(L.LLVMDIScopeGetFile(sp))
            r.ret = self.type(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(f)))
            for i in range(L.LLVMCountParams(f)):
                a = Arg()
                a.kind = "arg"
                a.index = i
                a.func = r
                a.name = ""
                p = L.LLVMGetParam(f, i)
                a.ty = self.type(L.LLVMTypeOf(p))
                a.sret = bool(L.LLVMGetEnumAttributeAtIndex(f, i + 1, ksr))
                self.vals[p] = a
                r.args.append(a)
            self.vals[f] = r
            m.funcs[r.name] = r
            f = L.LLVMGetNextFunction(f)
        for g in gl:
            v = self.value(g)
            m.globals[v.name] = v
        for f in fl:
            r = self.vals[f]
            if not r.decl and (want is None or want(r.name)):
                self.func(f, r)
        return m

    def func(self, f, r):
        blocks = []
        bmap = {}
        b = L.LLVMGetFirstBasicBlock(f)
        while b:
            nb = Block()
            nb.name = _name(L.LLVMBasicBlockAsValue(b))
            nb.func = r
            nb.instrs = []
            nb.index = len(blocks)
            bmap[b] = nb
            blocks.append((b, nb))
            b = L.LLVMGetNextBasicBlock(b)
        ins = []
        for b, nb in blocks:
            i = L.LLVMGetFirstInstruction(b)
            while i:
                x = Instr()
                x.kind = "inst"
                x.name = ""
                x.id = len(ins)
                x.block = nb
                x.op = OPC[L.LLVMGetInstructionOpcode(i)]
                x.ty = self.type(L.LLVMTypeOf(i))
                x.pred = x.volatile = x.succ = x.indices = x.gep = x.callee = None
                x.phi = x.cases = x.aty = x.sty = x.binop = None
                x.asize = 0
                x.nounwind = False
                self.vals[i] = x
                nb.instrs.append(x)
                ins.append((i, x))
                i = L.LLVMGetNextInstruction(i)
        knu = attr_kind("nounwind")
        for i, x in ins:
            op = x.op
            x.loc = self.loc(i) if self.locs else ()
            if op == "phi":
                x.phi = {}
                x.ops = []
                for k in range(L.LLVMCountIncoming(i)):
                    v = self.value(L.LLVMGetIncomingValue(i, k))
                    x.phi[bmap[L.LLVMGetIncomingBlock(i, k)]] = v
                    x.ops.append(v)
                continue
            if op in ("br", "switch", "invoke", "indirectbr", "callbr"):
                x.succ = [bmap[L.LLVMGetSuccessor(i, k)] for k in range(L.LLVMGetNumSuccessors(i))]
            elif op in ("ret", "unreachable", "resume"):
                x.succ = []
            if op == "br":
                x.ops = [self.value(L.LLVMGetOperand(i, 0))] if L.LLVMGetNumOperands(i) > 1 else []
                continue
            if op == "switch":
                n = L.LLVMGetNumOperands(i)
                x.ops = [self.value(L.LLVMGetOperand(i, 0))]
                x.cases = []
                for k in range(2, n, 2):
                    x.cases.append((self.value(L.LLVMGetOperand(i, k)).val, x.succ[k // 2]))
                continue
            if op in ("call", "invoke"):
                n = L.LLVMGetNumArgOperands(i)
                x.ops = [self.value(L.LLVMGetOperand(i, k)) for k in range(n)]
                x.callee = self.value(L.LLVMGetCalledValue(i))
                x.nounwind = bool(L.LLVMGetCallSiteEnumAttribute(i, FN, knu))
                continue
            x.ops = [self.value(L.LLVMGetOperand(i, k)) for k in range(L.LLVMGetNumOperands(i))]
            if op == "icmp":
                x.pred = PRED[L.LLVMGetICmpPredicate(i)]
            elif op in ("load", "store"):
                x.volatile = bool(L.LLVMGetVolatile(i))
                x.sty = x.ty if op == "load" else x.ops[0].ty
            elif op == "alloca":
                x.aty = self.type(L.LLVMGetAllocatedType(i))
                c = x.ops[0]
                x.asize = x.aty.size * (c.val if c.kind == "const" else 0)
            elif op == "getelementptr":
                x.gep = self.gep(L.LLVMGetGEPSourceElementType(i), x.ops)
            elif op in ("extractvalue", "insertvalue"):
                p = L.LLVMGetIndices(i)
                x.indices = [p[k] for k in range(L.LLVMGetNumIndices(i))]
            elif op == "shufflevector":
                x.indices = [L.LLVMGetMaskValue(i, k) for k in range(L.LLVMGetNumMaskElements(i))]
            elif op == "atomicrmw":
                x.binop = L.LLVMGetAtomicRMWBinOp(i)
        r.blocks = [nb for _, nb in blocks]


def _signed(c):
    b = c.ty.bits
    return c.val - (1 << b) if c.val >> (b - 1) else c.val


def load(path, **kw):
    want = kw.pop("want", None)
    ld = Loader(path, **kw)
    return ld.load(want)


def dump(path, passes="", inline=None):
    ld = Loader(path, passes, inline)
    return _msg(L.LLVMPrintModuleToString(ld.mod))
