"""In-memory model of an LLVM 18 module, read through libLLVM's C API."""
import ctypes as C, os, re
from build import AnalysisBroken

for _p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so",
           "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"):
    if os.path.exists(_p):
        L = C.CDLL(_p)
        break
else:
    raise AnalysisBroken("libLLVM 18 not found")

P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype, fn.argtypes = res, list(args)
    return fn


_ctx = _f("LLVMContextCreate", P)
_mb = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(P))
_parse = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(P))
_ff = _f("LLVMGetFirstFunction", P, P); _nf = _f("LLVMGetNextFunction", P, P)
_fg = _f("LLVMGetFirstGlobal", P, P); _ng = _f("LLVMGetNextGlobal", P, P)
_name = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
_isdecl = _f("LLVMIsDeclaration", C.c_int, P)
_linkage = _f("LLVMGetLinkage", C.c_int, P)
_fb = _f("LLVMGetFirstBasicBlock", P, P); _nb = _f("LLVMGetNextBasicBlock", P, P)
_fi = _f("LLVMGetFirstInstruction", P, P); _ni = _f("LLVMGetNextInstruction", P, P)
_opc = _f("LLVMGetInstructionOpcode", C.c_int, P)
_nop = _f("LLVMGetNumOperands", C.c_int, P); _op = _f("LLVMGetOperand", P, P, C.c_uint)
_typeof = _f("LLVMTypeOf", P, P); _tstr = _f("LLVMPrintTypeToString", P, P)
_tkind = _f("LLVMGetTypeKind", C.c_int, P)
_dispose = _f("LLVMDisposeMessage", None, P)
_icmp = _f("LLVMGetICmpPredicate", C.c_int, P)
_vk = _f("LLVMGetValueKind", C.c_int, P)
_sext = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
_nsucc = _f("LLVMGetNumSuccessors", C.c_uint, P); _succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
_iscond = _f("LLVMIsConditional", C.c_int, P)
_ninc = _f("LLVMCountIncoming", C.c_uint, P)
_incv = _f("LLVMGetIncomingValue", P, P, C.c_uint); _incb = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
_called = _f("LLVMGetCalledValue", P, P); _narg = _f("LLVMGetNumArgOperands", C.c_uint, P)
_fty = _f("LLVMGetCalledFunctionType", P, P)
_gvt = _f("LLVMGlobalGetValueType", P, P)
_gepty = _f("LLVMGetGEPSourceElementType", P, P)
_alloc = _f("LLVMGetAllocatedType", P, P)
_line = _f("LLVMGetDebugLocLine", C.c_uint, P)
_file = _f("LLVMGetDebugLocFilename", P, P, C.POINTER(C.c_uint))
_nparam = _f("LLVMCountParams", C.c_uint, P); _param = _f("LLVMGetParam", P, P, C.c_uint)
_init = _f("LLVMGetInitializer", P, P)
_isstr = _f("LLVMIsConstantString", C.c_int, P)
_getstr = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
_copc = _f("LLVMGetConstOpcode", C.c_int, P)
_sname = _f("LLVMGetStructName", C.c_char_p, P)
_intw = _f("LLVMGetIntTypeWidth", C.c_uint, P)
_elt = _f("LLVMGetElementType", P, P)
_arrlen = _f("LLVMGetArrayLength2", C.c_uint64, P)
_nelts = _f("LLVMCountStructElementTypes", C.c_uint, P)
_eltat = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
_isconst = _f("LLVMIsGlobalConstant", C.c_int, P)
_cdelt = _f("LLVMGetElementAsConstant", P, P, C.c_uint) if hasattr(L, "LLVMGetElementAsConstant") else None
_aggelt = _f("LLVMGetAggregateElement", P, P, C.c_uint)
_dl = _f("LLVMGetModuleDataLayout", P, P)
_absz = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
_eoff = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)

OPC = {1: "ret", 2: "br", 3: "switch", 7: "unreachable", 8: "add", 10: "sub", 12: "mul", 14: "udiv", 15: "sdiv",
       17: "urem", 18: "srem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca",
       27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi",
       35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast",
       42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 68: "freeze", 53: "extractvalue",
       54: "insertvalue", 9: "fadd", 11: "fsub", 13: "fmul", 16: "fdiv", 49: "va_arg", 66: "fneg", 4: "indirectbr"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
NEG = dict(eq="ne", ne="eq", ugt="ule", ule="ugt", uge="ult", ult="uge", sgt="sle", sle="sgt", sge="slt", slt="sge")
SWAP = dict(eq="eq", ne="ne", ugt="ult", ult="ugt", uge="ule", ule="uge", sgt="slt", slt="sgt", sge="sle", sle="sge")


class Val:
    __slots__ = ("kind", "name", "ty", "c", "ops", "opc", "gty", "users", "fn", "idx", "s", "_x")

    def __init__(s, kind, name=None, ty=None):
        s.kind, s.name, s.ty = kind, name, ty
        s.c = s.opc = s.gty = s.fn = s.idx = s.s = s._x = None
        s.ops = []
        s.users = []

    def __repr__(s):
        if s.kind == "int":
            return "%d" % s.c
        if s.kind == "str":
            return repr(s.s)
        return "%s:%s" % (s.kind, s.name)


class Inst(Val):
    __slots__ = ("bb", "line", "file", "pred", "inc", "succ", "cases", "pos", "callee", "aty")

    def __init__(s, opc):
        Val.__init__(s, "inst")
        s.opc = opc
        s.bb = s.pred = s.callee = s.aty = None
        s.line, s.file, s.inc, s.succ, s.cases, s.pos = 0, "", [], [], [], 0

    def __repr__(s):
        return "%%%s=%s" % (s.name, s.opc)

    @property
    def args(s):
        return s.ops[:-1]

    @property
    def where(s):
        return "%s:%d" % (s.file, s.line)

    @property
    def cname(s):
        """Name of the directly called function, or None."""
        if s.callee is None or s.callee.kind != "func":
            return None
        n = s.callee.name
        return n if n.startswith("llvm.") else re.sub(r"(\.\d+)+$", "", n)


class Block:
    __slots__ = ("fn", "insts", "succs", "preds", "name", "idx", "_x")

    def __init__(s, fn, i):
        s.fn, s.idx, s.insts, s.succs, s.preds, s.name, s._x = fn, i, [], [], [], "b%d" % i, None

    @property
    def term(s):
        return s.insts[-1]

    def __repr__(s):
        return "%s.%s" % (s.fn.name, s.name)


class Func:
    def __init__(s, name):
        s.name, s.blocks, s.params, s.decl, s.internal, s.val, s.addr_taken = name, [], [], True, False, None, False
        s.line, s.file = 0, ""
        s.varargs = False

    def insts(s):
        for b in s.blocks:
            for i in b.insts:
                yield i

    def calls(s, *names):
        for i in s.insts():
            if i.opc == "call" and (not names or i.cname in names):
                yield i

    def __repr__(s):
        return "fn " + s.name


class Struct:
    def __init__(s, name, elts, size):
        s.name, s.elts, s.size = name, elts, size


class Module:
    def __init__(self, path, text=None):
        ctx = _ctx()
        buf, msg, mod = P(), P(), P()
        if _mb(path.encode(), C.byref(buf), C.byref(msg)):
            raise AnalysisBroken("cannot read " + path)
        if _parse(ctx, buf, C.byref(mod), C.byref(msg)):
            raise AnalysisBroken("cannot parse " + path)
        self.m = mod
        self.dl = _dl(mod)
        self.tcache, self.vals, self.structs = {}, {}, {}
        self.funcs, self.globals = {}, {}
        self._load()

    # -- types: canonical strings; struct types recorded with layout
    def ty(self, t):
        if t in self.tcache:
            return self.tcache[t]
        k = _tkind(t)
        if k == 8:
            r = "i%d" % _intw(t)
        elif k == 10:
            n = _sname(t)
            if n:
                r = "%" + n.decode()
                self.tcache[t] = r
            else:
                p = _tstr(t); r = C.string_at(p).decode(); _dispose(p)
            n_e = _nelts(t)
            try:
                elts = [(self.ty(_eltat(t, i)), _eoff(self.dl, t, i)) for i in range(n_e)]
                self.structs[r] = Struct(r, elts, _absz(self.dl, t))
            except OSError:
                pass
        elif k == 11:
            r = "[%d x %s]" % (_arrlen(t), self.ty(_elt(t)))
        else:
            p = _tstr(t); r = C.string_at(p).decode(); _dispose(p)
        self.tcache[t] = r
        return r

    def sizeof(self, ty):
        m = re.match(r"i(\d+)$", ty)
        if m:
            return (int(m.group(1)) + 7) // 8
        if ty == "ptr":
            return 8
        m = re.match(r"\[(\d+) x (.*)\]$", ty)
        if m:
            return int(m.group(1)) * self.sizeof(m.group(2))
        if ty in self.structs:
            return self.structs[ty].size
        if ty == "double":
            return 8
        raise AnalysisBroken("sizeof " + ty)

    def _nm(self, v):
        n = C.c_size_t()
        r = _name(v, C.byref(n))
        return r.decode("latin1") if r else ""

    def val(self, v):
        x = self.vals.get(v)
        if x is not None:
            return x
        k = _vk(v)
        t = self.ty(_typeof(v))
        if k in (18,):  # ConstantInt
            x = Val("int", None, t)
            w = int(t[1:]) if t[0] == "i" else 64
            x.c = _sext(v) if w <= 64 else 0
            if w == 1:
                x.c &= 1
        else:
            x = Val({3: "func", 5: "global", 19: "null", 11: "undef", 20: "null"}.get(k, "const"), None, t)
            # enum: 0 arg,1 bb,2..4 memory accesses,5 function,6 alias,7 ifunc,8 globalvar,9 blockaddr,10 constexpr...
            p = None
            x.kind = VK.get(k, "const%d" % k)
            if x.kind == "int":
                x.c = _sext(v)
            if x.kind == "cexpr":
                x.opc = OPC.get(_copc(v), "?")
                if x.opc == "gep":
                    x.gty = self.ty(_gepty(v))
                x.ops = [self.val(_op(v, i)) for i in range(_nop(v))]
            elif x.kind in ("agg",):
                x.ops = [self.val(_op(v, i)) for i in range(_nop(v))]
            elif x.kind == "data":
                if _isstr(v):
                    n = C.c_size_t()
                    q = _getstr(v, C.byref(n))
                    x.s = C.string_at(q, n.value)
                else:
                    i = 0
                    m = re.match(r"\[(\d+) x", t)
                    x.ops = [self.val(_aggelt(v, i)) for i in range(int(m.group(1)))] if m else []
        self.vals[v] = x
        return x

    def _load(self):
        g = _fg(self.m)
        while g:
            x = Val("global", self._nm(g), self.ty(_gvt(g)))
            self.vals[g] = x
            self.globals[x.name] = x
            x._x = {"const": bool(_isconst(g)), "ptr": g}
            g = _ng(g)
        f = _ff(self.m)
        fl = []
        while f:
            F = Func(self._nm(f))
            F.decl = bool(_isdecl(f))
            F.internal = _linkage(f) == 8
            x = Val("func", F.name, self.ty(_gvt(f)))
            x.fn = F
            F.val = x
            F.varargs = "..." in x.ty
            self.vals[f] = x
            self.funcs[F.name] = F
            for i in range(_nparam(f)):
                a = Val("arg", "", None)
                pv = _param(f, i)
                a.name, a.ty, a.fn, a.idx = self._nm(pv) or "arg%d" % i, self.ty(_typeof(pv)), F, i
                self.vals[pv] = a
                F.params.append(a)
            fl.append((f, F))
            f = _nf(f)
        for g in list(self.globals.values()):
            pv = g._x["ptr"]
            ini = _init(pv)
            g._x["init"] = self.val(ini) if ini else None
            if g._x["init"] is not None and g._x["const"] and g._x["init"].kind == "data" and g._x["init"].s is not None:
                g.s = g._x["init"].s.rstrip(b"\0").decode("latin1")
            elif g._x["init"] is not None and g._x["const"] and g._x["init"].kind == "zero" and g.ty == "[1 x i8]":
                g.s = ""
        for f, F in fl:
            if not F.decl:
                self._func(f, F)
        self._truncate_noreturn()
        for F in self.funcs.values():
            for i in F.insts():
                for k, o in enumerate(i.ops):
                    o.users.append(i)
                    if o.kind == "func" and not (i.opc == "call" and k == len(i.ops) - 1):
                        o.fn.addr_taken = True
                for (v, b) in i.inc:
                    v.users.append(i)
                    if v.kind == "func":
                        v.fn.addr_taken = True

    def _truncate_noreturn(self):
        """Cut every block after a call that never returns (exit, abort, and every
        function all of whose paths end in such a call), then drop dead blocks."""
        nr = {"exit", "_exit", "_Exit", "abort", "__assert_fail", "longjmp"}
        changed = True
        while changed:
            changed = False
            for F in self.funcs.values():
                if F.decl or F.name in nr:
                    continue
                cut = False
                for B in F.blocks:
                    for k, I in enumerate(B.insts):
                        if I.opc == "call" and I.callee.name in nr and not (
                                k + 1 < len(B.insts) and B.insts[k + 1].opc == "unreachable" and k + 2 == len(B.insts)):
                            u = Inst("unreachable")
                            u.bb, u.pos, u.line, u.file, u.ty, u.name = B, k + 1, I.line, I.file, "void", I.name + "u"
                            B.insts = B.insts[:k + 1] + [u]
                            B.succs = []
                            cut = True
                            break
                if cut:
                    seen, st = {F.blocks[0]}, [F.blocks[0]]
                    while st:
                        x = st.pop()
                        for s in x.succs:
                            if s not in seen:
                                seen.add(s)
                                st.append(s)
                    F.blocks = [B for B in F.blocks if B in seen]
                    for B in F.blocks:
                        B.preds = []
                    for B in F.blocks:
                        for s in B.succs:
                            s.preds.append(B)
                    for B in F.blocks:
                        for I in B.insts:
                            if I.opc != "phi":
                                break
                            I.inc = [(v, pb) for v, pb in I.inc if pb in B.preds]
                if not any(B.term.opc == "ret" for B in F.blocks) and \
                        any(I.opc == "call" and I.callee.name in nr for I in F.insts()):
                    nr.add(F.name)
                    changed = True
        self.noreturn = nr

    def _func(self, f, F):
        bmap, order, raw = {}, [], []
        b = _fb(f)
        while b:
            B = Block(F, len(order))
            bmap[b] = B
            order.append((b, B))
            b = _nb(b)
        n = 0
        for b, B in order:
            i = _fi(b)
            while i:
                o = OPC.get(_opc(i), "op%d" % _opc(i))
                if o == "call":
                    cv = _called(i)
                    if _vk(cv) == VKN["func"] and self._nm(cv).startswith(("llvm.dbg.", "llvm.lifetime.", "llvm.assume", "llvm.experimental.noalias")):
                        i = _ni(i)
                        continue
                I = Inst(o)
                I.bb, I.name, I.ty, I.pos = B, str(n), self.ty(_typeof(i)), len(B.insts)
                n += 1
                I.line = _line(i)
                ln = C.c_uint()
                fp = _file(i, C.byref(ln))
                I.file = C.string_at(fp, ln.value).decode() if fp and ln.value else ""
                if not F.line and I.line:
                    F.line, F.file = I.line, I.file
                self.vals[i] = I
                B.insts.append(I)
                raw.append((i, I))
                i = _ni(i)
        for i, I in raw:
            o = I.opc
            if o == "phi":
                I.inc = [(self.val(_incv(i, k)), bmap[_incb(i, k)]) for k in range(_ninc(i))]
                continue
            if o in ("br", "switch"):
                I.succ = [bmap[_succ(i, k)] for k in range(_nsucc(i))]
                if o == "br":
                    I.ops = [self.val(_op(i, 0))] if _iscond(i) else []
                else:
                    I.ops = [self.val(_op(i, 0))]
                    # operands: cond, default, (val, bb)*
                    I.cases = [(self.val(_op(i, 2 * k)).c, bmap[_succ(i, k)]) for k in range(1, _nsucc(i))]
                continue
            I.ops = [self.val(_op(i, k)) for k in range(_nop(i))]
            if o == "icmp":
                I.pred = PRED[_icmp(i)]
            elif o == "gep":
                I.gty = self.ty(_gepty(i))
            elif o == "alloca":
                I.aty = self.ty(_alloc(i))
            elif o == "call":
                I.callee = self.val(_called(i))
                I.gty = self.ty(_fty(i))
        for b, B in order:
            B.succs = list(dict.fromkeys(B.term.succ)) if B.insts else []
        # reachable blocks only
        seen, st = {order[0][1]}, [order[0][1]]
        while st:
            x = st.pop()
            for s in x.succs:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        F.blocks = [B for _, B in order if B in seen]
        for B in F.blocks:
            for s in B.succs:
                s.preds.append(B)
        for B in F.blocks:
            for I in B.insts:
                if I.opc != "phi":
                    break
                I.inc = [(v, pb) for v, pb in I.inc if pb in seen]


# LLVMValueKind numbering (llvm-c/Core.h)
_VKL = ["arg", "block", "mem1", "mem2", "mem3", "func", "alias", "ifunc", "global", "blockaddr", "cexpr", "agg",
        "agg", "agg", "undef", "zero", "data", "data", "int", "fp", "null", "tokennone", "meta", "asm", "inst",
        "poison", "target"]
VK = dict(enumerate(_VKL))
VKN = {"func": 5}
