"""Mark every non-recursive function outside `keep` always_inline and let opt inline it.

Extracting or folding a helper then leaves the analysed program unchanged: only
the functions in `keep` (and recursive ones) remain as calls.
"""
import ctypes as C, os, re
import build, ir
from ir import L, P, _f

_kind = _f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
_mk = _f("LLVMCreateEnumAttribute", P, P, C.c_uint, C.c_uint64)
_addf = _f("LLVMAddAttributeAtIndex", None, P, C.c_uint, P)
_rmf = _f("LLVMRemoveEnumAttributeAtIndex", None, P, C.c_uint, C.c_uint)
_mctx = _f("LLVMGetModuleContext", P, P)
_wr = _f("LLVMWriteBitcodeToFile", C.c_int, P, C.c_char_p)
_getf = _f("LLVMGetNamedFunction", P, P, C.c_char_p)
FN = 0xFFFFFFFF


def recursive_functions(m):
    """Names of functions in a call-graph cycle (direct calls)."""
    g = {f.name: {c.callee.name for c in f.calls() if c.callee.kind == "func"} for f in m.funcs.values() if not f.decl}
    idx, low, st, on, out, n = {}, {}, [], set(), set(), [0]
    import sys
    sys.setrecursionlimit(100000)

    def sc(v):
        idx[v] = low[v] = n[0]; n[0] += 1
        st.append(v); on.add(v)
        for w in g.get(v, ()):
            if w not in g:
                continue
            if w not in idx:
                sc(w); low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop(); on.discard(w); comp.append(w)
                if w == v:
                    break
            if len(comp) > 1 or v in g[v]:
                out.update(comp)
    for v in g:
        if v not in idx:
            sc(v)
    return out


PASSES = "function(sroa,early-cse,instsimplify,adce)"


def load(keep=None, only=None, passes=PASSES, cache={}):
    """Load the program. keep=None: no inlining at all. keep=set: inline all defined
    functions except those named, recursive ones and main."""
    b = build.prepare()
    key = (None if keep is None else frozenset(keep), None if only is None else frozenset(only), passes)
    if key in cache:
        return cache[key]
    src = b.bc
    if keep is not None or only is not None:
        base = cache.get("raw")
        m = ir.Module(b.bc)
        rec = recursive_functions(m)
        ctx = _mctx(m.m)
        kind = _kind(b"alwaysinline", 12)
        nk = _kind(b"noinline", 8)
        n = 0
        for f in m.funcs.values():
            if f.decl or f.name in rec or f.name == "main" or f.varargs:
                continue
            if keep is not None and re.sub(r"(\.\d+)+$", "", f.name) in keep:
                continue
            if only is not None and f.name not in only:
                continue
            p = _getf(m.m, f.name.encode())
            _rmf(p, FN, nk)
            _addf(p, FN, _mk(ctx, kind, 0))
            n += 1
        src = os.path.join(b.dir, "attr%d.bc" % len(cache))
        if _wr(m.m, src.encode()):
            raise build.AnalysisBroken("cannot write bitcode")
        passes = "always-inline," + passes
    out = os.path.join(b.dir, "opt%d.bc" % len(cache))
    build.optimise(src, out, passes)
    mod = ir.Module(out)
    mod.path = out
    mod.built = b
    cache[key] = mod
    return mod
