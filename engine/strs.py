"""Where the characters of a C string come from (flow-insensitive, interprocedural).

labels(v) -> (heads, tails): sets of origin labels. A label is
  "lit:<text>"  string literal          "@g"           text held in global g
  "S.f[..]"     text held in a field    "call:f"       text produced by library call f
  "fn:argK"     parameter of an entry   "%d" / "%c"    formatted number / character
heads: what the text can start with; tails: everything that may follow.
"""
import re
from collections import defaultdict

ALLOC = {"malloc", "calloc", "realloc", "safe_malloc", "safe_realloc", "strdup", "strndup"}
SKIP = {"out_of_mem"}


class Strs:
    def __init__(self, prog):
        self.p = prog
        prog.callers()
        self.writers = None
        self._r = {}
        self._rets = {}
        self._lab = {}

    # ---------------------------------------------------------------- pointer roots
    def roots(self, v, ctx=None, _stk=()):
        """set of (kind, obj, off) ; kind in alloc/alloca/label/lit ; off True if displaced"""
        out = set()
        seen = set()
        st = [(v, False, 0)]
        while st:
            x, off, d = st.pop()
            if (x, off) in seen or d > 60:
                continue
            seen.add((x, off))
            k = x.kind
            if k == "global":
                if x.s is not None:
                    out.add(("lit", x.s, off))
                else:
                    out.add(("alloca", x, off))
            elif k in ("null", "zero", "undef", "poison", "int"):
                continue
            elif k == "arg":
                cs = self.p.callers().get(x.fn, [])
                n = 0
                for c in cs:
                    if x.idx < len(c.args):
                        n += 1
                        st.append((c.args[x.idx], off, d + 1))
                if not n:
                    out.add(("label", "%s:arg%d" % (x.fn.name, x.idx), off))
            elif k in ("inst", "cexpr"):
                o = x.opc
                if o in ("bitcast", "freeze", "inttoptr", "ptrtoint", "sext", "zext", "trunc"):
                    st.append((x.ops[0], off, d))
                elif o == "gep":
                    base, steps = self.p.s.gepsteps(x)
                    disp = any(not (s[0] == "[]" and s[1].kind == "int" and s[1].c == 0) for s in steps)
                    if any(s[0] != "[]" for s in steps):
                        # address of a field (an embedded char array)
                        for q in self.ip(self.p.s.apath(x, 0), x):
                            out.add(("label", q, off))
                    else:
                        st.append((base, off or disp, d))
                elif o == "phi":
                    for y, _ in x.inc:
                        st.append((y, off, d))
                elif o == "select":
                    st.append((x.ops[1], off, d))
                    st.append((x.ops[2], off, d))
                elif o == "alloca":
                    out.add(("alloca", x, off))
                elif o == "load":
                    src = x.ops[0]
                    b, steps = self.p.s.gepsteps(src)
                    if b.opc == "alloca" and not steps:
                        for y in self.slot(b, set()):
                            if y.__class__ is str:
                                out.add(("label", y, off))
                            else:
                                st.append((y, off, d + 1))
                    else:
                        for q in self.p.ipaths(x):
                            out.add(("label", q, off))
                elif o == "call":
                    n = x.cname
                    if n in ("strdup", "strndup") or n in ALLOC:
                        out.add(("alloc", x, off))
                        if n in ("realloc", "safe_realloc"):
                            st.append((x.args[0], off, d + 1))
                    elif n in ("strcpy", "strcat", "strncpy", "memcpy", "memmove", "strchr", "strrchr", "strstr", "fgets", "stpcpy"):
                        st.append((x.args[0], off or n in ("strchr", "strrchr", "strstr"), d + 1))
                    else:
                        ts = [t for t in self.p.targets(x) if not t.decl]
                        if not ts:
                            out.add(("label", "call:" + (n or "*"), off))
                        for t in ts:
                            for y in self.rets(t):
                                st.append((y, off, d + 1))
                elif o in ("add", "sub"):
                    st.append((x.ops[0], True, d))
                else:
                    out.add(("label", "?", off))
        return out

    def ip(self, ps, v):
        return ps

    def rets(self, f):
        if f not in self._rets:
            self._rets[f] = [b.term.ops[0] for b in f.blocks if b.term.opc == "ret" and b.term.ops]
        return self._rets[f]

    def slot(self, al, seen):
        """values stored into a pointer-sized stack slot, through out-parameters too"""
        if al in seen:
            return []
        seen.add(al)
        out = []
        for u in al.users:
            if u.opc == "store" and u.ops[1] is al:
                out.append(u.ops[0])
            elif u.opc == "call":
                for k, a in enumerate(u.args):
                    if a is al:
                        ts = [t for t in self.p.targets(u)]
                        for t in ts:
                            if t.decl:
                                out.append("call:" + t.name)
                            elif k < len(t.params):
                                out += self.slot(t.params[k], seen)
            elif u.opc in ("bitcast", "phi"):
                out += self.slot(u, seen)
        return out

    # ---------------------------------------------------------------- buffer writers
    def _collect(self):
        if self.writers is not None:
            return
        self.writers = defaultdict(list)    # root object -> [(ishead, [src items], inst)]

        def add(dest, srcs, inst, tail=False):
            for kind, obj, off in self.roots(dest):
                if kind in ("alloc", "alloca"):
                    self.writers[obj].append((not (off or tail), srcs, inst))

        for f in self.p.defined():
            for i in f.insts():
                if i.opc == "call":
                    n = i.cname
                    a = i.args
                    if n in ("strcpy", "strncpy", "memcpy", "memmove", "stpcpy", "strlcpy") or \
                            (n or "").startswith(("llvm.memcpy", "llvm.memmove")):
                        add(a[0], [a[1]], i)
                    elif n in ("strcat", "strncat"):
                        add(a[0], [a[1]], i, True)
                    elif n in ("sprintf", "snprintf"):
                        k = 1 if n == "sprintf" else 2
                        fmt = [o for kd, o, _ in self.roots(a[k]) if kd == "lit"]
                        for fm in fmt or [None]:
                            items = self._fmt(fm, a[k + 1:])
                            add(a[0], items, i)
                    elif n in ("fgets", "read", "fread", "getcwd", "readlink"):
                        add(a[0] if n not in ("read", "readlink") else a[1], ["call:" + n], i)
                    elif n in ("strdup", "strndup"):
                        self.writers[i].append((True, [a[0]], i))
                elif i.opc == "store" and i.ops[0].ty == "i8":
                    v = i.ops[0]
                    if v.kind == "int":
                        if v.c == 0:
                            continue
                        items = ["lit:" + chr(v.c & 255)]
                    else:
                        w, g = v, 0
                        while w.kind == "inst" and w.opc in ("trunc", "zext", "sext", "freeze") and g < 9:
                            w, g = w.ops[0], g + 1
                        if w.kind == "inst" and w.opc == "load":
                            items = [w.ops[0]]
                        else:
                            items = ["%c"]
                    add(i.ops[1], items, i, "char")

    def _fmt(self, fm, args):
        if fm is None:
            return ["?"] + list(args)
        out, k = [], 0
        for m in re.finditer(r"%[-+ #0]*[\d*]*(?:\.[\d*]+)?(?:hh|h|ll|l|z|j|t)*([a-zA-Z%])|([^%]+)", fm):
            if m.group(2):
                out.append("lit:" + m.group(2))
            elif m.group(1) == "%":
                out.append("lit:%")
            else:
                out.append(args[k] if m.group(1) == "s" and k < len(args) else "%" + m.group(1))
                k += 1
        return out

    # ---------------------------------------------------------------- labels
    def labels(self, v, _stk=frozenset()):
        self._collect()
        heads, tails = set(), set()
        for kind, obj, off in self.roots(v):
            if kind == "lit":
                (heads).add("lit:" + obj)
            elif kind == "label":
                heads.add(obj)
            else:
                if obj in _stk:
                    continue
                h, t = self._obj(obj, _stk | {obj})
                heads |= h
                tails |= t
        return heads, tails

    def _obj(self, obj, stk):
        if obj in self._lab:
            return self._lab[obj]
        ws = self.writers.get(obj, [])
        heads, tails, chars = set(), set(), set()
        for ishead, srcs, inst in ws:
            for k, s in enumerate(srcs):
                if s.__class__ is str:
                    h, t = {s}, set()
                else:
                    h, t = self.labels(s, stk)
                if inst.opc == "store":
                    chars |= h | t
                elif ishead and k == 0:
                    heads |= h
                    tails |= t
                else:
                    tails |= h | t
        if not heads:
            heads = set(chars)
        tails |= chars
        if not ws and obj.kind == "global":
            heads = {"@" + obj.name}
        r = (frozenset(heads), frozenset(tails))
        if len(stk) == 1:
            self._lab[obj] = r
        return r
