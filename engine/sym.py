"""Symbolic naming of values and locations, CFG utilities and branch-fact dataflow."""
import re
from build import AnalysisBroken, disassemble
from ir import NEG, SWAP

# ------------------------------------------------------------------ field names


class Types:
    """Field names by (struct, byte offset, access size), from the debug info."""

    def __init__(self, bcpath):
        txt = disassemble(bcpath)
        node = {}
        for m in re.finditer(r"^!(\d+) = (?:distinct )?(!\{.*|!DI(?:CompositeType|DerivedType|BasicType|Enumerator|Subprogram|SubroutineType|GlobalVariable)\(.*)$", txt, re.M):
            node[m.group(1)] = m.group(2)
        self.comp, self.enums = {}, {}
        self._node = node

        def attr(s, k):
            m = re.search(r"\b%s: (\"[^\"]*\"|![0-9]+|[A-Za-z_0-9-]+)" % k, s)
            return m.group(1).strip('"') if m else None

        def lst(ref):
            return re.findall(r"!(\d+)", node.get(ref[1:], "")) if ref else []

        def under(ref):
            while ref:
                s = node.get(ref[1:], "")
                if s.startswith("!DIDerivedType") and re.search(r"DW_TAG_(typedef|const_type|volatile_type)", s):
                    ref = attr(s, "baseType")
                    continue
                return ref
            return None

        def leaves(ref, prefix, off, out, depth=0):
            s = node.get(ref[1:], "")
            for e in lst(attr(s, "elements")):
                d = node.get(e, "")
                if "DW_TAG_member" not in d:
                    continue
                nm, bo, sz = attr(d, "name") or "", int(attr(d, "offset") or 0), int(attr(d, "size") or 0)
                bt = under(attr(d, "baseType"))
                full = (prefix + "." + nm if nm else prefix) if prefix else nm
                bits = "DIFlagBitField" in d
                out.append((full, off + bo, sz, bits))
                if bt and depth < 4:
                    b = node.get(bt[1:], "")
                    if b.startswith("!DICompositeType") and re.search(r"DW_TAG_(structure|union)_type", b):
                        leaves(bt, full, off + bo, out, depth + 1)

        for n, s in node.items():
            if s.startswith("!DICompositeType") and "DW_TAG_structure_type" in s and attr(s, "elements"):
                nm = attr(s, "name")
                if nm and nm not in self.comp:
                    out = []
                    leaves("!" + n, "", 0, out)
                    self.comp[nm] = out
            if s.startswith("!DICompositeType") and "DW_TAG_enumeration_type" in s:
                for e in lst(attr(s, "elements")):
                    d = node.get(e, "")
                    if attr(d, "name"):
                        self.enums[attr(d, "name")] = int(attr(d, "value"))

        def pointee(ref):
            """name of the struct a pointer type points at, else None"""
            ref = under(ref)
            s = node.get((ref or "!x")[1:], "")
            if "DW_TAG_pointer_type" in s:
                t = under(attr(s, "baseType"))
                b = node.get((t or "!x")[1:], "")
                if "DW_TAG_structure_type" in b:
                    return attr(b, "name")
            return None

        self.fnsig, self.globptr, self.memptr = {}, {}, {}
        for m in re.finditer(r"^define [^@]*@([\w.$]+)\(.*!dbg !(\d+)", txt, re.M):
            sp = node.get(m.group(2), "")
            ty = attr(sp, "type")
            sr = node.get((ty or "!x")[1:], "")
            tl = attr(sr, "types")
            self.fnsig[m.group(1)] = [pointee("!" + x) if x != "null" else None
                                      for x in re.findall(r"!(\d+)|(null)", node.get((tl or "!x")[1:], "")) for x in [x[0] or x[1]]]
        for n, s in node.items():
            if s.startswith("!DIGlobalVariable"):
                q = pointee(attr(s, "type"))
                if q:
                    self.globptr[attr(s, "name")] = q

        def mems(st, ref, off, depth=0):
            s = node.get(ref[1:], "")
            for e in lst(attr(s, "elements")):
                d = node.get(e, "")
                if "DW_TAG_member" not in d:
                    continue
                bo = off + int(attr(d, "offset") or 0)
                q = pointee(attr(d, "baseType"))
                if q:
                    self.memptr.setdefault((st, bo // 8), q)
                bt = under(attr(d, "baseType"))
                if bt and depth < 4 and re.search(r"DW_TAG_(structure|union)_type", node.get(bt[1:], "")):
                    mems(st, bt, bo, depth + 1)
        for n, s in node.items():
            if s.startswith("!DICompositeType") and "DW_TAG_structure_type" in s and attr(s, "elements") and attr(s, "name"):
                mems(attr(s, "name"), "!" + n, 0)

    def field(self, st, off, size):
        """Leaf name for an access of `size` bytes at byte `off` of struct st; best effort."""
        c = self.comp.get(st)
        if c is None:
            return "+%d" % off
        ex = [n for n, o, s, b in c if o == off * 8 and s == size * 8 and not b]
        if ex:
            return ex[-1]
        cov = [(s, n, o) for n, o, s, b in c if o <= off * 8 and off * 8 + 8 * size <= o + s and not b]
        if cov:
            s, n, o = min(cov)
            d = off - o // 8
            return n if d == 0 else "%s+%d" % (n, d)
        if any(b and off * 8 <= o < off * 8 + 8 * size for n, o, s, b in c):
            return "bits@%d" % off
        return "+%d" % off

    def bitname(self, st, off, bit):
        for n, o, s, b in self.comp.get(st, ()):
            if b and o == off * 8 + bit:
                return n
        return None

    def offset(self, st, field):
        for n, o, s, b in self.comp.get(st, ()):
            if n == field:
                return o // 8
        raise AnalysisBroken("struct %s has no field %s" % (st, field))


def sname(ty):
    """'%struct.database.12' -> 'database' ; anonymous -> None"""
    m = re.match(r"%(?:struct|union)\.([A-Za-z_]\w*?)(?:\.\d+)?$", ty or "")
    if not m or m.group(1) == "anon":
        return None
    return m.group(1)


# ------------------------------------------------------------------ CFG utilities

def rpo(fn):
    seen, out = set(), []
    st = [(fn.blocks[0], iter(fn.blocks[0].succs))]
    seen.add(fn.blocks[0])
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(s.succs)))
                break
        else:
            out.append(b)
            st.pop()
    return out[::-1]


def dominators(fn):
    order = rpo(fn)
    num = {b: i for i, b in enumerate(order)}
    idom = {order[0]: order[0]}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in b.preds:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) is not new:
                idom[b] = new
                ch = True
    return idom


def dominates(idom, a, b):
    while True:
        if a is b:
            return True
        n = idom.get(b)
        if n is None or n is b:
            return False
        b = n


def inst_dominates(idom, i, j):
    if i.bb is j.bb:
        return i.pos < j.pos
    return dominates(idom, i.bb, j.bb)


def back_edges(fn):
    idom = dominators(fn)
    return [(b, s) for b in fn.blocks for s in b.succs if dominates(idom, s, b)]


def loops(fn):
    """header -> set(blocks) of natural loops (merged per header)."""
    out = {}
    for t, h in back_edges(fn):
        body = out.setdefault(h, {h})
        st = [t]
        while st:
            x = st.pop()
            if x not in body:
                body.add(x)
                st.extend(x.preds)
    return out


def reach(starts, stop=()):
    """Blocks reachable from the given blocks without passing through stop blocks."""
    seen, st = set(), [b for b in starts]
    while st:
        b = st.pop()
        if b in seen or b in stop:
            continue
        seen.add(b)
        st.extend(b.succs)
    return seen


# ------------------------------------------------------------------ values

PURE = {"strlen", "strcmp", "strcasecmp", "strncmp", "strncasecmp", "strchr", "strrchr", "isspace", "isdigit",
        "isalnum", "tolower", "toupper", "isupper", "isalpha", "__ctype_b_loc", "getenv", "strstr"}
CASTS = ("sext", "zext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze")
COMM = ("add", "mul", "and", "or", "xor")


class Sym:
    def __init__(self, mod, types):
        self.m, self.t = mod, types
        self._e, self._p, self._a = {}, {}, {}
        self._stk = set()

    # ---- location of a pointer value as (base value, [(struct, byteoff) | ('[]', idx Val, elemsize)])
    def gepsteps(self, v):
        """Return (base, steps) with all GEPs folded."""
        steps = []
        while v.opc == "gep" and v.kind in ("inst", "cexpr"):
            cur = v.gty
            st = []
            idx = v.ops[1:]
            first = idx[0]
            if not (first.kind == "int" and first.c == 0):
                st.append(("[]", first, self.m.sizeof(cur), cur))
            for ix in idx[1:]:
                mm = re.match(r"\[(\d+) x (.*)\]$", cur)
                if mm:
                    cur = mm.group(2)
                    if not (ix.kind == "int" and ix.c == 0):
                        st.append(("[]", ix, self.m.sizeof(cur), cur))
                else:
                    S = self.m.structs[cur]
                    st.append((cur, S.elts[ix.c][1]))
                    cur = S.elts[ix.c][0]
            if v.gty.startswith("%") and len(idx) == 1:
                pass
            steps = st + steps
            v = v.ops[0]
            while v.opc in ("bitcast", "freeze"):
                v = v.ops[0]
        return v, steps

    def apath(self, ptr, size, depth=0):
        """Set of strings naming the location ptr refers to (access of `size` bytes)."""
        key = (ptr, size)
        if key in self._a:
            return self._a[key]
        base, steps = self.gepsteps(ptr)
        out = set()
        root_named = None
        # fold struct steps: struct name of the first named struct, with cumulative offset
        segs = []   # ('f', name) or ('[]', idx)
        i = 0
        while i < len(steps):
            s = steps[i]
            if s[0] == "[]":
                segs.append(("[]", s[1]))
                i += 1
                continue
            nm, off = sname(s[0]), s[1]
            j = i + 1
            while j < len(steps) and steps[j][0] != "[]" and (nm is not None):
                off += steps[j][1]
                j += 1
            last = j >= len(steps)
            if nm is None:
                segs.append(("f", None, "%s+%d" % (s[0], off)))
            else:
                sz = size if last else 0
                fld = self.t.field(nm, off, sz) if last else self._fieldagg(nm, off)
                segs.append(("f", nm, fld))
            i = j
        # an access to the first field carries no struct step of its own
        if size and (not steps or steps[-1][0] == "[]"):
            nm0 = sname(steps[-1][3]) if steps else self.vtype(base)
            ty0 = self._sty(nm0) if nm0 else None
            if ty0 and size < self.m.structs[ty0].size:
                segs.append(("f", nm0, self.t.field(nm0, 0, size)))
        bases = self.paths(base, depth + 1)
        for b in bases:
            p = b
            first = True
            for s in segs:
                if s[0] == "[]":
                    p = p + ("[%d]" % s[1].c if s[1].kind == "int" else "[]")
                else:
                    if first and (p.startswith(("?", "arg", "call", "phi", "alloca"))):
                        p = s[1] if s[1] else p
                        root_named = True
                    p = p + "." + s[2]
                first = False
            out.add(p)
        r = frozenset(out)
        if len(r) > 12:
            r = frozenset(["?"])
        if not self._stk:
            self._a[key] = r
        return r

    def _sty(self, nm):
        if not hasattr(self, "_styc"):
            self._styc = {}
            for k in self.m.structs:
                n = sname(k)
                if n:
                    self._styc.setdefault(n, k)
        return self._styc.get(nm)

    def vtype(self, v, d=0):
        """struct a pointer value points at (debug info, else sibling accesses), or None"""
        if not hasattr(self, "_vt"):
            self._vt = {}
        if v in self._vt:
            return self._vt[v]
        self._vt[v] = None
        r = None
        if v.kind == "arg":
            sg = self.t.fnsig.get(v.fn.name, [])
            r = sg[v.idx + 1] if v.idx + 1 < len(sg) else None
        elif v.kind == "global":
            r = sname(v.ty)
        elif v.kind == "inst" and d < 6:
            if v.opc == "alloca":
                r = sname(v.aty or "")
            elif v.opc == "load":
                b, steps = self.gepsteps(v.ops[0])
                if b.kind == "global" and not steps:
                    r = self.t.globptr.get(gname(b.name).split(".")[-1])
                elif steps and steps[-1][0] != "[]":
                    nm, off, k = None, 0, len(steps) - 1
                    while k >= 0 and steps[k][0] != "[]":
                        off += steps[k][1]
                        nm = sname(steps[k][0]) or nm
                        k -= 1
                    nm = sname(steps[k + 1][0])
                    r = self.t.memptr.get((nm, off))
                elif not steps or steps[-1][0] == "[]":
                    nm = sname(steps[-1][3]) if steps else (self.vtype(b, d + 1))
                    r = self.t.memptr.get((nm, 0)) if nm else None
            elif v.opc == "call" and v.callee.kind == "func":
                sg = self.t.fnsig.get(v.callee.name, [])
                r = sg[0] if sg else None
            elif v.opc in ("phi", "select"):
                for x in ([x for x, _ in v.inc] if v.opc == "phi" else v.ops[1:3]):
                    r = self.vtype(x, d + 1)
                    if r:
                        break
        if r is None and v.kind == "inst" and v.ty == "ptr":
            c = {sname(u.gty) for u in v.users if u.opc == "gep" and u.ops[0] is v and (u.gty or "").startswith("%")}
            c.discard(None)
            if len(c) == 1:
                r = c.pop()
        self._vt[v] = r
        return r

    def _fieldagg(self, nm, off):
        c = self.t.comp.get(nm, ())
        ex = [(s, n) for n, o, s, b in c if o == off * 8 and not b]
        return min(ex)[1] if ex else "+%d" % off

    def paths(self, v, depth=0):
        """Set of strings naming what value v may be."""
        if v in self._p:
            return self._p[v]
        if depth > 40:
            return frozenset(["?"])
        if v in self._stk:
            return frozenset()
        k, r = v.kind, None
        if k == "int":
            r = {"#%d" % v.c}
        elif k in ("null", "zero"):
            r = {"null"}
        elif k in ("undef", "poison"):
            r = {"undef"}
        elif k == "global":
            r = {'"%s"' % v.s} if v.s is not None else {"@" + gname(v.name)}
        elif k == "func":
            r = {"&" + v.name}
        elif k == "arg":
            r = {"arg%d" % v.idx}
        elif k == "inst" or k == "cexpr":
            self._stk.add(v)
            try:
                r = self._ipaths(v, depth)
            finally:
                self._stk.discard(v)
        else:
            r = {"?"}
        r = frozenset(r)
        if len(r) > 12:
            r = frozenset(["?"])
        if not self._stk or k != "inst":
            self._p[v] = r
        return r

    def _ipaths(self, v, depth):
        o = v.opc
        if o in CASTS:
            return self.paths(v.ops[0], depth + 1)
        if o == "load":
            return self.apath(v.ops[0], self.m.sizeof(v.ty), depth + 1)
        if o == "gep":
            base, steps = self.gepsteps(v)
            if all(s[0] == "[]" for s in steps):
                bs = self.paths(base, depth + 1)
                if all(s[1].kind == "int" for s in steps):
                    k = sum(s[1].c * s[2] for s in steps)
                    return {"%s+%d" % (b, k) if k else b for b in bs}
                return {"&%s[]" % b for b in bs}
            return {"&" + p for p in self.apath(v, 0, depth + 1)}
        if o == "phi":
            r = set()
            for x, _ in v.inc:
                # pointer walk: element of the base
                if x.kind == "inst" and x.opc == "gep" and self.gepsteps(x)[0] is v:
                    bs = set()
                    for y, _ in v.inc:
                        if y is not x:
                            bs |= self.paths(y, depth + 1)
                    r |= {b if b.endswith("[]") else "&%s[]" % b.lstrip("&") for b in bs}
                    continue
                r |= self.paths(x, depth + 1)
            return r or {"?"}
        if o == "select":
            return self.paths(v.ops[1], depth + 1) | self.paths(v.ops[2], depth + 1)
        if o == "call":
            n = v.cname
            if n is None:
                return {"call:*"}
            if n in PURE:
                a = ["|".join(sorted(self.paths(x, depth + 1))) for x in v.args]
                return {"%s(%s)" % (n, ",".join(a))}
            return {"call:" + n}
        if o == "alloca":
            return {"alloca%s" % v.name}
        if o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            a = "|".join(sorted(self.paths(v.ops[0], depth + 1)))
            b = "|".join(sorted(self.paths(v.ops[1], depth + 1)))
            if o in COMM and a > b:
                a, b = b, a
            s = "%s(%s,%s)" % (o, a, b)
            return {s if len(s) < 400 else "?"}
        if o == "icmp":
            a = "|".join(sorted(self.paths(v.ops[0], depth + 1)))
            b = "|".join(sorted(self.paths(v.ops[1], depth + 1)))
            s = "%s(%s,%s)" % (v.pred, a, b)
            return {s if len(s) < 400 else "?"}
        return {"?"}

    # ---- structural expression with SSA identity (for facts)
    def expr(self, v, depth=0):
        if v in self._e:
            return self._e[v]
        k = v.kind
        if k == "int":
            r = ("int", v.c)
        elif k in ("null", "zero"):
            r = ("int", 0)
        elif k == "global":
            r = ("glob", v.name)
        elif k == "func":
            r = ("fn", v.name)
        elif k == "arg":
            r = ("arg", v.idx)
        elif k in ("inst", "cexpr") and depth < 60:
            o = v.opc
            if o in ("sext", "zext", "bitcast", "freeze", "ptrtoint", "inttoptr"):
                r = self.expr(v.ops[0], depth + 1)
            elif o == "load":
                r = ("ld", self.expr(v.ops[0], depth + 1))
            elif o == "gep":
                base, steps = self.gepsteps(v)
                t = []
                off = 0
                for s in steps:
                    if s[0] == "[]":
                        if s[1].kind == "int":
                            off += s[1].c * s[2]
                        else:
                            t.append((self.expr(s[1], depth + 1), s[2]))
                    else:
                        off += s[1]
                r = ("gep", self.expr(base, depth + 1), off, tuple(t))
                if off == 0 and not t:
                    r = r[1]
            elif o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
                a, b = self.expr(v.ops[0], depth + 1), self.expr(v.ops[1], depth + 1)
                if o in COMM and repr(a) > repr(b):
                    a, b = b, a
                r = (o, a, b)
            elif o == "icmp":
                a, b = self.expr(v.ops[0], depth + 1), self.expr(v.ops[1], depth + 1)
                r = ("icmp", v.pred, a, b)
            elif o == "call" and v.cname in PURE:
                r = ("call", v.cname) + tuple(self.expr(x, depth + 1) for x in v.args)
            else:
                r = ("v", id(v), o)
        else:
            r = ("v", id(v), k)
        self._e[v] = r
        return r


def gname(n):
    """strip linker suffixes of internal globals (foo.123 -> foo)."""
    return re.sub(r"(\.\d+)+$", "", n)
