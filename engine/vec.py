"""Per-message arrays of the search driver: arrays with one byte per message, handled element by element."""
import re
import sym, loopinfo
from build import AnalysisBroken


def base_of(p, ptr):
    return p.s.gepsteps(ptr)[0]


class Vec:
    """arrays: {malloc call}; loops: {header: body} of loops that visit every message once, with accesses [phi]"""

    def __init__(self, p, f):
        self.p, self.f = p, f
        self.arrays = [c for c in f.calls("malloc", "calloc") if any(p.s.paths(a) == {"read_db.n_msgs"} for a in c.args)]
        self.arrays = [a for a in self.arrays if any(i.opc in ("load", "store") and self.array_of(i) is a and self.width(i) == 1 for i in f.insts())]
        dom = p.dom(f)
        self.loops, self.info = {}, {}
        allloops = sym.loops(f)
        for h, body in allloops.items():
            acc = [i for b in body for i in b.insts if i.opc in ("load", "store") and self.array_of(i)]
            if not acc or any(h2 is not h and h2 in body for h2 in allloops):
                continue
            L = loopinfo.counted(p.s, h, body, dom)
            if L is None or L.phi is None:
                continue
            self.info[h] = L
            if all(self.index(i) is L.phi for i in acc if self.index(i) is not None):
                self.loops[h] = body
            elif any(self.index(i) is L.phi for i in acc):
                self.loops[h] = body

    def width(self, i):
        return self.p.m.sizeof(i.ops[0].ty if i.opc == "store" else i.ty)

    def array_of(self, i):
        b = base_of(self.p, i.ops[1] if i.opc == "store" else i.ops[0])
        b = self.root(b)
        return b if b in self.arrays else None

    def root(self, b, d=0):
        # through memset's return value and trivial phis
        while b.kind == "inst" and b.opc == "call" and b.cname in ("memset",):
            b = self.p.s.gepsteps(b.args[0])[0]
        return b

    def index(self, i):
        ptr = i.ops[1] if i.opc == "store" else i.ops[0]
        b, st = self.p.s.gepsteps(ptr)
        ix = [s[1] for s in st if s[0] == "[]"]
        if len(ix) != 1:
            return None
        v = ix[0]
        while v.kind == "inst" and v.opc in sym.CASTS:
            v = v.ops[0]
        return v

    def elementwise(self, i):
        """access to [phi] of its (full) loop"""
        for h, body in self.loops.items():
            if i.bb in body:
                return self.index(i) is self.info[h].phi
        return False

    def cell(self, i):
        a = self.array_of(i)
        if a is None or not self.elementwise(i):
            return None
        return a

    def effect(self, i, st, get=None):
        if i.opc == "call" and (i.cname in ("memset", "bzero") or i.cname.startswith("llvm.memset")):
            b = self.root(base_of(self.p, i.args[0]))
            if b in self.arrays:
                c = 0 if i.cname == "bzero" else i.args[1]
                if isinstance(c, int) or c.kind == "int":
                    st[b] = frozenset([c if isinstance(c, int) else c.c])
                else:
                    y = get(c) if get else None
                    st[b] = y if y is None else frozenset((z & 255) for z in y)
    effect.valued = True
