"""Command-line options of main(): which loop variables, globals each option sets."""
from prog import phi_edge_atoms
import sym


class Cli:
    def __init__(self, p, fname="main"):
        self.p, self.f = p, p.fn(fname)
        self.opts = {}      # option -> {'phi': {hdr phi: set(Val)}, 'store': {global path: set(paths)}, 'exits': bool}
        f = self.f
        loops = sym.loops(f)
        tests = []
        for b in f.blocks:
            for s in b.succs:
                for a in phi_edge_atoms(b, s):
                    if a[0] == "eq" and a[1].kind == "inst" and a[1].opc == "call" and a[1].cname in ("strcmp", "strcasecmp"):
                        for x in a[1].args:
                            if x.kind == "global" and x.s is not None and x.s.startswith("-"):
                                tests.append((x.s, b, s))
        self.hdr = None
        for h, body in loops.items():
            if sum(1 for _, b, _ in tests if b in body) >= 5:
                if self.hdr is None or len(body) < len(loops[self.hdr]):
                    self.hdr = h
        if self.hdr is None:
            return
        self.body = loops[self.hdr]
        for o, b, s in tests:
            e = self.opts.setdefault(o, {"phi": {}, "store": {}, "blocks": set()})
            self._walk(e, b, s)

    def _walk(self, e, b0, s0):
        """follow every path from the option's branch to the loop header, resolving phis"""
        st = [(b0, s0, {})]
        seen = set()
        while st:
            pb, b, env = st.pop()
            env = dict(env)
            new = {}
            for i in b.insts:
                if i.opc != "phi":
                    break
                for v, q in i.inc:
                    if q is pb:
                        new[i] = env.get(v, v)
            env.update(new)
            if b is self.hdr:
                for i, v in new.items():
                    if v is not i:
                        e["phi"].setdefault(i, set()).add(v)
                continue
            k = (pb, b, frozenset(env.items()))
            if k in seen:
                continue
            seen.add(k)
            e["blocks"].add(b)
            for i in b.insts:
                if i.opc == "store":
                    for q in self.p.s.apath(i.ops[1], self.p.m.sizeof(i.ops[0].ty)):
                        if q.startswith("@"):
                            e["store"].setdefault(q, set()).update(self.p.s.paths(i.ops[0]))
            # do not run into other option tests
            if any(a[1].kind == "inst" and a[1].opc == "call" and a[1].cname == "strcmp" for s in b.succs for a in phi_edge_atoms(b, s)
                   if a[0] in ("eq", "ne")) and b is not s0:
                continue
            for s in b.succs:
                if b in self.body and s in self.body:
                    st.append((b, s, env))

    def vars_of(self, v):
        """header phis a value may derive from (through phis)"""
        out, seen, st = set(), set(), [v]
        while st:
            x = st.pop()
            if x in seen or x.kind != "inst":
                continue
            seen.add(x)
            if x.opc == "phi":
                if x.bb is self.hdr:
                    out.add(x)
                    continue
                st.extend(y for y, _ in x.inc)
            elif x.opc in ("zext", "sext", "trunc", "freeze"):
                st.append(x.ops[0])
            elif x.opc == "select":
                st.extend(x.ops[1:])
        return out

    def sets(self, opt, v, const):
        """does option `opt` set the variable feeding v to the constant?"""
        e = self.opts.get(opt)
        if e is None:
            return False
        for h in self.vars_of(v):
            for x in e["phi"].get(h, ()):
                if x.kind == "int" and x.c == const:
                    return True
        return False
