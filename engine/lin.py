"""Linear forms: a value as constant + sum(coefficient * atom); addresses in bytes."""
import sym


class Lin(dict):
    """{atom: coef}; the constant under key 1"""

    def add(self, o, k=1):
        r = Lin(self)
        for a, c in o.items():
            r[a] = r.get(a, 0) + c * k
            if r[a] == 0:
                del r[a]
        return r

    def scale(self, k):
        return Lin({a: c * k for a, c in self.items()}) if k else Lin()

    @property
    def const(self):
        return self.get(1, 0)

    def atoms(self):
        return [a for a in self if a != 1]

    def key(self):
        return frozenset(self.items())


class Lins:
    """atoms are ('ld', expr) location loads keyed structurally, or the Val itself"""

    def __init__(self, p, subst=None):
        self.p, self.s, self.c = p, p.s, {}
        self.subst = subst or {}
        self.rep = {}

    def __call__(self, v, depth=0):
        if v in self.c:
            return self.c[v]
        r = self._lin(v, depth)
        self.c[v] = r
        return r

    def _lin(self, v, d):
        if v in self.subst:
            return self.subst[v]
        if v.kind == "int":
            return Lin({1: v.c}) if v.c else Lin()
        if v.kind in ("null", "zero"):
            return Lin()
        if v.kind in ("inst", "cexpr") and d < 80:
            o = v.opc
            if o in sym.CASTS:
                return self(v.ops[0], d + 1)
            if o == "add":
                return self(v.ops[0], d + 1).add(self(v.ops[1], d + 1))
            if o == "sub":
                return self(v.ops[0], d + 1).add(self(v.ops[1], d + 1), -1)
            if o == "mul":
                for a, b in ((0, 1), (1, 0)):
                    if v.ops[b].kind == "int":
                        return self(v.ops[a], d + 1).scale(v.ops[b].c)
                la, lb = self(v.ops[0], d + 1), self(v.ops[1], d + 1)
                for a, b in ((la, lb), (lb, la)):
                    if not b.atoms():
                        return a.scale(b.const)
            if o == "shl" and v.ops[1].kind == "int":
                return self(v.ops[0], d + 1).scale(1 << v.ops[1].c)
            if o == "gep":
                base, steps = self.s.gepsteps(v)
                r = self(base, d + 1)
                for st in steps:
                    if st[0] == "[]":
                        r = r.add(self(st[1], d + 1).scale(st[2]))
                    elif st[1]:
                        r = r.add(Lin({1: st[1]}))
                return r
            if o == "load" or (o == "call" and v.cname in sym.PURE):
                k = ("x", self.s.expr(v))
                self.rep.setdefault(k, v)
                return Lin({k: 1})
        return Lin({("v", v): 1})

    def val(self, a):
        """a representative Val of an atom"""
        return a[1] if a[0] == "v" else self.rep[a]

    def name(self, a):
        """readable name of an atom"""
        return "|".join(sorted(self.s.paths(self.val(a))))

    def show(self, l):
        return " + ".join((("%d*" % c if c != 1 else "") + self.name(a)) if a != 1 else str(c) for a, c in l.items()) or "0"
