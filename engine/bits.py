"""Bit provenance: each bit of a value is 0, 1, (source, k) or None (unknown)."""


def width(ty):
    return int(ty[1:]) if ty and ty[0] == "i" and ty[1:].isdigit() else 64


class Bits:
    def __init__(self, env):
        self.env = env      # Val -> list of bits (LSB first)
        self.phi = {}       # phi Val -> chosen incoming Val (on the current path)

    def get(self, v, d=0):
        w = width(v.ty)
        if v in self.env:
            b = list(self.env[v])
            return (b + [0] * w)[:w]
        if v.kind == "int":
            return [(v.c >> k) & 1 for k in range(w)]
        if v.kind in ("null", "zero"):
            return [0] * w
        if v.kind != "inst" or d > 60:
            return [None] * w
        o = v.opc
        g = lambda k: self.get(v.ops[k], d + 1)
        if o == "phi" and v in self.phi:
            return (self.get(self.phi[v], d + 1) + [0] * w)[:w]
        if o == "zext":
            return (g(0) + [0] * w)[:w]
        if o == "sext":
            b = g(0)
            return (b + [b[-1]] * w)[:w]
        if o in ("trunc", "freeze", "bitcast", "ptrtoint", "inttoptr"):
            return (g(0) + [None] * w)[:w]
        if o in ("shl", "lshr", "ashr") and v.ops[1].kind == "int":
            b, k = g(0), v.ops[1].c
            if o == "shl":
                return ([0] * k + b)[:w]
            return (b[k:] + [0 if o == "lshr" else b[-1]] * k)[:w]
        if o in ("and", "or", "xor"):
            a, b = g(0), g(1)
            return [self._b(o, x, y) for x, y in zip(a, b)]
        if o == "add":
            a, b = g(0), g(1)
            if all(x == 0 or y == 0 for x, y in zip(a, b)):
                return [x if y == 0 else y for x, y in zip(a, b)]
            if all(x in (0, 1) for x in a) and all(y in (0, 1) for y in b):
                n = sum(x << k for k, x in enumerate(a)) + sum(y << k for k, y in enumerate(b))
                return [(n >> k) & 1 for k in range(w)]
            return [None] * w
        if o == "mul":
            for x, y in ((0, 1), (1, 0)):
                if v.ops[y].kind == "int" and v.ops[y].c > 0 and v.ops[y].c & (v.ops[y].c - 1) == 0:
                    k = v.ops[y].c.bit_length() - 1
                    return ([0] * k + g(x))[:w]
        if o == "urem" and v.ops[1].kind == "int" and v.ops[1].c & (v.ops[1].c - 1) == 0:
            k = v.ops[1].c.bit_length() - 1
            return g(0)[:k] + [0] * (w - k)
        if o in ("udiv", "sdiv") and v.ops[1].kind == "int" and v.ops[1].c > 0 and v.ops[1].c & (v.ops[1].c - 1) == 0:
            b = g(0)
            if o == "udiv" or b[-1] == 0:
                k = v.ops[1].c.bit_length() - 1
                return b[k:] + [0] * k
        if o == "icmp":
            t = self.truth(v, d + 1)
            return [t]
        return [None] * w

    @staticmethod
    def _b(o, x, y):
        if o == "and":
            if x == 0 or y == 0:
                return 0
            if x == 1:
                return y
            if y == 1:
                return x
            return x if x == y else None
        if o == "or":
            if x == 1 or y == 1:
                return 1
            if x == 0:
                return y
            if y == 0:
                return x
            return x if x == y else None
        if x in (0, 1) and y in (0, 1):
            return x ^ y
        if y == 0:
            return x
        if x == 0:
            return y
        return None

    def rng(self, b, signed):
        """(lo, hi) of a bit list"""
        w = len(b)
        lo = sum((1 << k) for k, x in enumerate(b) if x == 1)
        hi = sum((1 << k) for k, x in enumerate(b) if x != 0)
        if signed:
            s = b[-1]
            if s == 1:
                return lo - (1 << w), hi - (1 << w)
            if s == 0:
                return lo, hi
            return (sum((1 << k) for k, x in enumerate(b[:-1]) if x == 1) - (1 << (w - 1)), sum((1 << k) for k, x in enumerate(b[:-1]) if x != 0))
        return lo, hi

    def truth(self, c, d=0):
        """1, 0 or None for an i1 value"""
        if c.kind == "int":
            return c.c & 1
        if c.kind != "inst":
            return None
        if c.opc == "icmp":
            a, b = self.get(c.ops[0], d + 1), self.get(c.ops[1], d + 1)
            p = c.pred
            if p in ("eq", "ne"):
                if any(x in (0, 1) and y in (0, 1) and x != y for x, y in zip(a, b)):
                    return int(p == "ne")
                if all(x is not None and x == y for x, y in zip(a, b)):
                    return int(p == "eq")
                return None
            (l1, h1), (l2, h2) = self.rng(a, p[0] == "s"), self.rng(b, p[0] == "s")
            t = {"lt": (h1 < l2, l1 >= h2), "le": (h1 <= l2, l1 > h2), "gt": (l1 > h2, h1 <= l2), "ge": (l1 >= h2, h1 < l2)}[p[1:]]
            return 1 if t[0] else 0 if t[1] else None
        b = self.get(c, d + 1)
        return b[0] if b and b[0] in (0, 1) else None


def paths(f, limit=4000):
    """all acyclic block paths from entry to a ret (lists of blocks); None if there are loops or too many"""
    out = []
    st = [(f.blocks[0], (f.blocks[0],))]
    while st:
        b, p = st.pop()
        if not b.succs:
            out.append(p)
            if len(out) > limit:
                return None
            continue
        for s in dict.fromkeys(b.succs):
            if s in p:
                return None
            st.append((s, p + (s,)))
    return out
