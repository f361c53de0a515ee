"""Decoding loops read as transducers: bytes in, bytes out, both compared with the documented
encoding (scanx.Walk started at the head of a loop).

Values: small numbers, positions in the text ("t", "p", k) relative to the last byte read, places
to write ("o", k) relative to the next one, and vectors of named bits ("B", (bit, ...)), lowest first."""
import sym
import scanx
from scanx import Walk, Unknown, norm, uns, bits
from util import strip

W = 32
MIX = (-1, 0)      # depends on two bits, so it is neither


def vec(x):
    if isinstance(x, int):
        return tuple((x >> k) & 1 for k in range(W))
    if isinstance(x, tuple) and x[0] == "B":
        return x[1]
    return None


def named(n, k):
    return ("B", tuple((n, b) for b in range(k)) + (0,) * (W - k))


class Dec(Walk):
    def __init__(self, p, f, head, body, byteclasses, cb, tables, limit=20000):
        super().__init__(p, f, None, None, None, byteclasses, cb, None, tables, limit)
        self.head, self.body = head, body
        self.seeds = {}

    def derived(self, v):
        seen, todo = set(), [v]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for b in self.body:
                for i in b.insts:
                    if i.opc in ("gep", "phi", "add", "sext", "zext", "select") and (x in i.ops or any(y is x for y, _ in i.inc)):
                        todo.append(i)
        return seen

    def run(self):
        rd, wr = [], []
        phis = [i for i in self.head.insts if i.opc == "phi"]
        d = {i: self.derived(i) for i in phis}
        for b in self.body:
            for i in b.insts:
                if i.opc == "load" and i.ty == "i8":
                    rd.append(i.ops[0])
                elif i.opc == "store" and i.ops[0].ty == "i8":
                    wr.append(i.ops[1])
        cur = [i for i in phis if any(a in d[i] for a in rd) and not self.tableindex(d[i], rd)]
        out = [i for i in phis if any(a in d[i] for a in wr)]
        if len(cur) != 1 or len(out) != 1 or cur[0] is out[0]:
            raise Unknown("%s: where the loop reads and writes was not told" % self.head.insts[0].where)
        init = []
        for q in self.head.preds:
            if q in self.body:
                continue
            self.seeds[q] = {cur[0]: ("t", "p", 1), out[0]: ("o", 0)}
            init.append((self.head, q, (), None, (), self.cb.init, None))
        seen, st = set(init), list(init)
        while st:
            s = st.pop()
            self.states += 1
            if self.states > self.limit:
                raise Unknown("more than %d abstract states" % self.limit)
            for n in self.block(s):
                self.trans += 1
                if n[0] not in self.body:
                    self.cb.on_exit(self, s[0].insts[-1], n[5])
                elif n not in seen:
                    seen.add(n)
                    st.append(n)

    def tableindex(self, d, rd):
        return all(strip(self.p.s.gepsteps(a)[0]).kind == "global" for a in rd if a in d)

    def val(self, v, env):
        if v.kind == "int":
            return norm(v.c, v.ty)
        if v.kind in ("null", "zero"):
            return 0
        return env.get(v) if v.kind == "inst" else None

    def block(self, s):
        b, prev, envt, L, win, spec, look = s
        if prev in self.seeds and b is self.head:
            # entry: positions given to the two phis of the text
            env = dict(envt)
            for i in b.insts:
                if i.opc == "phi":
                    env[i] = self.seeds[prev][i] if i in self.seeds[prev] else next(self.val(v, env) for v, q in i.inc if q is prev)
            s = (b, "entry", tuple(env.items()), L, win, spec, look)
        return super().block(s)

    def arith(self, o, a, c, ty):
        if isinstance(a, int) and isinstance(c, int):
            return super().arith(o, a, c, ty)
        for x, y in ((a, c), (c, a)):
            if isinstance(x, tuple) and x[0] in ("t", "o") and isinstance(y, int) and (o == "add" or o == "sub" and x is a):
                return x[:-1] + (x[-1] + (y if o == "add" else -y),)
        if o in ("shl", "lshr", "ashr"):
            v = vec(a)
            if v is None or not isinstance(c, int) or not 0 <= c < W:
                return None
            if o == "shl":
                return ("B", ((0,) * c + v)[:W])
            return ("B", v[c:] + ((0,) if o == "lshr" else (v[-1],)) * c)
        va, vc = vec(a), vec(c)
        if o == "mul" and vc and isinstance(c, int) and c > 0 and c & (c - 1) == 0:
            return self.arith("shl", a, c.bit_length() - 1, ty)
        if va and vc and o in ("add", "or", "xor"):
            out, carry = [], False
            for x, y in zip(va, vc):
                if x is None or y is None:
                    out.append(None)
                elif carry:
                    out.append(MIX)
                elif x == 0 or y == 0:
                    out.append(y if x == 0 else x)
                elif o == "or" and (x == 1 or y == 1 or x == y):
                    out.append(x if x == y else 1)
                elif o == "xor" and x == y:
                    out.append(0)
                else:
                    out.append(MIX)
                    carry = o == "add"
            if o == "add" and None in out:
                k = out.index(None)
                out = out[:k] + [None] * (W - k)
            return ("B", tuple(out))
        if va and vc and o == "and":
            return ("B", tuple(0 if type(x) is int and x == 0 or type(y) is int and y == 0 else y if x == 1 and type(x) is int else x if y == 1 and type(y) is int else None for x, y in zip(va, vc)))
        return None

    def compare(self, pred, a, c, ty, L):
        if isinstance(a, int) and isinstance(c, int):
            return super().compare(pred, a, c, ty, L)
        if isinstance(a, tuple) and a[0] == "B" and isinstance(c, int) and a[1][-1] == 0:
            q = pred if pred in ("eq", "ne") else pred[1:]
            if c < 0 and pred[0] != "u":
                return [(int(q in ("ne", "gt", "ge")), L, False)]
            if c == 0 and q in ("ge", "lt"):
                return [(int(q == "ge"), L, False)]
            top = max([k for k, x in enumerate(a[1]) if x != 0 or type(x) is not int] or [-1])
            if c >= 1 << (top + 1):
                return [(int(q in ("ne", "lt", "le")), L, False)]
        if isinstance(a, tuple) and isinstance(c, int) and c == 0 and a[0] in ("t", "o") and pred in ("eq", "ne"):
            return [(int(pred == "ne"), L, False)]
        return [(0, L, False), (1, L, False)]

    def address(self, i, env):
        if i.opc == "gep" and i.gty == "i8" and len(i.ops) == 2:
            x, k = self.val(i.ops[0], env), self.val(i.ops[1], env)
            if isinstance(x, tuple) and x[0] in ("t", "o") and isinstance(k, int):
                return x[:-1] + (x[-1] + k,)
        base, steps = self.p.s.gepsteps(i)
        base = strip(base)
        x = ("g", base.name) if base.kind == "global" else self.val(base, env)
        idx, off = None, 0
        for st in steps:
            if st[0] == "[]":
                v = self.val(st[1], env)
                if isinstance(v, int):
                    off += v * st[2]
                elif idx is None and v is not None and st[2] == 1:
                    idx = v
                elif idx is None and v is not None:
                    idx = ("scaled",)
                else:
                    return None
            else:
                off += st[1] or 0
        if isinstance(x, tuple) and x[0] == "g":
            return ("g", x[1], idx, off)
        if isinstance(x, tuple) and x[0] in ("t", "o") and idx is None:
            return x[:-1] + (x[-1] + off,)
        if x is None and isinstance(idx, tuple) and idx[0] in ("t", "o") and not (base.kind == "inst" and base.bb in self.body):
            return idx[:-1] + (idx[-1] + off,)
        return None

    def load(self, i, env, L, win, spec, look):
        g = i.ops[0]
        a = self.val(g, env) if g.kind == "inst" else self.address(g, env) if g.kind == "cexpr" else None

        def one(v):
            e = dict(env)
            e[i] = v
            return (e, L, win, spec, look)
        if isinstance(a, tuple) and a[0] == "g":
            t = self.tables.get(a[1])
            w = self.p.m.sizeof(i.ty)
            if t is None or a[2] is not None or a[3] % w:
                return [one(None)]
            n = a[3] // w
            if not 0 <= n < len(t):
                self.cb.bad(i, "a byte is looked up outside %s" % a[1])
                return [one(None)]
            return [one(self.cb.lookup(self, i, a[1], n, t[n], spec))]
        if isinstance(a, tuple) and a[0] == "t" and i.ty == "i8":
            if a[2] == 0 and 0 in win:
                return [one(win[0])]
            if a[2] == 1:
                if not self.cb.on_read(self, i, spec):
                    return None
                out = []
                for c in self.cb.reads(self.by, spec):
                    n, v = self.cb.step(spec, c)
                    if n is None:
                        continue
                    e = {}
                    for x, y in env.items():
                        if isinstance(y, tuple) and y[0] == "t":
                            y = ("t", "p", y[2] - 1) if y[2] > -6 else None
                        elif isinstance(y, tuple) and y[0] == "B":
                            y = ("B", tuple(None if isinstance(z, tuple) and self.cb.stale(n, z) else z for z in y[1]))
                        e[x] = y
                    e[i] = v
                    out.append((e, L, {0: v}, n, look))
                return out or None
            if a[2] > 1:
                self.cb.bad(i, "bytes of the text are passed over unread")
                return None
        if i.ty == "i8":
            raise Unknown("%s: text read at a position that is not followed" % i.where)
        return [one(None)]

    def stored(self, i, env, win, spec):
        a = self.val(i.ops[1], env) if i.ops[1].kind == "inst" else None
        if isinstance(a, tuple) and a[0] == "o" and i.ops[0].ty == "i8":
            if a[1] != 0:
                self.cb.bad(i, "decoded bytes are left out or written over")
            spec = self.cb.on_store(self, i, self.val(i.ops[0], env), spec)
            env = {x: (("o", y[1] - 1) if y[1] > -6 else None) if isinstance(y, tuple) and y[0] == "o" else y for x, y in env.items()}
        elif i.ops[0].ty == "i8":
            raise Unknown("%s: written to a place that is not followed" % i.where)
        return env, win, spec

    def call(self, i, env, L, win, spec, look):
        r = self.cb.on_call(self, i, [self.val(x, env) for x in i.args], spec)
        out = []
        for v, sp, w in r:
            e = dict(env)
            if w is not None:
                e = {x: (None if isinstance(y, tuple) and y[0] == "t" else y) for x, y in e.items()}
            e[i] = v
            out.append((e, L, win if w is None else w, sp, look))
        return out
