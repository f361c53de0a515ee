"""The automaton a text-scanning function implements.

A function (position, text, length) -> position is read as an automaton over the bytes of
the text: an abstract interpretation whose values are small numbers, positions relative to
the last byte read, positions relative to the last byte of a look-ahead, the length, and the
class of a byte.  Bytes are classes that neither the function, its tables nor the
specification tell apart; every branch on an unknown value is followed both ways.  The
abstract states are finite, so the walk covers every text of every length.
"""
from util import init_bytes, strip
from dfa import ints
import re
import dfa
import sym


def table(p, name):
    """contents of a table: its initialiser with every constant store to it; None if some store is not understood"""
    g = p.m.globals.get(name)
    part = re.findall(r"\[(\d+) x (i\d+)\]", g.ty) if g is not None else []
    if not part or len({el for _, el in part}) > 1 or g.ty[0] not in "[<":
        v = ints(p, name)
        return v
    n, el = sum(int(k) for k, _ in part), part[0][1]
    w = p.m.sizeof(el)
    b = init_bytes(g._x["init"], p.m)
    if b is None or el[0] != "i":
        return None
    b = bytearray(b)
    stores = []
    for f in p.defined():
        dom = None
        for i in f.insts():
            if i.opc == "store" or i.opc == "call" and (i.cname or "").startswith(("memset", "llvm.memset")):
                ptr = i.ops[1] if i.opc == "store" else i.args[0]
                base, steps = p.s.gepsteps(ptr)
                base = strip(base)
                if base is not g:
                    continue
                off = 0
                for st in steps:
                    if st[0] == "[]":
                        x = lowconst(st[1])
                        if x is None:
                            return None
                        off += x * st[2]
                    else:
                        off += st[1] or 0
                stores.append((f, i, off))
    for f, i, off in sorted(stores, key=lambda x: x[1].opc == "store"):
        if i.opc == "store":
            if i.ops[0].kind != "int" or not 0 <= off <= n * w - w:
                return None
            b[off:off + w] = (i.ops[0].c & ((1 << 8 * w) - 1)).to_bytes(w, "little")
        else:
            c, l = i.args[1], i.args[2]
            if c.kind != "int" or l.kind != "int" or off + l.c > n * w or off < 0:
                return None
            b[off:off + l.c] = bytes([c.c & 255]) * l.c
    s = el == "i8" or True
    return [int.from_bytes(b[k:k + w], "little", signed=s) for k in range(0, n * w, w)]


def lowconst(v):
    while v.kind == "inst" and v.opc in ("sext", "zext", "trunc"):
        v = v.ops[0]
    return v.c if v.kind == "int" else None


def bits(ty):
    try:
        return int(ty[1:]) if ty[0] == "i" else 64
    except ValueError:
        return 64


def norm(x, ty):
    w = bits(ty)
    x &= (1 << w) - 1
    return x - (1 << w) if w > 1 and x >> (w - 1) else x


def uns(x, ty):
    return x & ((1 << bits(ty)) - 1)


S_OK = ("S",)


class Unknown(Exception):
    pass


class Walk:
    """cb: object with step(spec, byte), and the methods on_* below"""
    START = ("p", 1)

    def __init__(self, p, f, text, length, start, byteclasses, cb, oracle=None, tables=None, limit=60000):
        self.p, self.f, self.cb = p, f, cb
        self.text, self.length, self.start = text, length, start
        self.by = byteclasses
        self.oracle = oracle or {}      # prefix: scanner consulted by look-ahead
        self.tables = tables or {}
        self.limit = limit
        self.states = self.trans = 0
        self.live = self._live()
        self.look = self._lookloads()

    def _live(self):
        f = self.f
        use, df = {}, {}
        for b in f.blocks:
            u, d = set(), set()
            for i in b.insts:
                if i.opc != "phi":
                    for o in i.ops:
                        if o.kind == "inst" and o not in d:
                            u.add(o)
                d.add(i)
            use[b], df[b] = u, d
        live = {b: set() for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in reversed(f.blocks):
                out = set()
                for s in b.succs:
                    out |= live[s] - {i for i in s.insts if i.opc == "phi"}
                    for i in s.insts:
                        if i.opc == "phi":
                            out |= {v for v, q in i.inc if q is b and v.kind == "inst"}
                n = use[b] | (out - df[b])
                # results of phis are defined on entry
                n |= {i for i in b.insts if i.opc == "phi" and (i in out or any(i in x.ops for x in b.insts))}
                if n != live[b]:
                    live[b] = n
                    ch = True
        return live

    def _lookloads(self):
        out = set()
        if not self.oracle:
            return out
        for i in self.f.insts():
            if i.opc != "load":
                continue
            base, steps = self.p.s.gepsteps(i.ops[0])
            if strip(base).kind == "global" and strip(base).name == self.oracle["prefix"] + "_char2tok":
                for st in steps:
                    if st[0] == "[]":
                        w, seen = [st[1]], set()
                        while w:
                            v = w.pop()
                            if v in seen or v.kind != "inst":
                                continue
                            seen.add(v)
                            if v.opc in sym.CASTS:
                                w.append(v.ops[0])
                            elif v.opc == "phi":
                                w += [x for x, _ in v.inc]
                            elif v.opc == "load":
                                out.add(v)
        return out

    # state: (block, prev, env, L, win, spec, look) ; look: None | 'on' | 'no' | 'pass'
    def run(self):
        f = self.f
        init = (f.blocks[0], None, (), None, (), self.cb.init, None)
        seen, st = {init}, [init]
        while st:
            s = st.pop()
            self.states += 1
            if self.states > self.limit:
                raise Unknown("more than %d abstract states" % self.limit)
            for n in self.block(s):
                self.trans += 1
                if n not in seen:
                    seen.add(n)
                    st.append(n)

    def val(self, v, env):
        k = v.kind
        if k == "int":
            return norm(v.c, v.ty)
        if k in ("null", "zero"):
            return 0
        if v is self.start:
            return env.get("start")
        if v is self.length:
            return ("len", 0)
        if v is self.text:
            return ("t", None, 0)
        if k == "inst":
            return env.get(v)
        return None

    @staticmethod
    def shift(x, by):
        """positions after the cursor moved by one"""
        if isinstance(x, tuple):
            if x[0] == "p":
                return ("p", x[1] - by) if x[1] - by > -16 else None
            if x[0] == "t" and x[1] == "p":
                return ("t", "p", x[2] - by) if x[2] - by > -16 else None
        return x

    def block(self, s):
        b, prev, envt, L, win, spec, look = s
        env = dict(envt)
        if prev is None:
            env["start"] = self.START
        elif any(i.opc == "phi" for i in b.insts):
            new = {}
            for i in b.insts:
                if i.opc == "phi":
                    for v, q in i.inc:
                        if q is prev:
                            new[i] = self.val(v, env)
            env.update(new)
        work = [(0, env, L, dict(win), spec, look)]
        out = []
        while work:
            k, env, L, win, spec, look = work.pop()
            while k < len(b.insts):
                i = b.insts[k]
                k += 1
                o = i.opc
                if o == "phi":
                    continue
                r = None
                if o in sym.CASTS:
                    x = self.val(i.ops[0], env)
                    if isinstance(x, int):
                        r = norm(x, i.ty) if o != "zext" else uns(x, i.ops[0].ty)
                        if o == "sext" and i.ops[0].ty == "i1":
                            r = -(x & 1)
                    elif isinstance(x, tuple) and x[0] == "C":
                        if o == "zext" and x[1] == "8":
                            r = ("C", "z")
                        elif o == "sext" and x[1] == "8":
                            r = ("C", "s")
                        elif o == "trunc" and i.ty == "i8":
                            r = ("C", "8")
                        elif o == "zext" and x[1] == "s":
                            r = None
                        else:
                            r = x
                    else:
                        r = x
                elif o in ("add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "urem", "sdiv", "srem"):
                    r = self.arith(o, self.val(i.ops[0], env), self.val(i.ops[1], env), i.ty)
                elif o == "icmp":
                    outs = self.compare(i.pred, self.val(i.ops[0], env), self.val(i.ops[1], env), i.ops[0].ty, L)
                    for v, L2, end in outs[1:]:
                        e2 = dict(env)
                        e2[i] = v
                        work.append((k, e2, L2, dict(win), spec, "no" if end and look in ("on0", "on") else look))
                    v, L, end = outs[0]
                    if end and look in ("on0", "on"):
                        look = "no"
                    r = v
                elif o == "select":
                    c = self.val(i.ops[0], env)
                    if isinstance(c, int):
                        r = self.val(i.ops[1 if c & 1 else 2], env)
                    else:
                        e2 = dict(env)
                        e2[i] = self.val(i.ops[2], env)
                        work.append((k, e2, L, dict(win), spec, look))
                        r = self.val(i.ops[1], env)
                elif o == "gep":
                    r = self.address(i, env)
                elif o == "load":
                    res = self.load(i, env, L, win, spec, look)
                    if res is None:
                        break
                    for t in res[1:]:
                        work.append((k,) + t)
                    env, L, win, spec, look = res[0]
                    continue
                elif o == "call":
                    res = self.call(i, env, L, win, spec, look)
                    for t in res[1:]:
                        work.append((k,) + t)
                    env, L, win, spec, look = res[0]
                    continue
                elif o == "store":
                    env, win, spec = self.stored(i, env, win, spec)
                elif o == "ret":
                    self.cb.on_return(self, i, self.val(i.ops[0], env) if i.ops else None, L, win, spec, look)
                    break
                elif o in ("br", "switch"):
                    for n in self.succs(b, i, env):
                        keep = self.live[n]
                        need = keep | {v for j in n.insts if j.opc == "phi" for v, q in j.inc if q is b}
                        e = tuple(sorted(((v, x) for v, x in env.items() if (v == "start" and self.startlive(n)) or v in need), key=lambda t: id(t[0])))
                        out.append((n, b, e, L, tuple(sorted(win.items())), spec, look))
                    break
                elif o == "unreachable":
                    break
                env[i] = r
        return out

    def startlive(self, b):
        c = getattr(self, "_sl", None)
        if c is None:
            c = self._sl = set()
            for x in self.f.blocks:
                if any(self.start in i.ops or any(v is self.start for v, _ in i.inc) for i in x.insts):
                    c.add(x)
            ch = True
            while ch:
                n = {x for x in self.f.blocks if any(y in c for y in x.succs)} | c
                ch = n != c
                c |= n
        return b in c

    def succs(self, b, i, env):
        succ = list(i.succ or b.succs)
        if i.opc == "switch":
            x = self.val(i.ops[0], env)
            if isinstance(x, int):
                return [next((t for c, t in i.cases if norm(c, i.ops[0].ty) == x), succ[0])]
            return succ
        if len(succ) == 2:
            c = self.val(i.ops[0], env)
            if isinstance(c, int):
                return [succ[0] if c & 1 else succ[1]]
        return succ

    def arith(self, o, a, c, ty):
        if isinstance(a, int) and isinstance(c, int):
            if o == "add":
                return norm(a + c, ty)
            if o == "sub":
                return norm(a - c, ty)
            if o == "mul":
                return norm(a * c, ty)
            if o in ("shl", "lshr", "ashr") and not 0 <= c < bits(ty):
                return None
            if o == "shl":
                return norm(a << c, ty)
            if o == "lshr":
                return norm(uns(a, ty) >> c, ty)
            if o == "ashr":
                return a >> c
            if o == "and":
                return a & c
            if o == "or":
                return a | c
            if o == "xor":
                return a ^ c
            return None
        if o == "add" and isinstance(c, tuple) and isinstance(a, int):
            a, c = c, a
        if isinstance(a, tuple) and a[0] in ("p", "q", "len") and isinstance(c, int) and o in ("add", "sub"):
            return (a[0], a[1] + (c if o == "add" else -c))
        if isinstance(a, tuple) and isinstance(c, tuple) and o == "sub" and a[0] == c[0] and a[0] in ("p", "q", "len"):
            return a[1] - c[1]
        if o == "and" and (a == 0 or c == 0):
            return 0
        return None

    def compare(self, pred, a, c, ty, L):
        """[(value, L, end of text seen)]"""
        if isinstance(a, int) and isinstance(c, int):
            if pred[0] == "u":
                a, c = uns(a, ty), uns(c, ty)
            return [(int({"eq": a == c, "ne": a != c, "lt": a < c, "gt": a > c, "le": a <= c, "ge": a >= c}[pred if pred in ("eq", "ne") else pred[1:]]), L, False)]
        if isinstance(c, tuple) and isinstance(a, tuple) and a[0] == "len" and c[0] in ("p", "q"):
            a, c = c, a
            pred = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(pred[1:], "") and pred[0] + {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[pred[1:]] if pred not in ("eq", "ne") else pred
        q = pred if pred in ("eq", "ne") else pred[1:]

        def res(sg):    # sign of a - c
            return int({"eq": sg == 0, "ne": sg != 0, "lt": sg < 0, "gt": sg > 0, "le": sg <= 0, "ge": sg >= 0}[q])
        if isinstance(a, tuple) and isinstance(c, tuple) and c[0] == "len" and a[0] == "p":
            d = a[1] - c[1]
            if L == "end":
                return [(res((d > 1) - (d < 1)), L, d >= 1)]
            if d <= 0 or (d == 1 and L == "more"):
                return [(res(-1), L, False)]
            if d == 1:
                return [(res(-1), "more", False), (res(0), "end", True)]
            return [(res(-1), "more", False), (res(0), L, True), (res(1), L, True)]
        if isinstance(a, tuple) and isinstance(c, tuple) and c[0] == "len" and a[0] == "q":
            return [(res(-1), L, False), (res(0), L, True), (res(1), L, True)]
        if isinstance(a, tuple) and isinstance(c, tuple) and a[0] == c[0] and a[0] in ("p", "q", "len"):
            d = a[1] - c[1]
            return [(res((d > 0) - (d < 0)), L, False)]
        if a == S_OK and isinstance(c, int) and c <= 0 and not (c == 0 and q in ("eq", "ne", "gt", "le")):
            return [(res(1), L, False)]
        if q in ("eq", "ne") and isinstance(a, tuple) and a[0] in ("p", "q") and isinstance(c, int) and c < 0:
            return [(res(1), L, False)]     # a position is not negative
        return [(0, L, False), (1, L, False)]

    def address(self, i, env):
        if i.opc == "gep" and i.gty == "i8" and len(i.ops) == 2:
            x, k = self.val(i.ops[0], env), self.val(i.ops[1], env)
            if isinstance(x, tuple) and x[0] == "t" and x[1] is not None and isinstance(k, int):
                return ("t", x[1], x[2] + k)
        base, steps = self.p.s.gepsteps(i)
        base = strip(base)
        x = ("g", base.name) if base.kind == "global" else self.val(base, env)
        idx = None
        off = 0
        for st in steps:
            if st[0] == "[]":
                v = self.val(st[1], env)
                if isinstance(v, int):
                    off += v * st[2]
                elif idx is None and v is not None:
                    idx = (v, st[2])
                else:
                    return None
            else:
                off += st[1] or 0
        if isinstance(x, tuple) and x[0] == "g":
            return ("g", x[1], idx, off)
        if isinstance(x, tuple) and x[0] == "t":
            if idx is None:
                return ("t", x[1], x[2] + off)
            if x[1] is None and idx[1] == 1 and isinstance(idx[0], tuple) and idx[0][0] in ("p", "q"):
                return ("t", idx[0][0], idx[0][1] + x[2] + off)
        return None

    def store(self, i, env, win):
        return win

    def stored(self, i, env, win, spec):
        return env, self.store(i, env, win), spec

    def load(self, i, env, L, win, spec, look):
        """list of (env, L, win, spec, look), or None to abandon the path"""
        g = i.ops[0]
        a = self.val(g, env) if g.kind == "inst" else self.address(g, env) if g.kind == "cexpr" else ("g", g.name, None, 0) if g.kind == "global" else self.val(g, env)

        def one(v, **kw):
            e = dict(env)
            e[i] = v
            return (e, kw.get("L", L), kw.get("win", win), kw.get("spec", spec), kw.get("look", look))
        if isinstance(a, tuple) and a[0] == "g":
            pre = self.oracle.get("prefix")
            if pre and a[1] == pre + "_char2tok":
                if a[2] is not None and a[2][0] == ("C", "s"):
                    self.cb.bad(i, "a byte above 127 is looked up before the start of the table of character classes")
                return [one(("T",) if a[2] is not None and a[2][0] == ("C", "z") else None)]
            if pre and a[1] == pre + "_attr":
                if a[2] is None or a[2][0] != S_OK:
                    return [one(None)]
                if look == "on":
                    return [one(self.oracle["pass"], look="pass"), one(self.oracle["other"])]
                return [one(None)]
            t = self.tables.get(a[1])
            if t is not None and a[2] is None:
                w = self.p.m.sizeof(i.ty)
                if a[3] % w == 0:
                    n = a[3] // w
                    if not 0 <= n < len(t):
                        self.cb.bad(i, "a byte is looked up outside %s" % a[1])
                        return [one(None)]
                    return [one(t[n])]
            g = self.p.m.globals.get(a[1])
            if g is not None and g.ty[0] in "[<{":
                raise Unknown("%s: contents of %s not followed" % (i.where, a[1]))
            return [one(None)]
        if isinstance(a, tuple) and a[0] == "t" and i.ty == "i8":
            if i in self.look:
                if look is None:
                    if a[1] != "p" or a[2] != 1:
                        self.cb.bad(i, "the rest of a line is examined from the wrong place")
                    if L != "more":
                        self.cb.bad(i, "text is read at the end of the mailbox, beyond its last byte")
                    self.cb.on_look(self, i, a, spec)
                    env = {v: (("q", x[1] - 1) if isinstance(x, tuple) and x[0] == "p" and x[1] >= 1 else x) for v, x in env.items()}
                    look = "on0"
                else:
                    if a[1] != "q" or a[2] != 1:
                        self.cb.bad(i, "bytes of the rest of a line are left out or examined twice")
                    if look == "pass":
                        self.cb.bad(i, "a line is examined on after it was recognised as a separator")
                        return None
                    env = {v: (("q", x[1] - 1) if isinstance(x, tuple) and x[0] == "q" else x) for v, x in env.items()}
                e = dict(env)
                e[i] = ("C", "8")
                return [(e, L, win, spec, look)]
            if a[1] == "p" and a[2] in win:
                return [one(win[a[2]])]
            if a[1] == "p" and a[2] == 1:
                if look == "pass":
                    self.cb.bad(i, "a separator line is found and passed over")
                    return None
                if look in ("on0", "on"):
                    self.cb.bad(i, "a line is given up as a separator before its form is decided")
                if not self.cb.on_read(self, i, L, spec, look):
                    return None
                out = []
                for c in self.by:
                    e = {v: self.shift(x, 1) for v, x in env.items()}
                    e[i] = c - 256 if c > 127 else c
                    w = {}
                    w[0] = e[i]
                    out.append((e, None, w, self.cb.step(spec, c), None))
                return out
            if a[1] == "p" and a[2] > 1:
                self.cb.bad(i, "bytes of the text are passed over unread")
                return None
        if i.ty == "i8" and look is None:
            raise Unknown("%s: text read at a position that is not followed" % i.where)
        return [one(None)]

    def call(self, i, env, L, win, spec, look):
        def one(v, **kw):
            e = dict(env)
            e[i] = v
            return (e, L, win, spec, kw.get("look", look))
        n = i.cname or ""
        if self.oracle and n == self.oracle["prefix"] + "_next_state":
            s, t = self.val(i.args[0], env), self.val(i.args[1], env)
            first = look == "on0"
            if t != ("T",):
                self.cb.bad(i, "the automaton is given something else than the class of the byte read")
            if s != S_OK and s != 0 or s == S_OK and first or s == 0 and not first:
                self.cb.bad(i, "the automaton does not go on from where it was" if not first else "the automaton does not begin in its first state")
            return [one(S_OK, look="on"), one(-1, look="no")]
        if n in ("strncmp", "memcmp", "bcmp", "__builtin_strncmp") and len(i.args) == 3:
            a = self.val(i.args[0], env)
            g = strip(i.args[1])
            if isinstance(a, tuple) and a[0] == "t" and a[1] == "p" and i.args[2].kind == "int" and g.kind == "global" and g.s is not None:
                return [one(0, look=("is", a[2], g.s[:i.args[2].c])), one(1, look=("not", a[2], g.s[:i.args[2].c]))]
        return [one(None)]



ORIG = 99


# bits of the C library's table of kinds of characters (little-endian glibc)
CTYPE = {256: str.isupper, 512: str.islower, 1024: str.isalpha, 2048: str.isdigit, 4096: lambda c: c in "0123456789abcdefABCDEF",
         8192: lambda c: c in " \t\n\v\f\r", 16384: lambda c: 32 <= ord(c) < 127, 32768: lambda c: 32 < ord(c) < 127,
         1: lambda c: c in " \t", 2: lambda c: ord(c) < 32 or ord(c) == 127, 4: lambda c: 32 < ord(c) < 127 and not c.isalnum(), 8: str.isalnum}


class Words(Walk):
    """A function that cuts a NUL-terminated text into pieces and hands each to one of `add`.
    cb.step(spec, byte) -> spec; a spec is (mode, distance from the start of the piece to the last
    byte read (FAR: too far to count), piece handed on, mode after the piece)"""
    FAR = 99
    START = ("t", "p", 1)

    def __init__(self, p, f, text, byteclasses, cb, add, args=None, high=False, tables=None, limit=60000):
        super().__init__(p, f, None, None, None, byteclasses, cb, None, tables, limit)
        self.textarg, self.add, self.args, self.high = text, add, args or {}, high

    def val(self, v, env):
        if v is self.textarg:
            return env.get("start")
        if v in self.args:
            return self.args[v]
        if v.kind == "int":
            return norm(v.c, v.ty)
        if v.kind in ("null", "zero"):
            return 0
        return env.get(v) if v.kind == "inst" else None

    def run(self):
        self.start = self.textarg
        super().run()

    def arith(self, o, a, c, ty):
        for x, y in ((a, c), (c, a)):
            if isinstance(x, tuple) and x[0] == "ctv":
                if o == "and" and y in CTYPE:
                    return y if self.kind(x[1], y) else 0
                raise Unknown("kind of character not followed")
        return super().arith(o, a, c, ty)

    def kind(self, c, k):
        c &= 255
        return self.high and k in (8, 1024, 16384, 32768) if c > 127 else CTYPE[k](chr(c))

    def compare(self, pred, a, c, ty, L):
        for x, y in ((a, c), (c, a)):
            if isinstance(x, tuple) and x[0] == "t" and y == 0 and pred in ("eq", "ne"):
                return [(int(pred == "ne"), L, False)]
        if isinstance(a, tuple) and isinstance(c, tuple) and a[0] == c[0] == "t" and a[1] == c[1]:
            return super().compare(pred, ("p", a[2]), ("p", c[2]), ty, L)
        return super().compare(pred, a, c, ty, L)

    def address(self, i, env):
        base, steps = self.p.s.gepsteps(i)
        if strip(base).kind == "inst" and self.val(strip(base), env) == ("ctt",):
            v = self.val(steps[0][1], env) if len(steps) == 1 and steps[0][0] == "[]" else 0 if not steps else None
            return ("ct", v) if isinstance(v, int) else None
        return super().address(i, env)

    def store(self, i, env, win):
        a = self.val(i.ops[1], env)
        if not (isinstance(a, tuple) and a[0] == "t"):
            return win
        v = self.val(i.ops[0], env)
        if a[1] == "p" and a[2] == 0 and isinstance(v, int) and i.ops[0].ty == "i8":
            w = dict(win)
            w[0] = v
            return w
        self.cb.bad(i, "the text is changed elsewhere than behind the word just found")
        return win

    def advance(self, i, env, win, spec):
        """the next byte of the text is read: [(env, win, spec)]"""
        if win.get(0) != win.get(ORIG):
            self.cb.bad(i, "a byte of the text is left changed and the text behind it is not read as it is")
            return []
        if not self.cb.on_read(self, i, spec):
            return []
        out = []
        for c in self.by:
            n = self.cb.step(spec, c)
            e = {}
            for v, x in env.items():
                if isinstance(x, tuple) and x[0] == "t" and x[1] == "p":
                    k = x[2] - 1
                    if n[1] == self.FAR and spec[1] != self.FAR and abs(k + spec[1] + 1) <= 2:
                        x = ("t", "w", k + spec[1] + 1)
                    else:
                        x = ("t", "p", k) if k > -12 else None
                elif isinstance(x, tuple) and x[0] == "t" and x[1] == "w" and n[1] != self.FAR:
                    x = None
                e[v] = x
            cc = c - 256 if c > 127 else c
            out.append((e, {0: cc, ORIG: cc}, n))
        return out

    def load(self, i, env, L, win, spec, look):
        g = i.ops[0]
        a = self.val(g, env) if g.kind in ("inst", "arg") else self.address(g, env) if g.kind == "cexpr" else None
        if a == ("ctb",):
            e = dict(env)
            e[i] = ("ctt",)
            return [(e, L, win, spec, look)]
        if isinstance(a, tuple) and a[0] == "ct":
            e = dict(env)
            e[i] = ("ctv", a[1])
            return [(e, L, win, spec, look)]
        if isinstance(a, tuple) and a[0] == "t":
            if i.ty == "i8" and a[1] == "p" and a[2] == 0:
                e = dict(env)
                e[i] = win[0]
                return [(e, L, win, spec, look)]
            if i.ty == "i8" and a[1] == "p" and a[2] == 1:
                out = []
                for e, w, n in self.advance(i, env, win, spec):
                    e[i] = w[0]
                    out.append((e, L, w, n, look))
                return out or None
            if a[1] == "p" and a[2] > 1:
                self.cb.bad(i, "bytes of the text are passed over unread")
                return None
            raise Unknown("%s: text read at a position that is not followed" % i.where)
        if i.ty == "i8" and a is None and g.kind == "inst" and g.opc != "gep":
            raise Unknown("%s: text read at a position that is not followed" % i.where)
        return super().load(i, env, L, win, spec, look)

    def call(self, i, env, L, win, spec, look):
        def one(v, env=env, win=win, spec=spec):
            e = dict(env)
            e[i] = v
            return (e, L, win, spec, look)
        n = i.cname or ""
        vals = [self.val(x, env) for x in i.args]
        texts = [x for x in vals if isinstance(x, tuple) and x[0] == "t"]
        if n == "__ctype_b_loc":
            return [one(("ctb",))]
        if n == "isalnum" and isinstance(vals[0], int):
            return [one(int(self.kind(vals[0], 8)))]
        if n in self.add:
            if len(texts) != 1:
                raise Unknown("%s: what is handed on is not followed" % i.where)
            return [one(None, spec=self.cb.on_add(self, i, texts[0], win, spec))]
        if n == "strchr" and texts and isinstance(vals[1], int):
            x, (m, d) = texts[0], spec[:2]
            if m == "P" and (x[1] == "w" and 0 <= x[2] or x[1] == "p" and x[2] < 0 and (d == self.FAR or x[2] >= -d)):
                # searched again from within the piece
                if self.cb.word(vals[1] & 255):
                    self.cb.bad(i, "text that was handed on is searched again for the next piece")
                texts[0] = ("t", "p", 0)
        if n == "strchr" and texts and isinstance(vals[1], int) and texts[0][1] == "p" and texts[0][2] in (0, 1):
            out, seen, todo = [], set(), [(env, win, spec, texts[0][2] == 0)]
            while todo:
                e, w, sp, look_here = todo.pop()
                k = (tuple(sorted(((v, x) for v, x in e.items()), key=lambda t: id(t[0]))), tuple(sorted(w.items())), sp, look_here)
                if k in seen:
                    continue
                seen.add(k)
                if look_here:
                    if w[0] == norm(vals[1], "i8"):
                        out.append(one(("t", "p", 0), e, w, sp))
                        continue
                    if w[0] == 0:
                        out.append(one(0, e, w, sp))
                        continue
                for x in self.advance(i, e, w, sp):
                    todo.append(x + (True,))
            return out or [one(None, spec=("dead", 0, 1, "E"))]
        if texts and not n.startswith("llvm."):
            raise Unknown("%s: text given to %s" % (i.where, n or "a function"))
        return [one(None)]
