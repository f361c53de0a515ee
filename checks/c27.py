"""C27: encoded text is decoded byte for byte as its encoding says (base64, quoted-printable).

The decoding loops are read as transducers (decode.Dec) and compared with the encoding; the table
of base64 digits, the values of hex digits and the names of the encodings are read as they are.
"""
import dfa, scanx, sym
from decode import Dec, named, vec
from scanx import Walk, Unknown
from util import strip

LEVEL = "other"
FLOOR = 5
HEX, LOOK, KIND = "hex_to_val", "looking_at_ws_then_newline", "decode_encoding_type"
USERS = ("unencode_data", "decode_header_value")
KEEP = {HEX, LOOK, KIND} | set(USERS)
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


class Cb:
    def __init__(self, r, f, key):
        self.r, self.f, self.key, self.said = r, f, key, set()
        self.outs = 0

    def bad(self, i, msg):
        if msg not in self.said:
            self.said.add(msg)
            self.r.bad("C27:%s:%s:%s" % (self.f.name, self.key, msg[:44].replace(" ", "-")), "%s: %s (%s)" % (i.where, msg, self.f.name))

    def reads(self, by, s):
        return by

    def stale(self, n, z):
        return False

    def lookup(self, w, i, g, n, v, s):
        return v

    def on_call(self, w, i, vals, s):
        return [(None, s, None)]

    def on_store(self, w, i, v, s):
        self.outs += 1
        pend = s[-1]
        if not pend:
            self.bad(i, "more bytes are put out than the text stands for")
            return s
        b = vec(v)
        if b is None:
            raise Unknown("%s: what is put out is not followed" % i.where)
        want = pend[0] if isinstance(pend[0], tuple) else tuple((pend[0] >> k) & 1 for k in range(8))
        if b[:8] != want:
            if not any(x is not None and x != y for x, y in zip(b, want)):
                raise Unknown("%s: what is put out is not followed" % i.where)
            self.bad(i, "a byte put out is not the one the text stands for")
        return s[:-1] + (pend[1:],)

    def on_exit(self, w, i, s):
        if s[-1]:
            self.bad(i, "bytes the text stands for are not put out")


class Base64(Cb):
    """(mode, characters of the group, '=' among them, bytes to put out)"""
    init = ("G", 0, 0, ())

    def __init__(self, r, f, digits):
        super().__init__(r, f, "base64")
        self.digits = digits

    def on_read(self, w, i, s):
        self.on_exit(w, i, s)
        return not s[3] and s[0] != "END"

    def step(self, s, c):
        m, k, e, pend = s
        m = "G"
        k %= 4
        v = c - 256 if c > 127 else c
        if c == 61:
            if k < 2:
                return None, v
            k, e = k + 1, e + 1
        elif c < 128 and chr(c) in B64:
            if e:
                return None, v
            k += 1
        else:
            return ("other", k, e, ()), v
        if k < 4:
            return (m, k, e, ()), v
        d = [tuple((j, b) for b in range(6)) if j < 4 - e else (0,) * 6 for j in range(4)]
        all24 = d[3] + d[2] + d[1] + d[0]
        return ("END" if e else "G", 4, e, tuple(all24[16 - 8 * j:24 - 8 * j] for j in range(3 - e))), v

    def stale(self, n, z):
        return n[0] != "other" and z[0] >= n[1] - 1

    def lookup(self, w, i, g, n, v, s):
        if g in self.digits and v >= 0 and n != 61:
            return named((s[1] or 4) - 1, 6) if n < 128 and chr(n) in B64 else v
        return v


class Quoted(Cb):
    """(mode N | E: behind '=' | EH: no soft line break | H: behind the first digit, bytes to put out)"""
    init = ("N", ())

    def __init__(self, r, f, header):
        super().__init__(r, f, "quoted")
        self.header = header

    def on_read(self, w, i, s):
        self.on_exit(w, i, s)
        if s[0] == "E" and not self.header:
            self.bad(i, "a line that goes on behind its '=' is not recognised")
            return False
        return not s[-1]

    def reads(self, by, s):
        return by if s[0] == "N" else [0]

    def step(self, s, c):
        if s[0] in ("E", "EH"):
            return ("H", ()), ("H", 0)
        if s[0] == "H":
            return ("N", (tuple(("h1", b) for b in range(4)) + tuple(("h0", b) for b in range(4)),)), ("H", 1)
        v = c - 256 if c > 127 else c
        if c == 61:
            return ("E", ()), v
        return ("N", (32 if self.header and c == 95 else c,)), v

    def stale(self, n, z):
        return n[0] == "H"

    def on_call(self, w, i, vals, s):
        if i.cname and i.cname.split(".")[0] == HEX:
            v = vals[0]
            if isinstance(v, tuple) and v[0] == "H":
                return [(named("h%d" % v[1], 4), s, None)]
            if isinstance(v, int):
                self.bad(i, "a character that is no hex digit of an escape is taken for one")
            raise Unknown("%s: hex digit not followed" % i.where)
        if i.cname and i.cname.split(".")[0] == LOOK:
            if s[0] != "E":
                raise Unknown("%s: soft line break sought elsewhere" % i.where)
            if vals[0] != ("t", "p", 1):
                self.bad(i, "the end of the line is not sought right behind '='")
            return [(0, ("EH", ()), None), (("t", "p", 0), ("N", ()), {0: 10})]
        if any(isinstance(v, tuple) and v[0] == "t" for v in vals):
            raise Unknown("%s: text given to %s" % (i.where, i.cname))
        return [(None, s, None)]


class Fn(Walk):
    """a function as a map of constants"""
    START = None

    def __init__(self, p, f, consts, tables, calls=None):
        class C:
            init = 0

            def bad(s, i, m):
                pass

            def on_return(s, w, i, v, *x):
                self.out.add(v)
        super().__init__(p, f, None, None, None, [], C(), None, tables)
        self.consts, self.out, self.calls = consts, set(), calls

    def val(self, v, env):
        return self.consts[v] if v in self.consts else super().val(v, env)

    def compare(self, pred, a, c, ty, L):
        for x, y in ((a, c), (c, a)):
            if x == ("E",) and y == 0 and pred in ("eq", "ne"):
                return [(int(pred == "ne"), L, False)]
        return super().compare(pred, a, c, ty, L)

    def load(self, i, env, L, win, spec, look):
        if self.calls:
            e = dict(env)
            e[i] = None
            return [(e, L, win, spec, look)]
        return super().load(i, env, L, win, spec, look)

    def call(self, i, env, L, win, spec, look):
        e = dict(env)
        e[i] = self.calls(i) if self.calls else None
        return [(e, L, win, spec, look)]


def string(v):
    v = strip(v)
    if v.kind == "global" and v._x and v._x.get("init") is not None and getattr(v._x["init"], "s", None):
        return v._x["init"].s.rstrip(b"\0").decode("latin-1")
    return None


def run(r, tier):
    from prog import inlined_prog
    p = inlined_prog(keep=KEEP)
    r.rule("loops that decode text, read as transducers from bytes to bytes: each byte put out is the one the encoding says, and none is missing")
    tabs = {}
    for g, v in p.m.globals.items():
        try:
            n = p.m.sizeof(v.gty or v.ty) if v.ty[0] in "[<" else 0
        except Exception:
            n = 0
        if n in (256, 512, 1024, 2048):
            t = scanx.table(p, g)
            if t and len(t) == 256:
                tabs[g] = t
    digits = {g for g, t in tabs.items() if len(set(t)) >= 50 and max(t) <= 63}
    heads = {}
    for name in USERS:
        if not p.has(name):
            r.notes.append("%s not found" % name)
            r.floor_waived = True
            continue
        f = p.fn(name)
        lp = sym.loops(f)

        def inner(i):
            hs = [h for h in lp if i.bb in lp[h]]
            return min(hs, key=lambda h: len(lp[h])) if hs else None
        b64 = {inner(i) for i in f.insts() if i.opc == "gep" and strip(p.s.gepsteps(i)[0]).kind == "global" and strip(p.s.gepsteps(i)[0]).name in digits}
        qp = {inner(i) for i in f.insts() if i.opc == "call" and (i.cname or "").split(".")[0] == HEX}
        heads[name] = (b64, qp)
        for kind, hs in (("base64", b64), ("quoted-printable", qp)):
            if len(hs) != 1 or None in hs:
                r.notes.append("%s: loop decoding %s not told (%d)" % (name, kind, len(hs)))
                r.floor_waived = True
                continue
            h = list(hs)[0]
            body = lp[h]
            used = {strip(p.s.gepsteps(i)[0]).name for b in body for i in b.insts if i.opc == "gep" and strip(p.s.gepsteps(i)[0]).kind == "global"} & set(tabs)
            if kind == "base64":
                for g in sorted(used & digits):
                    wrong = [c for c in range(256) if c != 61 and tabs[g][c] != (B64.find(chr(c)) if c < 128 else -1) and not (tabs[g][c] < 0 and (c > 127 or chr(c) not in B64))]
                    r.require(not wrong, "C27:%s:digits:%s" % (name, "".join("%02x" % c for c in wrong[:4])), "%s gives each of the 64 digits its value and no other byte one" % g,
                              "%s: the base64 value of byte(s) %s is wrong (%s)" % (g, ", ".join(repr(chr(c)) for c in wrong[:6]), name))
                cb = Base64(r, f, digits)
                keys = [(lambda c, t=tabs[g], d=g in digits: (t[c] >= 0) if d else t[c]) for g in sorted(used)] + [lambda c: c == 61, lambda c: c < 128 and chr(c) in B64]
            else:
                header = not any(i.opc == "call" and (i.cname or "").split(".")[0] == LOOK for b in body for i in b.insts)
                if header and name == USERS[0]:
                    r.notes.append("%s: how soft line breaks are found is not followed" % name)
                    r.floor_waived = True
                    continue
                cb = Quoted(r, f, header)
                keys = [lambda c: c == 61, lambda c: c == 95, lambda c: c > 127]
            cc = set()
            for b in body:
                for i in b.insts:
                    if i.opc == "icmp" and i.ops[1].kind == "int" and -128 <= i.ops[1].c < 256:
                        cc |= {i.ops[1].c & 255, (i.ops[1].c + 1) & 255}
                    elif i.opc == "switch":
                        cc |= {c & 255 for c, _ in i.cases if -128 <= c < 256}
            if kind != "base64":
                keys += [lambda c, x=x: c == x for x in cc]
            w = Dec(p, f, h, body, dfa.classes(*keys), cb, {g: tabs[g] for g in used})
            try:
                w.run()
            except Unknown as e:
                r.notes.append("%s, %s: %s" % (name, kind, e))
                r.floor_waived = True
                continue
            if not cb.said:
                r.ok("%s, %s: %d abstract states, %d transitions, %d bytes put out" % (name, kind, w.states, w.trans, cb.outs))
    hexdigits(r, p, tabs, [f for n in heads for f in {i.ops[-1].name for i in p.fn(n).insts() if i.opc == "call"} if f and f.split(".")[0] == HEX])
    softbreak(r, p)
    names(r, p, heads)


def hexdigits(r, p, tabs, called):
    r.rule("the value of each hex digit, in both cases of letters")
    fs = [f for f in p.defined() if f.name in called]
    if not fs:
        r.notes.append("%s not found" % HEX)
        return
    f = fs[0]
    wrong = []
    for c in b"0123456789abcdefABCDEF":
        w = Fn(p, f, {f.params[0]: c}, tabs)
        try:
            w.run()
        except Unknown as e:
            r.notes.append("%s: %s" % (f.name, e))
            r.floor_waived = True
            return
        if w.out != {int(chr(c), 16)}:
            if None in w.out:
                r.notes.append("%s: value of '%c' not followed" % (f.name, c))
                r.floor_waived = True
                return
            wrong.append("'%c': %s" % (c, sorted(w.out)))
    r.require(not wrong, "C27:hex:" + "".join(x[1] for x in wrong), "22 hex digits have their values", "%s: %s" % (f.name, ", ".join(wrong)))


def softbreak(r, p):
    """blanks up to the end of the line: found exactly then, and its place returned"""
    fs = [f for f in p.defined() if f.name.split(".")[0] == LOOK]
    if not fs:
        return
    f = fs[0]

    class S:
        init = ("W", 0, 0, "W")
        said = set()

        def bad(s, i, m):
            if m not in s.said:
                s.said.add(m)
                r.bad("C27:soft:%s" % m[:40].replace(" ", "-"), "%s: %s (%s)" % (i.where, m, f.name))

        def step(s, st, c):
            return ("Y" if c == 10 else "W" if c in (9, 11, 12, 13, 32) else "N", 0, 0, "W")

        def on_read(s, w, i, st):
            if st[0] == "N":
                return False
            if st[0] == "Y":
                s.bad(i, "the end of a line behind '=' is passed over")
                return False
            return True

        def on_return(s, w, i, v, L, win, st, look):
            if v is None:
                raise Unknown("%s: what is returned is not followed" % i.where)
            if st[0] == "Y" and v != ("t", "p", 0):
                s.bad(i, "the end of a line behind '=' is not returned")
            elif st[0] == "N" and v != 0:
                s.bad(i, "a line end is seen where there is other text")
            elif st[0] == "W":
                s.bad(i, "blanks in front of the end of a line are not passed over")
    w = scanx.Words(p, f, f.params[0], dfa.classes(lambda c: c, ), S(), set())
    w.by = [c for c in (9, 10, 11, 12, 13, 32, 65, 61, 48, 0)]
    try:
        w.run()
    except Unknown as e:
        r.notes.append("%s: %s" % (f.name, e))
        return
    if not S.said:
        r.ok("%s finds the end of a line behind blanks: %d abstract states" % (f.name, w.states))


def names(r, p, heads):
    r.rule("the name of an encoding leads to its decoder")
    fs = [f for f in p.defined() if f.name.split(".")[0] == KIND]
    if not fs or USERS[0] not in heads or any(len(h) != 1 or None in h for h in heads[USERS[0]]):
        r.notes.append("choice of the decoder not judged")
        return
    f, u = fs[0], p.fn(USERS[0])
    sw = [i for i in u.insts() if i.opc == "switch" and strip(i.ops[0]).kind == "inst" and strip(i.ops[0]).opc == "call" and (strip(i.ops[0]).cname or "").split(".")[0] == KIND]
    if len(sw) != 1:
        r.notes.append("choice of the decoder not judged")
        return
    b64, qp = (list(h)[0] for h in heads[USERS[0]])
    n = 0
    for s, want in (("7bit", None), ("8bit", None), ("binary", None), ("base64", b64), ("quoted-printable", qp)):
        def calls(i, s=s):
            if i.cname in ("strncasecmp", "strcasecmp"):
                k = [x for x in (string(a) for a in i.args[:2]) if x is not None]
                if len(k) == 1:
                    return 0 if (k[0].lower() == s if i.cname == "strcasecmp" else s.startswith(k[0].lower())) else 1
            return None
        w = Fn(p, f, {f.params[0]: ("E",)}, {}, calls)
        try:
            w.run()
        except Unknown as e:
            r.notes.append("%s: %s" % (f.name, e))
            return
        # the way without any name leads to a plain text too
        for v in sorted(x for x in w.out if x is not None):
            t = next((t for c, t in sw[0].cases if c == v), None) or sw[0].bb.succs[0]
            got = b64 if b64 in sym.reach([t]) else qp if qp in sym.reach([t]) else None
            plain = any(i.opc == "call" and (i.cname or "").startswith(("memcpy", "llvm.memcpy", "memmove", "llvm.memmove")) for b in sym.reach([t]) for i in b.insts)
            if got is want and (got is not None or plain):
                n += 1
                break
        else:
            if None in w.out:
                r.notes.append("%s: kind of '%s' not followed" % (f.name, s))
                continue
            r.bad("C27:name:%s" % s, "%s: text in encoding '%s' is not given to its decoder" % (f.name, s))
    r.ok("%d names of encodings lead to their decoders" % n)
