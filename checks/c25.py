"""C25: a mailbox is split at exactly its message separators.

1. The automaton of the separator line (tables made from fromcheck.nfa) is compared with the
   documented form by walking their product: an answer for every line.
2. The functions that look for separators in the text are read as automata over bytes
   (scanx) and compared with "From " at the start of a line, and with lines of four ^A.
3. Every message begins where the function that passes its separator says and reaches to the
   next separator or the end of the text; the next one is looked for behind it.
"""
import dfa, scanx, sym
from dfa import cls, lit, seq, alt, star, plus, opt, rep
from lin import Lins, Lin
from util import strip
from scanx import Walk, Unknown

LEVEL = "other"
FLOOR = 8
KEEP = {"fromcheck_next_state", "find_next_from", "find_next_mmdfsep", "start_of_next_line", "skip_mmdfsep", "data_to_rfc822", "setup_msg_src"}


def forms():
    ws, W = cls(" \t"), plus(cls(" \t"))
    U, lo, D = cls("A-Z"), cls("a-z"), cls("0-9")
    e = cls("a-zA-Z0-9+.!#$%&'*/=?^_`{|}~-")
    dom = cls("a-zA-Z0-9_.-")
    q = lit('"')
    quoted = seq(q, star(alt(e, ws, cls("@:<>"))), q)

    def line(lenient):
        domain = alt(plus(dom) if lenient else seq(dom, plus(dom)), seq(lit("["), star(cls("0-9.")), lit("]")))
        route = seq(lit("@"), star(dom), lit(":"))
        email = seq(star(alt(route, e)) if lenient else seq(star(route), star(e)), alt(e, quoted), star(alt(e, quoted)), opt(seq(lit("@"), domain)))
        zone = alt(U, seq(alt(U, cls("+-")), plus(cls("A-Za-z0-9"))))
        time = seq(D, D, lit(":"), D, D, opt(seq(lit(":"), D, D)))
        wd = seq(U, lo, lo)
        day = seq(D, opt(D))
        date = seq(W, wd, W, wd, W, day, W, time, W, opt(seq(zone, W, opt(seq(zone, W)))), rep(D, 4))
        old = seq(W, wd, lit(","), W, day, W, wd, W if lenient else ws, alt(rep(D, 4), rep(D, 2)), star(ws) if lenient else W, time, ws)
        addr = alt(email, seq(lit("<"), email, lit(">")), cls("+-"), seq())
        return seq(star(ws), addr, alt(date, old))
    return line(False), line(True)


def show(w):
    return "".join(chr(c) if 32 <= c < 127 and c != 92 else "\\n" if c == 10 else "\\t" if c == 9 else "\\x%02x" % c for c in w)


def language(r, p):
    r.rule("form of a separator line: language of the automaton between what must and what may be a separator")
    s = dfa.Scanner(p, "fromcheck")
    if not s.ok:
        r.notes.append("the tables of the separator automaton were not found")
        return
    must, may = forms()
    s0, st, rs, sets = dfa.compile_re({"must": must, "may": may})
    by = dfa.classes(lambda c: s.tok[c], *[(lambda c, x=x: c in x) for x in sets])
    PASS = p.enum("FROMCHECK_PASS")
    hit = lambda q: q >= 0 and s.attr[q] == PASS
    seen = bad = 0
    from collections import deque
    todo, done = deque([(0, s0, b"")]), {(0, s0)}
    told = set()
    while todo:
        q, t, w = todo.popleft()
        seen += 1
        tags, h = rs(t), hit(q)
        if h and "may" not in tags or not h and "must" in tags:
            if h not in told:
                told.add(h)
                r.bad("C25:form:%s" % ("extra" if h else "missing"), "fromcheck.nfa: the line 'From %s' %s" % (show(w), "is taken for a separator although it has not the form of one" if h else "is a separator but is not recognised as one"))
                bad += 1
            continue
        if h:
            continue
        for c in by:
            q2, t2 = s.step(q, c), st(t, c)
            if (q2, t2) not in done and (q2 >= 0 or t2):
                done.add((q2, t2))
                todo.append((q2, t2, w + bytes([c])))
    if not bad:
        r.ok("separator lines: %d pairs of states of the automaton (%d states, %d classes of bytes) and the documented form agree" % (seen, len(s.attr), len(by)))


class Cb:
    def __init__(self, r, f, key, word, start):
        self.r, self.f, self.key, self.word, self.init = r, f, key, word, start
        self.said = set()
        self.returns = 0

    def bad(self, i, msg):
        if msg not in self.said:
            self.said.add(msg)
            self.r.bad("C25:%s:%s" % (self.key, msg[:40].replace(" ", "-")), "%s: %s (%s)" % (i.where, msg, self.f.name))

    def step(self, s, c):
        """longest part of the word that the text read so far ends with"""
        t = self.word[:s] + bytes([c])
        while t and not self.word.startswith(t):
            t = t[1:]
        return len(t)

    def matched(self, s):
        return s == len(self.word)

    def on_read(self, w, i, L, spec, look):
        if L != "more":
            self.bad(i, "text is read at the end of the mailbox, beyond its last byte")
        return True

    def on_look(self, w, i, a, spec):
        self.bad(i, "unexpected look ahead")


class From(Cb):
    def on_look(self, w, i, a, spec):
        if not self.matched(spec):
            self.bad(i, "a line is examined as a separator although it does not begin with 'From ', or text in the middle of a line is")

    def on_read(self, w, i, L, spec, look):
        super().on_read(w, i, L, spec, look)
        if self.matched(spec) and look != "no":
            self.bad(i, "a line beginning with 'From ' is passed over without being examined")
        return True

    def on_return(self, w, i, v, L, win, spec, look):
        self.returns += 1
        if look == "pass":
            if v != ("p", -4):
                self.bad(i, "the place returned for a separator is not where its line begins")
        elif isinstance(v, tuple):
            self.bad(i, "a place is returned where no separator line was recognised")
        elif look in ("on0", "on"):
            self.bad(i, "a line is given up as a separator before its form is decided")
        elif v == -1 and L != "end":
            self.bad(i, "the search ends before the end of the mailbox")
        elif v is None or v != -1:
            raise Unknown("%s: what is returned is not followed" % i.where)


class Mmdf(Cb):
    def on_read(self, w, i, L, spec, look):
        super().on_read(w, i, L, spec, look)
        if self.matched(spec):
            self.bad(i, "a separator line of four ^A is passed over")
        return True

    def on_return(self, w, i, v, L, win, spec, look):
        self.returns += 1
        if isinstance(v, tuple):
            if not self.matched(spec):
                self.bad(i, "a place is returned where no line of four ^A was read")
            elif v != ("p", -4):
                self.bad(i, "the place returned for a separator is not where its line begins")
        elif v == -1:
            if self.matched(spec):
                self.bad(i, "a separator line of four ^A is not reported")
            elif L != "end":
                self.bad(i, "the search ends before the end of the mailbox")
        else:
            raise Unknown("%s: what is returned is not followed" % i.where)


class NextLine(Cb):
    """spec: 0 nothing read, 1 inside the line, 2 after its end"""
    def step(self, s, c):
        return 2 if c == 10 else 1

    def on_read(self, w, i, L, spec, look):
        if spec == 2:
            self.bad(i, "the text after the separator line is passed over")
        elif spec == 1 and L != "more":
            self.bad(i, "text is read at the end of the mailbox, beyond its last byte")
        return True

    def on_return(self, w, i, v, L, win, spec, look):
        self.returns += 1
        if isinstance(v, tuple):
            if spec != 2:
                self.bad(i, "a message is made to begin before the end of its separator line")
            elif v != ("p", 1):
                self.bad(i, "a message does not begin right behind its separator line")
        elif v == -1:
            if L != "end":
                self.bad(i, "a separator line with text behind it is dropped")
        else:
            raise Unknown("%s: what is returned is not followed" % i.where)


class Skip(Cb):
    """behind the second separator, if there is one and it lies in the text"""
    def step(self, s, c):
        return s

    def on_return(self, w, i, v, L, win, spec, look):
        self.returns += 1
        is_ = isinstance(look, tuple) and look[0] == "is" and look[1] == 1 and look[2] == "\1\1\1\1\n"
        if isinstance(v, tuple):
            if not is_:
                self.bad(i, "a message is made to begin where no separator line of four ^A is")
            elif v != ("p", 6):
                self.bad(i, "a message does not begin right behind its separator line")
        elif v == -1:
            if is_:
                self.bad(i, "a message behind a separator line is dropped")
        else:
            raise Unknown("%s: what is returned is not followed" % i.where)


def consts(f):
    out = set()
    for i in f.insts():
        if i.opc == "icmp" and i.ops[1].kind == "int" and i.ops[0].ty != "i64" and -128 <= i.ops[1].c < 256:
            out |= {i.ops[1].c & 255, (i.ops[1].c + 1) & 255}
        elif i.opc == "switch":
            out |= {c & 255 for c, _ in i.cases}
    return out


def scanners(r, p):
    r.rule("search for separators: automaton over the bytes of the text against the separator's first bytes at the start of a line")
    tabs = {}
    for nm in ("fromtab", "mmdftab"):
        if nm in p.m.globals:
            tabs[nm] = scanx.table(p, nm)
            if tabs[nm] is None:
                r.notes.append("contents of %s not followed" % nm)
    s = dfa.Scanner(p, "fromcheck")
    fs = [f for f in p.defined() if len(f.params) == 3 and [x.ty for x in f.params] == ["i64", "ptr", "i64"]]
    found = {}
    for f in fs:
        names = {strip(p.s.gepsteps(i.ops[0])[0]).name for i in f.insts() if i.opc == "load" and strip(p.s.gepsteps(i.ops[0])[0]).kind == "global"}
        if any(i.opc == "call" and i.cname == "fromcheck_next_state" for i in f.insts()):
            found[f] = From(r, f, "from", b"\nFrom ", 1)
        elif any(i.opc == "call" and i.cname in ("strncmp", "memcmp", "bcmp") for i in f.insts()):
            found[f] = Skip(r, f, "skip", b"", 0)
        elif "mmdftab" in names or f.name == "find_next_mmdfsep":
            found[f] = Mmdf(r, f, "mmdf", b"\n\1\1\1\1\n", 1)
        elif f.name == "start_of_next_line":
            found[f] = NextLine(r, f, "line", b"", 0)
    kinds = {type(c) for c in found.values()}
    for k in (From, Mmdf, NextLine, Skip):
        if k not in kinds:
            r.notes.append("%s: function not found" % k.__name__)
    for f, cb in found.items():
        keys = [(lambda c, t=t: t[c] if c < len(t) else None) for t in tabs.values() if t]
        cc = consts(f) | {0, 128} | set(b"\nFrom \1")
        keys += [(lambda c, x=x: c == x) for x in sorted(cc & set(b"\nFrom \1\0") | {x for x in cc if x in consts(f)})]
        keys.append(lambda c: c >= 128)
        by = dfa.classes(*keys)
        oracle = {"prefix": "fromcheck", "pass": p.enum("FROMCHECK_PASS"), "other": p.enum("FROMCHECK_FAIL")} if isinstance(cb, From) else None
        w = Walk(p, f, f.params[1], f.params[2], f.params[0], by, cb, oracle, {k: v for k, v in tabs.items() if v})
        try:
            w.run()
        except Unknown as e:
            r.notes.append("%s: %s" % (f.name, e))
            continue
        if not cb.said:
            r.ok("%s: %d abstract states, %d transitions, %d classes of bytes, %d results" % (f.name, w.states, w.trans, len(by), cb.returns))
    return found


def run(r, tier):
    from prog import inlined_prog
    p = inlined_prog(keep=KEEP)
    language(r, p)
    found = scanners(r, p)
    extents(r, p, found)


def targets(p, c):
    v = c.callee
    if v.kind == "func":
        return {v.fn}
    out, todo, seen = set(), [v], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.kind == "func":
            out.add(x.fn)
        elif x.kind == "inst" and x.opc == "phi":
            todo += [y for y, _ in x.inc]
        elif x.kind == "inst" and x.opc == "select":
            todo += x.ops[1:3]
        else:
            return set()
    return out


def alternatives(v, limit=40):
    """(value, edges taken) a value may be, through merges of conditional code (not loops)"""
    v0 = v
    v = strip(v)
    if v.kind == "inst" and v.opc == "select":
        return [x for o in v.ops[1:3] for x in alternatives(o)]
    if v.kind == "inst" and v.opc == "phi":
        return [(x, (b, v.bb)) for x, b in v.inc]
    return [(v0, None)]


def ld(v, off, L, p):
    """v is a load at that offset of a node: the node"""
    v = strip(v)
    if v.kind != "inst" or v.opc != "load":
        return None
    base, steps = p.s.gepsteps(v.ops[0])
    return strip(base) if sum(s[1] or 0 for s in steps if s[0] != "[]") == off and all(s[0] != "[]" for s in steps) else None


def terms(x, L, p):
    """linear form as {('f', node, offset) | value: coefficient}"""
    out = {}

    def go(v, k, d=0):
        v = strip(v)
        if v.kind == "int":
            out[1] = out.get(1, 0) + k * v.c
        elif v.kind == "inst" and v.opc in ("add", "sub") and d < 12:
            go(v.ops[0], k, d + 1)
            go(v.ops[1], k if v.opc == "add" else -k, d + 1)
        elif v.kind == "inst" and v.opc == "gep" and d < 12 and len(v.ops) == 2 and v.gty == "i8":
            go(v.ops[0], k, d + 1)
            go(v.ops[1], k, d + 1)
        elif v.kind == "inst" and v.opc == "load":
            base, steps = p.s.gepsteps(v.ops[0])
            key = ("f", strip(base), sum(s[1] or 0 for s in steps)) if all(s[0] != "[]" for s in steps) else v
            out[key] = out.get(key, 0) + k
        else:
            out[v] = out.get(v, 0) + k
    go(x, 1)
    return {a: c for a, c in out.items() if c}


def expand(v, keep, p, depth=3):
    """[(linear form, edges taken)]: merges of conditional code opened"""
    out, todo = [], [(terms(v, None, p), ())]
    while todo:
        t, es = todo.pop()
        ph = next((a for a in t if not isinstance(a, (int, tuple)) and a not in keep and a.kind == "inst" and a.opc in ("phi", "select")), None)
        if ph is None or len(es) >= depth:
            out.append((t, es))
            continue
        for x, e in ([(x, (b, ph.bb)) for x, b in ph.inc] if ph.opc == "phi" else [(x, None) for x in ph.ops[1:3]]):
            if x is ph:
                continue
            n = {a: c for a, c in t.items() if a is not ph}
            for a, c in terms(x, None, p).items():
                n[a] = n.get(a, 0) + c * t[ph]
            todo.append(({a: c for a, c in n.items() if c}, es + ((e,) if e else ())))
        if len(out) + len(todo) > 40:
            return [(terms(v, None, p), ())]
    return out


def extents(r, p, found):
    from sccp import Sccp
    r.rule("extent of a message: from behind its separator to the next one or the end of the text, the next looked for from there")
    kind = {f: type(c) for f, c in found.items()}
    done = 0
    offs = None
    for f in p.defined():
        if f.name == "main" and done or f in found:
            continue
        finds, starts = [], []
        for c in f.calls():
            t = {kind.get(x) for x in targets(p, c)}
            if t and t <= {From, Mmdf}:
                finds.append(c)
            elif t and t <= {NextLine, Skip}:
                starts.append(c)
        if not finds or not starts:
            continue
        w = "%s (%s)" % (f.name, starts[0].where)
        if len(starts) != 1 or len(finds) != 2:
            r.notes.append("%s: %d searches and %d starts of messages are not followed" % (w, len(finds), len(starts)))
            continue
        M = starts[0]
        inner = [c for c in finds if strip(c.args[0]) is M]
        outer = [c for c in finds if c not in inner]
        if len(inner) != 1 or len(outer) != 1:
            if not inner:
                r.bad("C25:extent:next", "%s: the next separator is not looked for from the beginning of the message" % finds[-1].where)
            continue
        N, O = inner[0], outer[0]
        LEN = terms(M.args[2], None, p)
        # kinds chosen together
        ph = [strip(c.callee) for c in (O, M, N) if c.callee.kind == "inst"]
        gap = None
        if len(ph) == 3 and all(x.opc == "phi" for x in ph) and len({x.bb for x in ph}) == 1:
            bb = ph[0].bb
            for b in {b for _, b in ph[0].inc}:
                ks = [kind.get(next(v for v, q in x.inc if q is b).fn) for x in ph]
                r.require(ks in ([From, NextLine, From], [Mmdf, Skip, Mmdf]), "C25:extent:kinds", "%s: searches and starts of one kind of mailbox go together" % w,
                          "%s: the search and the start of a message of different kinds of mailbox are mixed" % w)
            mm = {b for v, b in ph[0].inc if v.kind == "func" and kind.get(v.fn) is Mmdf}
            for i in bb.insts:
                if i.opc == "phi" and i not in ph and all(v.kind == "int" for v, _ in i.inc):
                    g = {b: v.c for v, b in i.inc}
                    if all(g[b] == (5 if b in mm else 0) for b in g):
                        gap = i
                    elif i.ty.startswith("i") and any(u.opc in ("add", "sext", "zext") for u in i.users):
                        r.bad("C25:extent:gap", "%s: the length of the separator that ends a message is taken to be %s (5 in an MMDF mailbox, 0 otherwise)" % (w, sorted(g.values())))
            # the choice: first line of four ^A
            cmp_ = [c for c in f.calls("strncmp", "memcmp", "bcmp") if len(c.args) == 3 and strip(c.args[1]).kind == "global" and strip(c.args[1]).s == "\1\1\1\1\n" and
                    c.args[2].kind == "int" and c.args[2].c == 5 and sym.dominates(p.dom(f), c.bb, bb) is not None]
            cmp_ = [c for c in cmp_ if any(x in c.bb.succs or True for x in mm)]
            if cmp_:
                c = min(cmp_, key=lambda c: 0 if any(sym.dominates(p.dom(f), c.bb, b) for b in mm) else 1)
                for v, ok in ((0, mm), (1, {b for _, b in ph[0].inc} - mm)):
                    s = Sccp(f, entry=c.bb, pin=lambda i, v=v: [v] if i is c else None, stop=lambda i: False, avoid={O.bb}, prog=p)
                    got = {b for b in {b for _, b in ph[0].inc} if b in s.blocks}
                    r.require(got <= ok or not got, "C25:extent:choice", "%s: %s" % (w, "MMDF" if v == 0 else "mbox"), "%s: a mailbox that %s with a line of four ^A is split as the other kind" % (c.where, "begins" if v == 0 else "does not begin"))
            else:
                r.notes.append("%s: how the kind of the mailbox is told was not followed" % w)
        else:
            r.notes.append("%s: kinds of mailbox not told apart in a form that is followed" % w)
        # where the message is taken to start
        for v, e in alternatives(M.args[0]):
            t = terms(v, None, p)
            okf = t == {O: 1} or gap is not None and t == {N: 1, gap: 1} or gap is None and set(t) >= {N} and t[N] == 1 and 1 not in t and (len(t) > 1 or Mmdf not in {kind.get(x) for x in targets(p, N)})
            r.require(okf, "C25:extent:from", "%s: a message is looked for behind each separator found" % w, "%s: the next message is looked for elsewhere than at the separator just found" % M.where)
        for v, e in alternatives(O.args[0]):
            t = terms(v, None, p)
            if t:
                rest = [a for a in t if isinstance(a, tuple) or getattr(a, "opc", "") == "load"]
                okf = all(c == 1 for c in t.values()) and len(rest) == 2 and 1 not in t and (gap is None or gap in t)
                if okf:
                    for a in rest:
                        x = a if not isinstance(a, tuple) else None
                        if x is not None:
                            st = p.s.gepsteps(x.ops[0])[1]
                            ix = [s[1] for s in st if s[0] == "[]"]
                            if len(ix) == 1:
                                tt = terms(ix[0], None, p)
                                r.require(tt.get(1) == -1 and len(tt) == 2, "C25:extent:resume", "%s: the search goes on behind the last message kept" % w, "%s: the search does not go on behind the last message kept" % x.where)
                r.require(okf, "C25:extent:resume2", "%s: the search goes on at the end of the last message kept" % w, "%s: the search for new messages does not begin at the end of the last one kept" % O.where)
        # what is recorded
        nodes, recs = set(), {}
        for i in f.insts():
            if i.opc != "store" or i.ops[0].ty != "i64":
                continue
            base, steps = p.s.gepsteps(i.ops[1])
            base = strip(base)
            if base.kind != "inst" or base.opc == "alloca" or any(s[0] == "[]" for s in steps) or not sym.dominates(p.dom(f), M.bb, i.bb):
                continue
            alts = expand(i.ops[0], {M, N}, p)
            recs.setdefault((base, sum(s[1] or 0 for s in steps)), []).append((i, alts))
            if any(M in t or N in t for t, _ in alts):
                nodes.add(base)
        so, lo, stores = set(), set(), []
        for (base, off), xs in recs.items():
            if base not in nodes:
                continue
            if any(t.get(M) == -1 for _, alts in xs for t, _ in alts):
                lo.add(off)
                stores += xs
            else:
                so.add(off)
                for i, alts in xs:
                    r.require(all(t == {M: 1} for t, _ in alts), "C25:extent:start", "%s: start of a message recorded" % i.where, "%s: what is recorded as the start of a message is not the place right behind its separator" % i.where)
        if len(so) != 1 or len(lo) != 1 or so & lo:
            r.notes.append("%s: records of messages not found (%d starts, %d lengths)" % (w, len(so), len(lo)))
            continue
        endlen = dict(LEN)
        endlen[M] = endlen.get(M, 0) - 1
        nextlen = {N: 1, M: -1}
        for val in (-1, 7):
            s = Sccp(f, entry=N.bb, pin=lambda i: [val] if i is N else None, prog=p)
            want = endlen if val == -1 else nextlen
            for i, alts in stores:
                if i.bb not in s.blocks:
                    continue
                for t, es in alts:
                    if any(e not in s.edges for e in es):
                        continue
                    r.require(t == want, "C25:extent:length%d" % (val == -1), "%s: length of a message %s" % (i.where, "at the end of the mailbox" if val == -1 else "before the next separator"),
                              "%s: the length of %s" % (i.where, "the last message is not what is left of the mailbox" if val == -1 else "a message does not reach to the next separator"))
        offs = (so.pop(), list(lo)[0])
        done += 1
        r.ok("%s: messages from %d searches, recorded at offsets %d and %d" % (w, len(finds), *offs))
    if not done:
        r.notes.append("the splitting of a mailbox was not found")
        return
    pieces(r, p, *offs)


def pieces(r, p, so, lo):
    r.rule("pieces of a mailbox as messages: one piece, or all from the first to the one that completes a multipart text")
    n = 0
    for f in p.defined():
        if f.name == "main":
            continue
        for c in f.calls("data_to_rfc822"):
            t = terms(c.args[2], None, p)
            nodes = [a for a in t if isinstance(a, tuple) and a[2] == lo]
            if not nodes:
                continue
            td = terms(c.args[1], None, p)
            hs = [a[1] for a in td if isinstance(a, tuple) and a[2] == so and td[a] == 1]
            if len(hs) != 1:
                r.notes.append("%s: place of a piece not followed" % c.where)
                continue
            h, last = hs[0], nodes[0][1]
            one = {("f", h, lo): 1}
            many = {("f", last, so): 1, ("f", last, lo): 1, ("f", h, so): -1}
            r.require(t == one or t == many, "C25:piece:length", "%s: pieces from the first to the last" % c.where, "%s: the text parsed as one message is not one piece or all pieces up to the last one tried" % c.where)
            n += 1
            if t == many and last is not h:
                vals = [v for v, _ in last.inc] if last.kind == "inst" and last.opc == "phi" else []
                okl = vals and all(strip(v) is h or ld(v, 0, None, p) is last for v in vals)
                r.require(okl, "C25:piece:more", "%s: one more piece is tried at a time" % c.where, "%s: pieces of a message are left out when more of them are joined" % c.where) if vals else r.notes.append("%s: last piece not followed" % c.where)
    if not n:
        r.notes.append("where the pieces of a mailbox are parsed was not found")
