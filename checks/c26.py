"""C26: a text is cut into exactly the documented words.

The functions that cut a text into words are read as automata over its bytes (scanx.Words) and
compared with the specification: maximal runs of word characters, outside of tags in HTML, and
what stands between < and > for identifiers; each handed on once, whole, and ended where it ends.
"""
import dfa, scanx
from dfa import ints
from scanx import Words, Unknown, ORIG
from util import strip

LEVEL = "other"
FLOOR = 3
ADD = {"add_token_in_file", "add_token2_in_file"}
KEEP = ADD | {"tokenise_string", "tokenise_html_string", "add_angled_terms"}
FAR = Words.FAR
CAP = 4


class Cb:
    html = False
    what = "word"

    def __init__(self, r, f, key):
        self.r, self.f, self.key = r, f, key
        self.said, self.adds, self.returns = set(), 0, 0
        self.init = ("O", 0, 1, "O")

    def bad(self, i, msg):
        if msg not in self.said:
            self.said.add(msg)
            self.r.bad("C26:%s:%s" % (self.key, msg[:44].replace(" ", "-")), "%s: %s (%s)" % (i.where, msg, self.f.name))

    def begins(self, c):
        return 0 if self.word(c) else None

    def outside(self, m, c):
        if c == 0:
            return ("E", 0, 1, "E")
        if m == "T":
            return ("O" if c == 62 else "T", 0, 1, "O")
        b = self.begins(c)
        if b is not None:
            return ("I", b, 0, "O")
        return ("T" if self.html and c == 60 else "O", 0, 1, "O")

    def step(self, s, c):
        m, d, done, nxt = s
        if m == "I":
            d2 = FAR if d == FAR or d + 1 > CAP else d + 1
            if self.word(c):
                return ("I", d2, 0, "O")
            if c == 0 and self.dropped:
                return ("E", 0, 1, "E")
            return ("P", d2, 0, "E" if c == 0 else "T" if self.html and c == 60 else "O")
        return self.outside(nxt if m == "P" else m, c)

    dropped = False

    def on_read(self, w, i, s):
        m, d, done, nxt = s
        if m == "E" or m == "P" and nxt == "E":
            self.bad(i, "text is read beyond its end")
            return False
        if m == "P" and not done:
            self.bad(i, "a %s is found and passed over" % self.what)
            return False
        return m != "dead"

    def on_add(self, w, i, x, win, s):
        m, d, done, nxt = s
        self.adds += 1
        if m == "dead":
            return s
        if m != "P":
            self.bad(i, "what is handed on as a %s is none, or not all of it" % self.what)
        elif done:
            self.bad(i, "a %s is handed on twice" % self.what)
        elif x != (("t", "w", 0) if d == FAR else ("t", "p", -d)):
            self.bad(i, "a %s is not handed on from its first byte" % self.what)
        elif win[0] != 0:
            self.bad(i, "a %s is handed on with text behind it" % self.what)
        return (m, d, 1, nxt)

    def on_return(self, w, i, v, L, win, s, look):
        self.returns += 1
        m, d, done, nxt = s
        if m == "dead":
            return
        if win.get(0) != win.get(ORIG):
            self.bad(i, "a byte of the text is left changed")
        if m == "P" and not done:
            self.bad(i, "the last %s of a text is not handed on" % self.what)
        elif m != "E" and not (m == "P" and nxt == "E"):
            self.bad(i, "the text is not cut to its end")


class WordCb(Cb):
    def __init__(self, r, f, key, mask, high):
        super().__init__(r, f, key)
        self.mask, self.high = mask, high

    def word(self, c):
        return self.high if c > 127 else chr(c).isalnum() or c == 95 or bool(self.mask & 2) and c in b"+-.@"


class HtmlCb(WordCb):
    html = True


class IdCb(Cb):
    what = "identifier"
    dropped = True

    def word(self, c):
        return c not in (0, 62)

    def begins(self, c):
        return -1 if c == 60 else None


def run(r, tier):
    from prog import inlined_prog
    p = inlined_prog(keep=KEEP)
    r.rule("cutting of texts into words, read as an automaton over bytes: every maximal run of word characters is handed on once and whole, and nothing else")
    jobs = []
    for name, kind in (("tokenise_string", WordCb), ("tokenise_html_string", HtmlCb), ("add_angled_terms", IdCb)):
        if not p.has(name):
            r.notes.append("%s not found" % name)
            continue
        f = p.fn(name)
        texts = [a for a in f.params if a.ty == "ptr" and reads(p, f, a)]
        if len(texts) != 1:
            r.notes.append("%s: the text is not told from its %d parameters" % (name, len(texts)))
            continue
        if kind is IdCb:
            jobs.append((f, texts[0], {}, IdCb(r, f, name), False))
            continue
        masks = [{}]
        if kind is WordCb:
            # the parameter that takes the kinds of word: 1 and 2 in the calls
            cand = {}
            for g in p.defined():
                for c in g.calls(name):
                    for k, a in enumerate(c.args):
                        if a.kind == "int":
                            cand.setdefault(k, set()).add(a.c)
            k = [k for k, v in cand.items() if v <= {1, 2, 3}]
            if len(k) != 1:
                r.notes.append("%s: the parameter for the kind of words was not found" % name)
                continue
            masks = [{f.params[k[0]]: 1}, {f.params[k[0]]: 2}]
        for m in masks:
            for high in (False, True):
                jobs.append((f, texts[0], m, kind(r, f, name, list(m.values())[0] if m else 1, high), high))
    tab = {}
    for g, v in p.m.globals.items():
        if p.m.sizeof(v.gty or v.ty) in (256, 1024) and any(v in i.ops or strip(p.s.gepsteps(i)[0]) is v for f, *_ in jobs for i in f.insts() if i.opc == "gep"):
            t = scanx.table(p, g)
            if t:
                tab[g] = t
    for f, text, args, cb, high in jobs:
        kinds = [scanx.CTYPE[o.c] for i in f.insts() if i.opc == "and" for o in i.ops if o.kind == "int" and o.c in scanx.CTYPE and i.ty == "i32"]
        cc = {0}
        for i in f.insts():
            if i.opc == "icmp" and i.ops[1].kind == "int" and i.ops[0].ty != "i64" and -128 <= i.ops[1].c < 256:
                cc |= {i.ops[1].c & 255, (i.ops[1].c + 1) & 255}
            elif i.opc == "switch":
                cc |= {c & 255 for c, _ in i.cases}
            elif i.opc == "call" and i.cname == "strchr" and i.args[1].kind == "int":
                cc.add(i.args[1].c & 255)
        keys = [lambda c, x=x: c == x for x in sorted(cc | {60, 62})] + [(lambda c, t=t: t[c]) for t in tab.values()] + [(lambda c, k=k: c < 128 and k(chr(c))) for k in kinds] + [cb.word, lambda c: chr(c).isalnum() and c < 128, lambda c: c > 127]
        by = dfa.classes(*keys)
        w = Words(p, f, text, by, cb, ADD, args, high, tab)
        try:
            w.run()
        except Unknown as e:
            r.notes.append("%s: %s" % (f.name, e))
            r.floor_waived = True
            continue
        if not cb.said:
            r.ok("%s%s%s: %d abstract states, %d transitions, %d classes of bytes, %d places where something is handed on" %
                 (f.name, " with kind %d" % list(args.values())[0] if args else "", ", letters beyond ASCII" if high else "", w.states, w.trans, len(by), cb.adds))


def reads(p, f, a):
    """bytes are read through this parameter"""
    todo, seen = [a], set()
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        for i in f.insts():
            if v in i.ops or any(x is v for x, _ in i.inc):
                if i.opc == "load" and i.ty == "i8" or i.opc == "call" and (i.cname in ADD or i.cname == "strchr") and i.args.index(v) in (0, 2) and (i.cname != "strchr" or i.args[0] is v) and (i.cname == "strchr" or v is not a):
                    return True
                if i.opc in ("gep", "phi", "select"):
                    todo.append(i)
    return False
