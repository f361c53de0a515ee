"""C16: search terms combine as documented: ',' and, '/' or, '~' not, separate arguments and."""
import itertools, re
import searchview, sym, loopinfo
from build import AnalysisBroken
from sccp import Sccp, NZ
from vec import Vec, base_of
from util import strip

FLOOR = 20
B = lambda x: frozenset([x])


def find(p, f, V):
    """(hit0, hit1, hit2, hit3, args loop header, words loop header)"""
    loops = sym.loops(f)
    raw = [a for a in V.arrays if any(i.opc == "store" and V.array_of(i) is a and not V.cell(i) for i in f.insts())]
    flows = {}          # array -> arrays whose elements decide its new elements (same loop)
    for h, body in V.loops.items():
        rd = {V.cell(i) for b in body for i in b.insts if i.opc == "load" and V.cell(i)}
        wr = {V.cell(i) for b in body for i in b.insts if i.opc == "store" and V.cell(i)}
        for w in wr:
            flows.setdefault(w, set()).update(rd - {w})
    return raw, flows


def run(r, tier):
    p = searchview.view()
    f = p.fn("do_search")
    V = Vec(p, f)
    r.rule("terms of one argument: ',' requires both, '/' offers alternatives, '~' negates; all arguments are required; a term starts from no matches")
    raw, flows = find(p, f, V)
    chain = None
    for a0 in raw:
        for a1 in flows:
            if flows[a1] == {a0} and a1 is not a0:
                for a2 in flows:
                    if a2 not in (a0, a1) and a1 in flows[a2] and flows[a2] <= {a1, a0}:
                        for a3 in flows:
                            if a3 not in (a0, a1, a2) and a2 in flows[a3]:
                                chain = chain or (a0, a1, a2, a3)
    if chain is None:
        r.notes.append("the chain of per-message hit arrays was not recognised (arrays %d, flows %s)" % (len(V.arrays), {str(k): [str(x) for x in v] for k, v in flows.items()}))
        r.floor_waived = True
        return
    h0, h1, h2, h3 = chain
    loops = sym.loops(f)
    # loop over words: innermost non-element loop containing a memset of h0 / combination h1<-h0 twice nested
    c10 = [i for h, body in V.loops.items() for b in body for i in b.insts if i.opc == "store" and V.cell(i) is h1]
    c32 = [i for h, body in V.loops.items() for b in body for i in b.insts if i.opc == "store" and V.cell(i) is h3]
    outer = [(len(b), h, b) for h, b in loops.items() if h not in V.loops]

    def enclosing(bb):
        return [(h, b) for n, h, b in sorted(outer, key=lambda x: x[0]) if bb in b]
    argl = None
    for i in c32:
        e = enclosing(i.bb)
        if e:
            argl = e[0]
    if argl is None:
        r.notes.append("the loop over search arguments was not recognised")
        return
    ah, ab = argl
    wordl = None
    for i in c10:
        for h, b in enclosing(i.bb):
            if b < ab:
                wordl = (h, b)
                break
    if wordl is None:
        r.notes.append("the loop over the terms of an argument was not recognised")
        return
    wh, wb = wordl
    nm = {h0: "term", h1: "and-group", h2: "argument", h3: "result"}
    # coverage of the element loops
    for h, body in V.loops.items():
        wr = {V.cell(i) for b in body for i in b.insts if i.opc == "store" and V.cell(i)} & set(chain)
        if not wr or h not in ab:
            continue
        L = V.info[h]
        c = loopinfo.covers_from_zero(L)
        if c is None:
            r.notes.append("range of the loop at %s not recognised" % h.insts[-1].where)
            continue
        from c06 import bound_paths
        y = bound_paths(p, L)
        if y == {"read_db.n_msgs"}:
            r.require(c[0] == 0 and c[2] == 0 and not L.other_exits, "C16:loop:%s" % "+".join(sorted(nm[w] for w in wr)), "combination at %s covers every message" % h.insts[-1].where,
                      "%s (do_search): the combination step leaves out messages (covers [%s, n_msgs%+d)%s)" % (h.insts[-1].where, c[0], c[2], ", may stop early" if L.other_exits else ""))
    nload = {i for i in f.insts() if i.opc == "load" and p.s.paths(i) == {"read_db.n_msgs"}}
    neg = [i for i in f.insts() if i.opc == "icmp" and i.bb in wb and i.ops[1].kind == "int" and i.ops[1].c == 126 and i.pred in ("eq", "ne")]
    negloads = {strip(i.ops[0]) for i in neg}
    negloads |= {strip(s.ops[0]) for b in wb for s in b.insts if s.opc == "switch" and any(c == 126 for c, _ in s.cases)}
    seps = {}
    for c in f.calls("strchr", "strpbrk", "index", "memchr"):
        if c.bb in wb and len(c.args) >= 2 and c.args[1].kind == "int":
            seps.setdefault(chr(c.args[1].c & 255), set()).add(c)

    order = {}
    for b in wb:
        for i in b.insts:
            if i.opc == "icmp" and i.pred[1:] in ("lt", "le", "gt", "ge"):
                ks = []
                for o in i.ops:
                    o = strip(o)
                    ks.append(next((k for k, v in seps.items() if o in v), None))
                if set(ks) == {",", "/"}:
                    order[i] = ks[0]
    # the byte that decides whether there are more terms: read at the place where the next term starts
    nxt = set()
    for ph in wh.insts:
        if ph.opc == "phi" and ph.ty == "ptr":
            nxt |= {strip(v) for v, b in ph.inc if b in wb} - {ph}
    nextbyte = {i for b in wb for i in b.insts if i.opc == "load" and i.ty == "i8" and strip(i.ops[0]) in nxt}
    nextbyte = {i for i in nextbyte if any(u.opc == "icmp" and any(t.opc == "br" and t.succ and any(x is wh or x not in wb for x in t.succ) for t in u.users) for u in i.users)}

    def cell(i):
        # what the matchers store is left out: w stands for it
        c = V.cell(i)
        return None if c is h0 and i.opc == "store" else c

    def memrun(entry, init, avoid, pins, negv=None, orv=None, andv=None, w=None, reset=(), first=None, more=None):
        def pin(i):
            if more is not None and i in nextbyte:
                return B(120 if more else 0)
            if first and i in order:
                # ',' before '/' (first == ',') or after it
                lt = (order[i] == ",") == (first == ",")       # left operand is the earlier one
                return B(int(i.pred[1:2] == "l") if lt else int(i.pred[1:2] == "g"))
            if i in nload:
                return B(7)
            if w is not None and i.opc == "load" and V.cell(i) is h0:
                return B(w)
            if negv is not None and i in negloads:
                return B(126 if negv else 120)
            if orv is not None and i in seps.get("/", ()):
                return B(NZ if orv else 0)
            if andv is not None and i in seps.get(",", ()):
                return B(NZ if andv else 0)
            return None
        return Sccp(f, pin=pin, entry=entry, avoid=avoid, cell=cell, init=init, reset=reset, once=V.loops, effect=V.effect)

    def out(s, edges, a):
        got = set()
        n = 0
        for e in edges:
            if e in s.memout:
                n += 1
                y = s.memout[e].get(a)
                if y is None:
                    return None
                got |= {int(bool(z)) for z in y}
        return got if n else None

    def judge(key, got, allowed, txt, where):
        if got is None:
            r.notes.append("not resolved: " + txt)
            return
        # allowed: set of admissible outcomes; all of got must be admissible
        r.require(bool(got) and got <= allowed, "C16:" + key, "%s -> %s" % (txt, sorted(got)), "%s (do_search): %s gives %s instead of %s" % (where, txt, sorted(got), sorted(allowed)))

    arr = {h0: B(1), h1: B(0), h2: B(1), h3: B(0)}
    where = ah.insts[-1].where
    # S0: before the first argument every message is in
    s = Sccp(f, cell=V.cell, init={a: None for a in V.arrays}, avoid=[ah], effect=V.effect, once=V.loops)
    e_in = [(b, ah) for b in ah.preds if b not in ab]
    judge("start", out(s, e_in, h3), {1}, "before the first argument a message counts as found", where)
    # S1: at the first term of an argument
    for v3 in (0, 1):
        init = {h0: B(1), h1: B(0), h2: B(1), h3: B(v3)}
        s = memrun(ah, init, [wh], None, reset=[ah])
        e = [(b, wh) for b in wh.preds if b not in wb]
        judge("arg-start:and", out(s, e, h1), {1}, "an argument starts with its first and-group true", where)
        judge("arg-start:or", out(s, e, h2), {0}, "an argument starts with no alternative fulfilled", where)
        judge("arg-start:res", out(s, e, h3), {v3}, "starting an argument leaves the result of the earlier ones (%d)" % v3, where)
        # arguments without terms (dates, sizes, flags, message ids)
        for w in (0, 1):
            s = memrun(ah, init, [wh], None, w=w, reset=[ah])
            back = [(b, ah) for b in ah.preds if b in ab]
            judge("single", out(s, back, h3), {v3 & w}, "an argument that is %s on top of a result of %d" % ("fulfilled" if w else "not fulfilled", v3), where)
        # the term is judged on its own matches only
        s = memrun(ah, init, [wh], None, reset=[ah])
        back = [(b, ah) for b in ah.preds if b in ab]
        judge("single-fresh", out(s, back, h3), {0}, "an argument (date, size, flags, id) without any match", where)
    # S2: one term
    back = [(b, wh) for b in wh.preds if b in wb]
    # the way out of the words loop
    ex = [(b, t) for b in wb for t in b.succs if t not in wb and t in ab]
    edges = back + ex
    have_or, have_and = bool(seps.get("/")), bool(seps.get(","))
    for v1, v2, v3, w, n in itertools.product((0, 1), repeat=5):
        for orv, andv, first in ((0, 0, None), (1, 0, None), (0, 1, None), (1, 1, ","), (1, 1, "/")):
            init = {h0: B(1 - w) if False else B(1), h1: B(v1), h2: B(v2), h3: B(v3)}
            s = memrun(wh, init, [b for b in f.blocks if b not in wb], None, negv=n if negloads else None, orv=orv if have_or else None, andv=andv if have_and else None, w=w, reset=[wh], first=first)
            t = {w ^ n} if negloads else {0, 1}
            res_and = {(v1 & x, v2) for x in t}
            res_or = {(1, v2 | (v1 & x)) for x in t}
            opt = set()
            if have_or and have_and:
                if orv and not andv:
                    opt = res_or
                elif orv and andv:
                    opt = res_or | res_and if not order else res_and if first == "," else res_or
                else:
                    opt = res_and
            else:
                opt = res_or | res_and
            txt = "%sterm %s, and-group %d, argument %d%s" % ("~" if n else "", "matches" if w else "does not match", v1, v2,
                                                                 ", followed by '/'" if orv and not andv else ", followed by ','" if andv and not orv else ", followed by '%s' and a later '%s'" % (first, "," if first == "/" else "/") if orv else "")
            bad = None
            un = not any(e in s.memout for e in edges)
            for e in edges:
                if e in s.memout:
                    m = s.memout[e]
                    x1, x2, x3 = m.get(h1), m.get(h2), m.get(h3)
                    if x1 is None or x2 is None or x3 is None:
                        un = True
                        continue
                    g1, g2 = {int(bool(z)) for z in x1}, {int(bool(z)) for z in x2}
                    if not (g1 <= {a for a, b in opt} and g2 <= {b for a, b in opt}) or {int(bool(z)) for z in x3} != {v3}:
                        bad = (sorted(g1), sorted(g2))
            if un and bad is None:
                r.notes.append("not resolved: " + txt)
                continue
            r.require(bad is None, "C16:term:%s%s" % ("not" if n else "", "or" if orv else "and"), txt + " -> and-group,argument in %s" % sorted(opt),
                      "%s (do_search): %s: the and-group becomes %s and the argument %s; expected %s" % (wh.insts[-1].where, txt, bad and bad[0], bad and bad[1], sorted(opt)))
    # S2b: the terms after a separator are considered, and the list ends where the text ends
    if nextbyte and have_or and have_and:
        for orv, andv, n in itertools.product((0, 1), repeat=3):
            for more in (0, 1):
                for first in ([",", "/"] if orv and andv else [None]):
                    s = memrun(wh, {h0: B(1), h1: B(1), h2: B(0), h3: B(1)}, [b for b in f.blocks if b not in wb], None, negv=n if negloads else None, orv=orv, andv=andv, reset=[wh], first=first, more=more)
                    wrong = [e for e in (ex if more else back) if e in s.memout]
                    txt = "%s text left after %s" % ("more" if more else "no", "/".join(x for x, y in ((",", andv), ("/", orv)) if y) or "the last term")
                    if (more and not (orv or andv)):
                        continue
                    r.require(not wrong, "C16:next:%d" % more, txt + (": goes on to the next term" if more else ": ends the argument"),
                              "%s (do_search): with %s the %s" % (wrong and wrong[0][0].insts[-1].where, txt, "remaining terms can be ignored" if more else "argument does not end"))
    else:
        r.notes.append("the test for further terms was not recognised")
    if not negloads:
        r.bad("C16:negation", "do_search: no term is recognised as negated by '~'") if not any(
            i.opc in ("icmp", "switch") and "126" in str([o.c for o in i.ops if o.kind == "int"] + [c for c, _ in (i.cases or [])]) for b in ab for i in b.insts) else r.notes.append("negation not located")
    # a term starts from no matches: without the pin on h0, an unmatched term must leave 0
    for n in ((0, 1) if negloads else ()):
        init = {h0: B(1), h1: B(1), h2: B(0), h3: B(1)}
        s = memrun(wh, init, [b for b in f.blocks if b not in wb], None, negv=n, orv=0 if have_or else None, andv=0 if have_and else None, reset=[wh])
        judge("fresh", out(s, edges, h1), {n}, "%sterm without a match, after a term that matched" % ("~" if n else ""), wh.insts[-1].where)
    # S2c: finding a match in one part never takes back a match found in another
    for i in f.insts():
        if i.opc == "store" and V.array_of(i) is h0 and i.bb in ab and not V.cell(i):
            if i.ops[0].kind == "int":
                r.require(i.ops[0].c & 255 != 0, "C16:adds:%s" % i.where, "the match recorded at %s is not a removal" % i.where,
                          "%s (do_search): a matcher clears the mark of a message, dropping a match found in another part" % i.where)
            else:
                r.notes.append("value recorded at %s not constant" % i.where)
    for h, body in V.loops.items():
        st = [i for b in body for i in b.insts if i.opc == "store" and V.cell(i) is h0]
        if not st or h not in ab:
            continue
        s = Sccp(f, pin=lambda i: B(7) if i in nload else None, entry=h, avoid=[b for b in f.blocks if b not in body and b not in h.succs and not any(b in x.succs for x in body)], cell=V.cell, init={a: (B(1) if a is h0 else None) for a in V.arrays}, once=V.loops, effect=V.effect)
        got = set()
        for b in list(body):
            for t in b.succs:
                if t not in body and (b, t) in s.memout:
                    y = s.memout[(b, t)].get(h0)
                    got |= {None} if y is None else {int(bool(z)) for z in y}
        if None in got:
            # an unknown value is only a fault if it is stored without regard to what is there
            for i in st:
                v = strip(i.ops[0])
                if v.kind == "inst" and v.opc in ("call", "load") and V.cell(v) is not h0:
                    r.bad("C16:adds:%s" % i.where, "%s (do_search): a matcher overwrites the mark of a message, dropping a match found in another part" % i.where)
                else:
                    r.notes.append("value recorded at %s not resolved" % i.where)
            continue
        r.require(got <= {1}, "C16:adds:%s" % st[0].where, "the matcher at %s keeps matches found in other parts" % st[0].where,
                  "%s (do_search): a matcher can clear the mark of a message, dropping a match found in another part" % st[0].where)
    # S3: end of an argument
    for v1, v2, v3 in itertools.product((0, 1), repeat=3):
        for b, t in ex:
            s = memrun(t, {h0: B(1), h1: B(v1), h2: B(v2), h3: B(v3)}, [ah, wh] + [x for x in f.blocks if x not in ab], None)
            e = [(x, ah) for x in ah.preds if x in ab]
            judge("arg-end", out(s, e, h3), {v3 & (v1 | v2)}, "argument with and-group %d and earlier alternatives %d, result so far %d" % (v1, v2, v3), t.insts[0].where)
    r.scope = {"functions": ["do_search"], "element_loops": len(V.loops), "arrays": len(V.arrays), "separators": sorted(seps)}
