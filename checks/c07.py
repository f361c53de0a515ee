"""Layout of the database file: tables disjoint, everything inside the file."""
import re
from build import AnalysisBroken
import dbio, sym, loopinfo
from dbio import canon, TABLES
from lin import Lin
LEVEL = "other"
FLOOR = 30


def dom_of(q):
    m = re.match(r"database\.(\w+)\.(n|size)$", q)
    if m:
        return m.group(1)
    return {"database.n_msgs": "messages", "database.n_mboxen": "mailboxes"}.get(q)


class Growth:
    """per-iteration advance of an accumulator (integer or pointer) around each loop"""

    def __init__(self, W):
        self.W, self.p, self.f, self.L = W, W.p, W.f, W.L
        self.loops = sym.loops(self.f)
        self.dom = self.p.dom(self.f)
        self._d = {}
        self.notes = []

    def nm(self, l):
        """lin with atoms renamed to owner-independent names; None if an atom is unknown"""
        out = Lin()
        for a, c in l.items():
            if a == 1:
                k = 1
            else:
                v = self.L.val(a)
                if v.kind == "inst" and v.opc == "call" and v.cname == "strlen":
                    arg = v.args[0]
                    t = dbio.token_of(self.p, arg)
                    k = "strlen(token)" if t else "strlen(%s)" % "|".join(sorted(dbio.cpaths(self.p, arg)))
                else:
                    q = dbio.cpaths(self.p, v)
                    k = "|".join(sorted({re.sub(r"^.*\.(match\d)\.n$", r"\1.n", x) for x in q}))
                if "?" in k or "call:" in k:
                    return None
            out = out.add(Lin({k: c}))
        return out

    def bound(self, h):
        body = self.loops[h]
        Lp = loopinfo.counted(self.p.s, h, body, self.dom)
        if Lp is None or Lp.phi is None:
            return None
        c = loopinfo.covers_from_zero(Lp)
        if c is None:
            return None
        b, t = Lp.bound_exit
        cnd = b.term.ops[0]
        while cnd.kind == "inst" and cnd.opc == "xor":
            cnd = cnd.ops[0]
        if Lp.phi.ty == "ptr":
            ini = [v for v, pb in Lp.phi.inc if pb not in body]
            bk = [v for v, pb in Lp.phi.inc if pb in body]
            sz = self.L(bk[0]).add(Lin({("v", Lp.phi): 1}), -1).const if bk else 0
            for o in cnd.ops:
                l = self.L(o)
                if ("v", Lp.phi) not in l and len(ini) == 1 and sz > 0:
                    d = l.add(self.L(ini[0]), -1)
                    if all(c % sz == 0 for c in d.values()):
                        return Lin({a: c // sz for a, c in d.items()}), c
            return None
        for o in cnd.ops:
            l = self.L(o)
            if not any(a[0] == "v" and a[1].kind == "inst" and a[1].opc == "phi" for a in l.atoms()):
                return l, c
        return None

    def step(self, phi, t):
        """set of per-iteration advances (lins over renamed atoms) of a loop-header phi; None if unknown"""
        key = (phi, t)
        if key in self._d:
            return self._d[key]
        self._d[key] = None
        body = self.loops[phi.bb]
        out = set()
        for v, pb in phi.inc:
            if pb in body:
                d = self.delta(v, phi, t, pb)
                if d is None:
                    return None
                out |= d
        self._d[key] = frozenset(out)
        return self._d[key]

    def delta(self, v, phi, t, pb, depth=0):
        """possible values of v - phi (as frozen lins over renamed atoms)"""
        if depth > 30:
            return None
        l = self.L(v)
        ph = [a for a in l.atoms() if a[0] == "v" and a[1].kind == "inst" and a[1].opc == "phi" and a[1].ty == phi.ty and l[a] == 1]
        if len(ph) != 1:
            return None
        q = ph[0][1]
        rest = self.nm(l.add(Lin({ph[0]: 1}), -1))
        if rest is None:
            return None
        if q is phi:
            return {rest.key()}
        res = set()
        if q.bb in self.loops:
            ent = [(x, b) for x, b in q.inc if b not in self.loops[q.bb]]
            bd = self.bound(q.bb)
            st = self.step(q, t)
            if len(ent) != 1 or bd is None or st is None:
                return None
            base = self.delta(ent[0][0], phi, t, ent[0][1], depth + 1)
            if base is None:
                return None
            bl = self.nm(bd[0])
            for s in st:
                s = Lin(s)
                if s.atoms():
                    if bl is None or any(self.varying(a) for a in s.atoms()):
                        return None
                    return None
                add = bl.add(Lin({1: bd[1][2]})).scale(s.const) if bl is not None else None
                if add is None:
                    return None
                for b0 in base:
                    res.add(Lin(b0).add(add).add(rest).key())
            return res
        W = self.W
        for x, b in q.inc:
            if t is not None and t not in self.edge_types(b, q.bb):
                continue
            d = self.delta(x, phi, t, b, depth + 1)
            if d is None:
                return None
            for y in d:
                res.add(Lin(y).add(rest).key())
        return res

    def edge_types(self, b, s):
        from facts import narrow
        W = self.W
        cur = W.types.get(b, frozenset(W.MTY.values()))
        return narrow(b, s, lambda x: W.p.s.paths(x) == {"database.type[]"}, cur, cur)

    def varying(self, a):
        return True


def nonneg(l):
    return all(c >= 0 for c in l.values())


def run(r, tier):
    p = dbio.view()
    W = dbio.Writer(p)
    r.rule("for every pair of tables announced in the header, the end of one (start + entries written) is provably not beyond the start of the other, "
           "and none starts inside the header")
    r.rule("the text area starts at or after the end of every table; the file length is its start plus the bytes the length computation adds up")
    r.rule("for each message kind, mailbox and token, the bytes appended to the text area do not exceed the bytes accounted for")
    L = W.L
    G = Growth(W)
    nh = max(W.header) + 1
    # ---- tables with extents
    tabs = {}
    for rem, idx, sz, i in W.cells:
        ks = W.slot_of(rem, idx)
        for k in ks:
            (a, c), = idx.items() if len(idx) == 1 else ((None, 0),)
            if a is None:
                continue
            if a[1].bb not in G.loops:
                continue
            bd = G.bound(a[1].bb)
            if bd is None:
                r.notes.append("extent of the table at %s not recognised" % i.where)
                continue
            ext = bd[0].add(Lin({1: bd[1][2]})).scale(sz)
            tabs.setdefault(k, {})[ext.key()] = (rem, ext, i)
    text0 = None
    tl = []
    for k, es in sorted(tabs.items()):
        for rem, ext, i in es.values():
            tl.append((k, rem, ext, i))
            r.require(nonneg(rem.add(Lin({1: -4 * nh}))), "in-header:%d" % k, "table of word %d starts after the header" % k,
                      "the table of header word %d starts inside the %d-word header" % (k, nh))
    for x in range(len(tl)):
        for y in range(x + 1, len(tl)):
            k1, r1, e1, i1 = tl[x]
            k2, r2, e2, i2 = tl[y]
            if k1 == k2:
                continue
            g1 = r2.add(r1.add(e1), -1)
            g2 = r1.add(r2.add(e2), -1)
            r.require(nonneg(g1) or nonneg(g2), "overlap:%d-%d" % (k1, k2), "tables of words %d and %d are disjoint" % (k1, k2),
                      "the tables of header words %d (stores at %s) and %d (stores at %s) overlap" % (k1, i1.where, k2, i2.where))
    # ---- text area
    flen = W.mm.args[1]
    fl = L(flen)
    tslot = [k for k in W.slot_lin if any(1 in idx.values() and 4 not in idx.values() and k in W.slot_of(rem, idx) for rem, idx, sz, i in W.cells)]
    # pointer web: phis that carry the write position
    web, starts = set(), []
    st = [d for c, d, s in W.copies] + [i.ops[1] for i in W.f.insts() if i.opc == "store" and p.m.sizeof(i.ops[0].ty) == 1]
    seen = set()
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        if v.kind == "inst" and v.opc == "phi" and v.ty == "ptr":
            ok = any(L(x).get(W.atom) == 1 or (L(x).atoms() and True) for x, _ in v.inc)
            for x, _ in v.inc:
                st.append(x)
            web.add(v)
        elif v.kind in ("inst",) and v.opc == "gep":
            l = L(v)
            for a in l.atoms():
                if a[0] == "v" and a[1].kind == "inst" and a[1].opc == "phi" and a[1].ty == "ptr":
                    st.append(a[1])
            if l.get(W.atom) == 1:
                starts.append(v)
    # keep those connected to the mapping
    conn = {q for q in web if any(L(x).get(W.atom) == 1 for x, _ in q.inc)}
    ch = True
    while ch:
        ch = False
        for q in web - conn:
            if any(a[0] == "v" and a[1] in conn for x, _ in q.inc for a in L(x).atoms()):
                conn.add(q)
                ch = True
    web = conn
    wt = {}
    types = sorted(W.MTY.values())
    outer = lambda q: not any(q.bb in b and h is not q.bb for h, b in G.loops.items())
    for q in web:
        if q.bb not in G.loops or not outer(q):
            continue
        bd = G.bound(q.bb)
        d = None
        if bd is not None:
            d = {dom_of(x) for x in p.s.paths(L.val(bd[0].atoms()[0]))} if len(bd[0].atoms()) == 1 else None
        if not d or len(d) != 1 or None in d:
            r.notes.append("loop at %s advancing the text position not recognised" % q.where)
            continue
        d = d.pop()
        for t in (types if d == "messages" else [None]):
            s = G.step(q, t)
            wt.setdefault((d, t), []).append((s, q))
    # ---- accounted length
    at = [a for a in fl.atoms() if a[0] == "v" and a[1].kind == "inst" and a[1].opc == "phi"]
    base = Lin(fl)
    lt, iw, st = {}, set(), [a[1] for a in at]
    for a in at:
        base = base.add(Lin({a: fl[a]}), -1)
    while st:
        q = st.pop()
        if q in iw:
            continue
        iw.add(q)
        for x, b in q.inc:
            l = L(x)
            for a in l.atoms():
                if a[0] == "v" and a[1].kind == "inst" and a[1].opc == "phi" and l[a] == 1:
                    st.append(a[1])
    unk = []
    for q in iw:
        if q.bb in G.loops and outer(q):
            bd = G.bound(q.bb)
            ent = [x for x, b in q.inc if b not in G.loops[q.bb]]
            for x in ent:
                l = L(x)
                rest = Lin({a: c for a, c in l.items() if not (a != 1 and a[0] == "v" and a[1].kind == "inst" and a[1].opc == "phi")})
                base = base.add(rest)
            d = {dom_of(x) for x in p.s.paths(L.val(bd[0].atoms()[0]))} if bd is not None and len(bd[0].atoms()) == 1 else None
            if not d or len(d) != 1 or None in d:
                r.notes.append("length loop at %s not recognised" % q.where)
                unk.append(q)
                continue
            d = d.pop()
            for t in (types if d == "messages" else [None]):
                lt.setdefault((d, t), []).append((G.step(q, t), q))
    tn = {v: k for k, v in W.MTY.items()}
    tn[None] = ""
    # start of the text area: first write position minus nothing
    for v in {v for q in web for v, _ in q.inc if L(v).get(W.atom) == 1}:
        pos = L(v).add(Lin({W.atom: 1}), -1)
        for k, rem, ext, i in tl:
            r.require(nonneg(pos.add(rem.add(ext), -1)), "text-start:%d" % k, "the text area starts beyond the table of word %d" % k,
                      "the text area starts inside the table of header word %d" % k)
        g = base.add(pos, -1)
        r.require(nonneg(g), "text-base", "the file length covers everything before the text area (%s)" % L.show(base)[:120],
                  "the file length accounts for less than what precedes the text area: short by %s" % L.show(pos.add(base, -1)))
    if not at and fl.atoms():
        r.notes.append("file length not in accumulator form")
    for key in sorted(wt, key=str):
        ws, ls = wt[key], lt.get(key, [])
        if any(s is None for s, _ in ws):
            r.notes.append("bytes written per %s %s not recognised" % (key[0], tn[key[1]]))
            continue
        if not ls and unk:
            continue
        if any(s is None for s, _ in ls):
            r.notes.append("bytes accounted per %s %s not recognised" % (key[0], tn[key[1]]))
            continue
        wo, lo = combos([s for s, _ in ws]), combos([s for s, _ in ls])
        where = ws[0][1].where
        for w in wo:
            okk = any(nonneg(Lin(l).add(Lin(w), -1)) for l in lo)
            r.require(okk, "short:%s%s" % (key[0], ":" + tn[key[1]] if key[1] is not None else ""),
                      "per %s %s at most %s bytes are written and accounted for" % (key[0], tn[key[1]], fmt(w)),
                      "per %s %s up to %s bytes are written (%s) but only %s accounted for in the file length" %
                      (key[0], tn[key[1]], fmt(w), where, " or ".join(fmt(l) for l in lo) or "0"))
    # ---- consecutive texts: the position moves on by at least what was copied
    dom = p.dom(W.f)
    for c, d, s in W.copies:
        if c.cname not in ("memcpy", "llvm.memcpy.p0.p0.i64", "memmove") or not any(a[0] == "v" and a[1] in web for a in L(d).atoms()):
            continue
        n = L(c.args[2])
        nxt = []
        for q in web:
            for x, b in q.inc:
                if sym.dominates(dom, c.bb, b) or c.bb is b:
                    nxt.append((x, q))
        for x, q in nxt:
            adv = L(x).add(L(d), -1)
            if any(a[0] == "v" and a[1].kind == "inst" and a[1].opc == "phi" for a in adv.atoms()):
                continue
            if adv.key() == Lin().key() and q.bb not in G.loops:
                pass
            r.require(nonneg(adv.add(n, -1)), "overwrite:%s" % fmt((G.nm(n) or Lin()).key()), "position advances past the %s bytes copied at %s" % (L.show(n)[:60], c.where),
                      "%s bytes are copied at %s but the write position advances only by %s" % (L.show(n)[:80], c.where, L.show(adv)[:80]))
    r.scope = {"tables": len(tabs), "text_loops": sum(map(len, wt.values())), "length_loops": sum(map(len, lt.values()))}


def combos(sets):
    out = {Lin().key()}
    for s in sets:
        out = {Lin(a).add(Lin(b)).key() for a in out for b in s}
    return out


def fmt(k):
    return " + ".join(("%s*%s" % (c, a) if c != 1 else str(a)) if a != 1 else str(c) for a, c in sorted(k, key=str)) or "0"
