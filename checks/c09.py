"""C09: the list of messages of a word reads back exactly as it was recorded."""
import re
import bits, sym
from build import AnalysisBroken
from prog import inlined_prog, phi_edge_atoms, cv
from lin import Lins, Lin
from util import strip, leaves

FLOOR = 20
KEEP = {"insert_index_on_encoding", "check_and_enlarge_encoding", "int_list_reader_read", "int_list_reader_copy",
        "read_db_int_list_reader_init", "matches_int_list_reader_init", "add_token_in_file", "add_token2_in_file", "do_search",
        "cull_dead_messages", "write_database", "open_db", "new_database_from_file", "update_database", "find_threading", "search_top",
        "check_database_integrity", "dump_database", "data_to_rfc822", "tokenise_message", "imap_start", "new_token", "new_token2"}
BITOPS = ("and", "or", "shl", "lshr", "ashr", "xor", "trunc", "zext", "sext", "freeze")


def root(v):
    """the non-constant value whose bits make up v"""
    out, st, seen = set(), [v], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.kind == "inst" and (x.opc in BITOPS or x.opc == "add" and "int" in (x.ops[0].kind, x.ops[1].kind)):
            st.extend(x.ops)
        elif x.kind not in ("int",):
            out.add(x)
    return out


def walk(f, path):
    """phi choices along a block path"""
    ph = {}
    for a, b in zip(path, path[1:]):
        for i in b.insts:
            if i.opc != "phi":
                break
            for v, p in i.inc:
                if p is a:
                    ph[i] = v
    return ph


def resolve(v, ph):
    while True:
        if v in ph:
            v = ph[v]
        elif v.kind == "inst" and v.opc in ("zext", "sext", "freeze"):
            v = v.ops[0]
        else:
            return v


def encoder(r, p):
    """list of (lo, hi, [byte bit lists], root Val, path, facts)"""
    f = p.fn("insert_index_on_encoding")
    ps = bits.paths(f)
    if ps is None:
        raise AnalysisBroken("the list encoder has a loop; its cases cannot be enumerated")
    L = Lins(p)
    out = []
    for path in ps:
        if path[-1].term.opc != "ret":
            continue
        ph = walk(f, path)
        stores, upd, high = [], None, None
        for b in path:
            for i in b.insts:
                if i.opc != "store":
                    continue
                q = p.s.apath(i.ops[1], p.m.sizeof(i.ops[0].ty))
                if i.ops[0].ty == "i8":
                    stores.append(i)
                elif q == {"matches.n"}:
                    upd = i
                elif q == {"matches.highest"}:
                    if high is not None and not (p.s.paths(strip(high.ops[0])) == {"arg1"}):
                        pass
                    else:
                        high = i
        out.append((path, ph, stores, upd, high))
    return f, out, L


def interval(p, path, ph, V):
    """bounds on V (a non-negative quantity) along the path"""
    lo, hi = 0, (1 << 31) - 1
    for a, b in zip(path, path[1:]):
        for pred, x, y in phi_edge_atoms(a, b):
            if isinstance(x, int):
                continue
            for x_, y_, pr in ((x, y, pred), (y, x, {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult",
                                                     "ule": "uge", "uge": "ule"}.get(pred, pred))):
                if isinstance(x_, (int, tuple)) or cv(y_) is None:
                    continue
                k, sh, z = cv(y_), 0, x_
                while z is not V and z.kind == "inst":
                    if z in ph:
                        z = ph[z]
                    elif z.opc in ("ashr", "lshr") and z.ops[1].kind == "int":
                        sh += z.ops[1].c
                        z = z.ops[0]
                    elif z.opc in sym.CASTS:
                        z = z.ops[0]
                    else:
                        break
                if z is not V:
                    continue
                t = pr[1:] if pr[0] in "su" else pr
                if t == "le":
                    hi = min(hi, ((k + 1) << sh) - 1)
                elif t == "lt":
                    hi = min(hi, (k << sh) - 1)
                elif t == "ge":
                    lo = max(lo, k << sh)
                elif t == "gt":
                    lo = max(lo, (k + 1) << sh)
                elif t == "eq":
                    lo, hi = max(lo, k << sh), min(hi, ((k + 1) << sh) - 1)
    return lo, hi


def codec(r, p):
    r.rule("every recorded number (distance to the previous message) in every size class is stored as bytes from which the reader rebuilds exactly that number, over the whole range of the class")
    f, encs, L = encoder(r, p)
    g = p.fn("int_list_reader_read")
    rps = bits.paths(g)
    if rps is None:
        raise AnalysisBroken("the list reader has a loop; its cases cannot be enumerated")
    covered = []
    nmax = 0
    for path, ph, stores, upd, high in encs:
        if not stores:
            # nothing recorded: only when the message is already the last one recorded
            ok = False
            for a, b in zip(path, path[1:]):
                for pred, x, y in phi_edge_atoms(a, b):
                    if isinstance(x, int) or isinstance(y, (int, tuple)):
                        continue
                    px, py = p.s.paths(strip(x)), p.s.paths(strip(y))
                    if (px, py) in ((frozenset(["arg1"]), frozenset(["matches.highest"])), (frozenset(["matches.highest"]), frozenset(["arg1"]))):
                        pr = pred[1:] if pred[0] in "su" else pred
                        if px == {"matches.highest"}:
                            pr = {"le": "ge", "lt": "gt", "ge": "le", "gt": "lt"}.get(pr, pr)
                        if pr in ("le", "eq", "lt"):
                            ok = True
            nz = any(pred == "ne" and p.s.paths(strip(x)) == {"matches.n"} and cv(y) == 0 or pred in ("sgt", "ugt") and p.s.paths(strip(x)) == {"matches.n"} and cv(y) == 0
                     for a, b in zip(path, path[1:]) for pred, x, y in phi_edge_atoms(a, b) if not isinstance(x, int))
            r.require(ok and nz, "C09:skip", "%s: nothing is recorded only for a message already last in a non-empty list" % path[-1].term.where,
                      "insert_index_on_encoding (tok.c): a message can be left out of a list although it is not the one recorded last")
            continue
        base = L(stores[0].ops[1])
        offs = {}
        for i in stores:
            d = L(i.ops[1]).add(base, -1)
            if d.atoms():
                offs = None
                break
            offs[d.const] = i
        if offs is None:
            r.notes.append("%s: byte positions of an encoding not resolved" % stores[0].where)
            continue
        m = min(offs)
        offs = {k - m: v for k, v in offs.items()}
        first = L(offs[0].ops[1])
        n = len(offs)
        w = stores[0].where
        # starts at the end of the list
        end = [a for a in first.atoms()]
        nm = sorted(q for a in end for q in ([L.name(a)] if hasattr(L, "name") else []))
        r.require(sorted(offs) == list(range(n)), "C09:gap", "%s: %d consecutive bytes" % (w, n),
                  "%s (insert_index_on_encoding): the bytes of an entry are stored at positions %s" % (w, sorted(offs)))
        # V
        V = None
        roots = set()
        for i in stores:
            roots |= {resolve(x, ph) for x in root(i.ops[0])}
        if len(roots) != 1:
            r.notes.append("%s: encoded quantity not unique" % w)
            continue
        V = roots.pop()
        lo, hi = interval(p, path, ph, V)
        if lo > hi:
            continue
        # length accounted
        if upd is not None:
            d = None
            v = upd.ops[0]
            if v.kind == "inst" and v.opc == "add":
                a, b = [resolve(x, ph) for x in v.ops]
                k = a if a.kind == "int" else b if b.kind == "int" else None
                d = k.c if k is not None else None
                if d is not None:
                    # folded sums  n + c1 + c2
                    o = b if k is a else a
                    while o.kind == "inst" and o.opc == "add" and o.ops[1].kind == "int":
                        d += o.ops[1].c
                        o = o.ops[0]
            if d is None:
                r.notes.append("%s: growth of the list not resolved" % upd.where)
            else:
                r.require(d == n, "C09:length:%d" % n, "%s: list grows by the %d bytes stored" % (upd.where, n),
                          "%s (insert_index_on_encoding): %d bytes are stored but the list grows by %d" % (upd.where, n, d))
        else:
            r.bad("C09:length:none", "%s (insert_index_on_encoding): bytes are stored but the list length is not updated" % w)
        nmax = max(nmax, n)
        nb = hi.bit_length()
        B = bits.Bits({V: [("v", k) if k < nb else 0 for k in range(64)]})
        B.phi = ph
        enc = [B.get(offs[k].ops[0])[:8] for k in range(n)]
        # what V is
        vp = p.s.paths(V)
        isfirst = any(pred == "eq" and p.s.paths(strip(x)) == {"matches.n"} and cv(y) == 0 for a, b in zip(path, path[1:])
                      for pred, x, y in phi_edge_atoms(a, b) if not isinstance(x, int))
        if vp == {"arg1"}:
            r.require(isfirst, "C09:first", "%s: the number itself is stored only at the start of a list" % w,
                      "%s (insert_index_on_encoding): a message number is stored where a distance is expected" % w)
        elif vp == {"sub(arg1,matches.highest)"}:
            r.ok("%s: the distance to the last message is stored" % w)
        else:
            r.notes.append("%s: stored quantity %s" % (w, sorted(vp)))
        if isfirst or vp != {"arg1"}:
            covered.append((lo, hi, "first" if isfirst else "next"))
        if high is not None:
            r.require(p.s.paths(strip(high.ops[0])) == {"arg1"}, "C09:highest", "%s: last message remembered" % high.where,
                      "%s (insert_index_on_encoding): something else than the message just added is remembered as the last one" % high.where)
        else:
            r.bad("C09:highest:none", "%s (insert_index_on_encoding): the message added is not remembered as the last one of the list" % w)
        decode(r, p, g, rps, enc, n, nb, lo, hi, w)
    for kind in ("first", "next") if not r.notes else ():
        cs = sorted((lo, hi) for lo, hi, k in covered if k == kind)
        need = 0 if kind == "first" else 1
        for lo, hi in cs:
            if lo > need:
                break
            need = max(need, hi + 1)
        r.require(need >= 1 << 24, "C09:range:%s" % kind, "%s entries: all numbers up to %d are encodable" % (kind, need - 1),
                  "insert_index_on_encoding (tok.c): number %d cannot be recorded" % need)
    return nmax


def remaining(p, L, path):
    """(bytes known to be left on this path, bound k of a 'fewer than k left' exit)"""
    known, fewer = 0, None
    for a, b in zip(path, path[1:]):
        for pred, x, y in phi_edge_atoms(a, b):
            if isinstance(x, int) or isinstance(y, (int, tuple)):
                continue
            d = L(x).add(L(y), -1)
            nm = {L.name(z).split(".")[-1]: c for z, c in d.items() if z != 1}
            if set(nm) != {"pos", "end"} or nm["pos"] != -nm["end"]:
                continue
            pr = pred[1:] if pred[0] in "su" else pred
            k = d.const
            if nm["pos"] == -1:       # end - pos + k  pr  0
                k = -k
                pr = {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(pr, pr)
            # pos - end + k pr 0
            if pr == "gt":
                fewer = k
            elif pr == "ge":
                fewer = k + 1
            elif pr == "le":
                known = max(known, k)
            elif pr == "lt":
                known = max(known, k + 1)
            elif pr == "ne" and k == 0:
                known = max(known, 1)
            elif pr == "eq" and k == 0:
                fewer = 1
    return known, fewer


def decode(r, p, g, rps, enc, n, nb, lo, hi, w):
    L = Lins(p)
    good = False
    for path in rps:
        if path[-1].term.opc != "ret":
            continue
        ph = walk(g, path)
        env = {}
        for b in path:
            for i in b.insts:
                if i.opc == "load" and i.ty == "i8":
                    q = L(i.ops[0])
                    k = q.const
                    if [L.name(a) for a in q.atoms()] and k < 8:
                        env[i] = enc[k] if k < n else [None] * 8
        B = bits.Bits(env)
        B.phi = ph
        feasible, ends = True, False
        for a, b in zip(path, path[1:]):
            t = a.term
            if t.opc == "br" and len(t.succ) == 2:
                tr = B.truth(t.ops[0])
                taken = int(t.succ[0] is b)
                if tr is not None and tr != taken:
                    feasible = False
                    break
                if tr is None:
                    # not decided by the bytes: end-of-data test, or the end mark
                    c = t.ops[0]
                    if any(o in env or strip(o) in env for o in c.ops) and taken == int(c.pred == "eq"):
                        ends = "mark"
        if not feasible:
            continue
        rv = path[-1].term.ops[0]
        rv = resolve(rv, ph)
        if rv.kind == "int" and rv.c == 0:
            if ends == "mark":
                r.require(n >= 4, "C09:mark:%d" % n, "%s: end mark cannot be mistaken in %d-byte entries" % (w, n),
                          "%s: a %d-byte entry can begin with the byte that marks the end of a list" % (w, n))
            else:
                k = remaining(p, L, path)
                if k[1] is None:
                    r.bad("C09:reject:%d" % n, "%s (int_list_reader_read): entries of %d bytes can be rejected although they lie inside the data" % (path[-1].term.where, n))
                else:
                    r.require(k[1] <= n, "C09:reject:%d" % n, "%s: %d-byte entries rejected only at the end of the data" % (w, n),
                              "%s (int_list_reader_read): entries of %d bytes are rejected when fewer than %d bytes are left" % (path[-1].term.where, n, k[1]))
            continue
        good = True
        k = remaining(p, L, path)
        r.require(k[0] >= n, "C09:overrun:%d" % n, "%s: %d-byte entries read only if that many bytes are left" % (w, n),
                  "int_list_reader_read (reader.c): an entry of %d bytes is read when only %d bytes are known to be left" % (n, k[0]))
        # result and advance
        for b in path:
            for i in b.insts:
                if i.opc != "store":
                    continue
                q = p.s.apath(i.ops[1], p.m.sizeof(i.ops[0].ty))
                if q == {"int_list_reader.pos"}:
                    d = L(i.ops[0])
                    r.require(d.const == n, "C09:advance:%d" % n, "%s: reader advances by %d" % (i.where, n),
                              "%s (int_list_reader_read): the reader advances by %d over an entry of %d bytes" % (i.where, d.const, n))
                elif q == {"int_list_reader.accumulator"}:
                    v = i.ops[0]
                    if v.kind == "inst" and v.opc == "add":
                        acc = [o for o in v.ops if p.s.paths(strip(o)) == {"int_list_reader.accumulator"}]
                        inc = [o for o in v.ops if o not in acc]
                        if len(acc) == 1 and inc:
                            got = B.get(inc[0])[:32]
                            want = [("v", k) if k < nb else 0 for k in range(32)]
                            r.require(got == want, "C09:value:%d" % n, "%s: %d-byte entries decode to the number encoded (%d..%d)" % (i.where, n, lo, hi),
                                      "%s (int_list_reader_read): numbers from %d to %d, stored in %d bytes (%s), do not read back as recorded" % (i.where, lo, hi, n, w))
                        else:
                            r.notes.append("%s: how the distance is added is not resolved" % i.where)
                    else:
                        r.bad("C09:accumulate", "%s (int_list_reader_read): the distance read is not added to the previous message number" % i.where)
                elif q == {"arg1"}:
                    r.require(strip(i.ops[0]) is not None and ("int_list_reader.accumulator" in "".join(p.s.paths(i.ops[0]))), "C09:result", "%s: result is the accumulated number" % i.where,
                              "%s (int_list_reader_read): the result is not the accumulated message number" % i.where)
    r.require(good, "C09:unread:%d" % n, "%s: %d-byte entries are read" % (w, n), "int_list_reader_read (reader.c): entries of %d bytes (%s) are never returned" % (n, w))


def capacity(r, p, nmax):
    r.rule("room for a whole entry is ensured before every addition to a list, on the same list")
    for f in p.defined():
        dom = None
        for c in f.calls("insert_index_on_encoding"):
            dom = dom or p.dom(f)
            k = p.s.expr(c.args[0])
            pre = [e for e in f.calls("check_and_enlarge_encoding") if sym.inst_dominates(dom, e, c) and p.s.expr(e.args[0]) == k]
            ins = [e for e in f.calls("insert_index_on_encoding") if e is not c and p.s.expr(e.args[0]) == k and sym.inst_dominates(dom, e, c)]
            ok = any(not any(sym.inst_dominates(dom, e, x) for x in ins) for e in pre)
            # a path from the check to the insertion that passes another insertion on the same list
            if ok:
                others = {e.bb for e in f.calls("insert_index_on_encoding") if p.s.expr(e.args[0]) == k}
                e = [e for e in pre][-1]
                # within a loop the check must be repeated: no cycle through c avoiding every check
                back = sym.reach(c.bb.succs, stop={x.bb for x in pre})
                if c.bb in back and c.bb not in {x.bb for x in pre}:
                    ok = False
            r.require(ok, "C09:room:%s:%s" % (f.name, ",".join(sorted(p.s.paths(c.args[0])))), "%s (%s): room ensured before adding" % (c.where, f.name),
                      "%s (%s): a list is added to without making sure there is room for the entry" % (c.where, f.name))
    if not p.has("check_and_enlarge_encoding"):
        return
    f = p.fn("check_and_enlarge_encoding")
    L = Lins(p)
    # the branch that skips growing implies max - n >= nmax
    grow = [c for c in f.calls("realloc", "malloc")]
    if not grow:
        raise AnalysisBroken("check_and_enlarge_encoding allocates nothing")
    gb = {c.bb for c in grow}
    ok = None
    for b in f.blocks:
        if b.term.opc == "br" and len(b.term.succ) == 2:
            for s in b.succs:
                if sym.reach([s]) & gb:
                    continue
                for pred, x, y in phi_edge_atoms(b, s):
                    if isinstance(x, int) or isinstance(y, (int, tuple)):
                        continue
                    d = L(y).add(L(x), -1)   # y - x
                    nm = {L.name(a): c for a, c in d.items() if a != 1}
                    pr = pred[1:] if pred[0] in "su" else pred
                    mx = next((k for k in nm if k.endswith("matches.max")), None)
                    nn = next((k for k in nm if k.endswith("matches.n")), None)
                    if mx and nn and nm[mx] == -nm[nn]:
                        # sign: y-x = s*(max-n) + const
                        sgn = nm[mx]
                        room = None
                        if sgn == 1 and pr in ("lt", "le"):      # x < y : max-n+const > 0
                            room = (1 if pr == "lt" else 0) - d.const
                        elif sgn == -1 and pr in ("gt", "ge"):   # x > y : y-x<0
                            room = d.const + (1 if pr == "gt" else 0)
                        if room is not None:
                            ok = room
    if ok is None:
        r.notes.append("check_and_enlarge_encoding: condition for growing not resolved")
    else:
        r.require(ok >= nmax, "C09:threshold", "room for %d bytes whenever the list is not enlarged (an entry needs %d)" % (ok, nmax),
                  "check_and_enlarge_encoding (tok.c): the list is left as it is with room for only %d bytes, an entry takes up to %d" % (ok, nmax))
    # new capacity and allocation agree, everywhere
    r.rule("the capacity recorded for a list is what was allocated for it")
    for g in p.defined():
        for i in g.insts():
            if i.opc == "store" and p.s.apath(i.ops[1], p.m.sizeof(i.ops[0].ty)) & {"matches.max", "token.match0.max", "token2.match0.max", "token2.match1.max"}:
                v = i.ops[0]
                w = "%s (%s)" % (i.where, g.name)
                if v.kind == "int":
                    r.require(v.c == 0 or v.c >= nmax, "C09:cap:const:%s" % g.name, "%s: capacity %d" % (w, v.c), "%s: capacity %d cannot hold an entry" % (w, v.c))
                    continue
                q = "|".join(sorted(p.s.paths(v)))
                m = re.search(r"(?:lshr|ashr)\((\S*max),#(\d+)\)", q)
                if m and "add(" in q:
                    r.require(int(m.group(2)) <= 2, "C09:cap:growth:%s" % g.name, "%s: capacity grows by a fraction (1/%d) of at least 16" % (w, 1 << int(m.group(2))),
                              "%s: growing by 1/%d of the capacity may leave no room for an entry" % (w, 1 << int(m.group(2))))
    # allocation size = recorded capacity
    for g in p.defined():
        for i in g.insts():
            if i.opc != "store" or i.ops[0].ty != "ptr":
                continue
            q = p.s.apath(i.ops[1], 8)
            if not any(x in ("matches.msginfo",) or x.endswith(("match0.msginfo", "match1.msginfo")) for x in q):
                continue
            c = i.ops[0]
            if c.kind != "inst":
                continue
            src = [x for x in leaves(c) if x.kind == "inst" and x.opc == "call" and x.cname in ("malloc", "realloc", "calloc")]
            for a in src:
                szv = a.args[1] if a.cname == "realloc" else a.args[0]
                b0, st0 = p.s.gepsteps(i.ops[1])
                mx = [j for j in g.insts() if j.opc == "store" and j.ops[0].ty in ("i32", "i64") and any(x.endswith(".max") for x in p.s.apath(j.ops[1], p.m.sizeof(j.ops[0].ty)))
                      and p.s.gepsteps(j.ops[1])[0] is b0]
                vals = {p.s.expr(strip(j.ops[0])) for j in mx}
                sx = p.s.expr(strip(szv))
                alt = {q2 for q2 in p.s.paths(szv)}
                ok = sx in vals or any(x.endswith(".max") for x in alt)
                if mx or any(x.endswith(".max") for x in alt):
                    r.require(ok, "C09:alloc:%s" % g.name, "%s (%s): allocation has the recorded capacity" % (a.where, g.name),
                              "%s (%s): the list is allocated with a size other than the capacity recorded" % (a.where, g.name))
                else:
                    r.notes.append("%s: allocation size %s not matched" % (a.where, sorted(alt)))


def ends(r, p):
    r.rule("a stored list ends with the mark the reader stops at; reading starts at zero; a re-read list keeps all bytes and its last message")
    g = p.fn("int_list_reader_read")
    marks = set()
    for i in g.insts():
        if i.opc == "icmp" and i.ops[1].kind == "int" and strip(i.ops[0]).kind == "inst" and strip(i.ops[0]).opc == "load" and strip(i.ops[0]).ty == "i8":
            marks.add(i.ops[1].c & 0xff)
    f = p.fn("write_database")
    L = Lins(p)
    n = 0
    for c in f.calls():
        if c.cname not in ("memcpy", "llvm.memcpy.p0.p0.i64", "memmove"):
            continue
        if not any(q.endswith("msginfo") for q in p.s.paths(c.args[1])) and "msginfo" not in str(p.s.paths(c.args[1])):
            continue
        end = L(c.args[0]).add(L(c.args[2]))
        st = [i for i in f.insts() if i.opc == "store" and i.ops[0].ty == "i8" and L(i.ops[1]).key() == end.key()]
        n += 1
        r.require(len(st) >= 1 and all(i.ops[0].kind == "int" and (i.ops[0].c & 0xff) in marks for i in st), "C09:endmark:%d" % n,
                  "%s: list ends with the mark the reader stops at" % c.where,
                  "%s (write_database): the list copied here is not followed by the end mark the reader stops at (%s)" % (c.where, sorted(marks)))
    if n == 0:
        r.notes.append("no copy of message lists found in write_database")
    for nm in ("read_db_int_list_reader_init", "matches_int_list_reader_init"):
        if not p.has(nm):
            continue
        f = p.fn(nm)
        st = {}
        for i in f.insts():
            if i.opc == "store":
                for q in p.s.apath(i.ops[1], p.m.sizeof(i.ops[0].ty)):
                    st[q.split(".")[-1]] = i.ops[0]
        r.require("accumulator" in st and st["accumulator"].kind == "int" and st["accumulator"].c == 0, "C09:init:%s" % nm, "%s: starts from zero" % nm,
                  "%s (reader.c): the running message number does not start at zero" % nm)
        if nm.startswith("matches") and "end" in st:
            q = L(st["end"])
            nmz = sorted(L.name(a) for a in q.atoms())
            r.require(q.const == 0 and any(x.endswith(".n") for x in nmz) and any("msginfo" in x for x in nmz), "C09:init:end", "%s: ends after the recorded bytes" % nm,
                      "%s (reader.c): the end of a list in memory is taken to be %s" % (nm, L.show(q)))
    if p.has("int_list_reader_copy"):
        f = p.fn("int_list_reader_copy")
        for i in f.insts():
            if i.opc == "store" and p.s.apath(i.ops[1], p.m.sizeof(i.ops[0].ty)) == {"matches.n"}:
                v = strip(i.ops[0])
                cp = [c for c in f.calls() if c.cname in ("memcpy", "llvm.memcpy.p0.p0.i64")]
                dom = p.dom(f)
                rd = [c for c in f.calls("int_list_reader_read")]
                if v.kind == "inst" and v.opc == "sub" and rd:
                    a, b = strip(v.ops[0]), strip(v.ops[1])
                    isp = lambda x: x.kind == "inst" and x.opc == "load" and p.s.paths(x) == {"int_list_reader.pos"}
                    r.require(isp(a) and isp(b) and all(sym.inst_dominates(dom, b, c) and not sym.inst_dominates(dom, a, c) for c in rd), "C09:copy:n", "%s: all bytes read are kept" % i.where,
                              "%s (int_list_reader_copy): the number of bytes kept is not the distance from where reading began to where it ended" % i.where)
                else:
                    r.notes.append("%s: number of bytes kept not resolved" % i.where)
                for c in cp:
                    k = p.s.paths(strip(c.args[2]))
                    r.require(p.s.expr(strip(c.args[2])) == p.s.expr(strip(i.ops[0])) or k == {"matches.n"}, "C09:copy:bytes", "%s: copies the bytes recorded" % c.where,
                              "%s (int_list_reader_copy): copies %s bytes" % (c.where, sorted(k)))


    if p.has("int_list_reader_copy"):
        f = p.fn("int_list_reader_copy")
        dom = p.dom(f)
        rd = [c for c in f.calls("int_list_reader_read")]
        for i in f.insts():
            if i.opc == "store" and p.s.apath(i.ops[1], p.m.sizeof(i.ops[0].ty)) & {"matches.highest"}:
                v = strip(i.ops[0])
                cell = v.ops[0] if v.kind == "inst" and v.opc == "load" else None
                if cell is None or cell.opc != "alloca":
                    r.notes.append("%s: last message of a re-read list not resolved" % i.where)
                    continue
                r.require(any(strip(c.args[1]) is cell for c in rd), "C09:copy:highest", "%s: last message is the last one read" % i.where,
                          "%s (int_list_reader_copy): the last message of a re-read list is not the last one read" % i.where)
                ini = [u for u in cell.users if u.opc == "store" and u.ops[1] is cell and sym.inst_dominates(dom, u, v)]
                r.require(bool(ini), "C09:copy:empty", "%s: defined for an empty list" % i.where,
                          "%s (int_list_reader_copy): for an empty list the last message is an uninitialised value" % i.where)


def run(r, tier):
    p = inlined_prog(keep=KEEP)
    nmax = codec(r, p)
    capacity(r, p, nmax)
    ends(r, p)
    r.scope = {"units": len(p.built.units), "functions": ["insert_index_on_encoding", "int_list_reader_read", "int_list_reader_copy", "write_database"]}
