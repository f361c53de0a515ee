"""C11: seen / replied / flagged marks are carried faithfully from the mail store to searches and results."""
import re
from collections import defaultdict
import sym, tokview, searchview, dbio
from build import AnalysisBroken
from prog import inlined_prog
from sccp import Sccp, NZ
from util import strip

FLOOR = 20
ATTR = ("seen", "replied", "flagged")


def char_loads(f, want, also=()):
    """loads compared with all the characters in `want`"""
    cmpv = defaultdict(set)
    for i in f.insts():
        if i.opc == "icmp" and i.ops[1].kind == "int":
            cmpv[strip(i.ops[0])].add(i.ops[1].c)
        elif i.opc == "switch":
            cmpv[strip(i.ops[0])] |= {c for c, _ in i.cases}
    w = set(map(ord, want))
    return [v for v, cs in cmpv.items() if w <= cs and not (set(map(ord, also)) & cs) and v.kind == "inst"]


def layout(p, st, pre=""):
    """{attr: (byte offset, bit)} of the bit-field members"""
    out = {}
    for n, o, s, b in p.t.comp.get(st, ()):
        m = n.split(".")[-1]
        if b and m in ATTR:
            out[m] = o
    return out


def cells(p, f, st, names):
    """cell(inst) for accesses to the bit-field bytes of struct st (paths ending in one of names)"""
    memo = {}

    def cell(i):
        if i not in memo:
            ptr = i.ops[1] if i.opc == "store" else i.ops[0]
            ty = i.ops[0].ty if i.opc == "store" else i.ty
            memo[i] = "F" if any(re.search(r"(^|\.)(%s)$" % "|".join(map(re.escape, names)), q) for q in p.s.apath(ptr, p.m.sizeof(ty))) else None
        return memo[i]
    return cell


def inner_loop(f, b):
    L = [(len(body), h, body) for h, body in sym.loops(f).items() if b in body]
    return min(L, key=lambda x: x[0])[1:] if L else (None, None)


def word(bits, base, attrs):
    return sum(1 << (bits[a] - base) for a in attrs)


def subsets():
    return [[a for k, a in enumerate(ATTR) if n >> k & 1] for n in range(8)]


def show(a):
    return "+".join(a) or "none"


def letters(r, p, fname, cellnames, st, mapping, what):
    """letters seen by a scanning loop set exactly the attribute they stand for"""
    f = p.fn(fname)
    cell = cells(p, f, st, cellnames)
    stores = [i for i in f.insts() if i.opc == "store" and cell(i)]
    if not stores:
        r.bad("C11:%s:none" % what, "%s (%s) never records seen/replied/flagged" % (what, fname))
        return
    bits = layout(p, st)
    base = min(bits.values()) // 8 * 8
    full = word(bits, base, ATTR)
    want = "".join(mapping)
    ls = [v for v in char_loads(f, want)]
    if not ls:
        # a letter that is compared with nothing any more?
        seen = defaultdict(set)
        for c in want:
            for v in char_loads(f, c):
                seen[v].add(c)
        best = [(v, s) for v, s in seen.items() if len(s) >= 2 and any(v.bb is s2.bb or True for s2 in stores)]
        ns = [s for v, s in best if reach_sets(f, v, stores)]
        if ns and len(max(ns, key=len)) == 2:
            miss = set(want) - max(ns, key=len)
            r.bad("C11:%s:letter:%s" % (what, "".join(miss)), "%s (%s): the letter %s is not recognised" % (what, fname, "".join(sorted(miss))))
        else:
            r.notes.append("%s: how the letters are told apart was not recognised" % what)
        return
    for v in ls:
        res = {}
        for c in [None] + list(mapping):
            x = 0x78 if c is None else ord(c)
            s = Sccp(f, pin=lambda i: frozenset([x]) if i is v or i.opc == "load" and i.ty == "i8" and i.ops[0] is v.ops[0] and v.opc == "load" else None, cell=cell, init={"F": frozenset([0])})
            got = set()
            for t in stores:
                if s.reaches(t):
                    y = s.get(t.ops[0])
                    if y is None:
                        got.add(None)
                    else:
                        got |= {z & full for z in y}
            res[c] = got
        if any(None in g for g in res.values()):
            r.notes.append("%s: values stored not resolved (letters read at %s)" % (what, v.where))
            continue
        names = {word(bits, base, s): show(s) for s in subsets()}
        other = res[None] - {0}
        if len(ls) == 1:
            r.require(not other, "C11:%s:other" % what, "%s: other letters set nothing (%s)" % (what, v.where),
                      "%s (%s, %s): an unrelated letter marks messages as %s" % (what, fname, v.where, [names.get(o, o) for o in other]))
        for c, a in mapping.items():
            wv = word(bits, base, [a])
            g = res[c] - {0} - (other if len(ls) > 1 else set())
            r.require(wv in g | (res[c] if len(ls) > 1 else set()), "C11:%s:%s" % (what, c), "%s: letter %s marks the message %s" % (what, c, a),
                      "%s (%s, %s): the letter %s does not mark a message as %s" % (what, fname, v.where, c, a))
            if len(ls) == 1:
                r.require(g <= {wv}, "C11:%s:%s:extra" % (what, c), "%s: letter %s marks nothing else" % (what, c),
                          "%s (%s, %s): the letter %s marks a message as %s" % (what, fname, v.where, c, [names.get(o, o) for o in g - {wv}]))
    return ls, stores, bits, base, full, cell


def reach_sets(f, v, stores):
    """is some store controlled by v?"""
    a = Sccp(f, pin=lambda i: frozenset([0x78]) if i is v else None)
    return any(not a.reaches(s) for s in stores)


def maildir(r, p):
    x = letters(r, p, "update_database", ["msgpath.bits@48", "bits@48"] if False else bitnames(p, "msgpath"), "msgpath", {"S": "seen", "R": "replied", "F": "flagged"}, "Maildir name")
    if not x:
        return
    ls, stores, bits, base, full, cell = x
    f = p.fn("update_database")
    # only the ":2," information part counts
    cmps = [c for c in f.calls("strncmp", "memcmp", "strcmp") if any(a.s == b":2," or a.s == ":2," or str(a.s) == ":2," for a in c.args if a.kind in ("global", "str"))]
    if cmps:
        for c in cmps:
            if len(c.args) == 3 and c.args[2].kind == "int":
                r.require(c.args[2].c == 3, "C11:Maildir name:info", "%s: the part is recognised by the three characters ':2,'" % c.where, "%s: only %d characters of ':2,' are compared" % (c.where, c.args[2].c))
        s = Sccp(f, pin=lambda i: frozenset([1]) if i in cmps else None, cell=cell, init={"F": frozenset([0])})
        bad = [t for t in stores if s.reaches(t) and (s.get(t.ops[0]) is None or any(z & full for z in s.get(t.ops[0])))]
        r.require(not bad, "C11:Maildir name:anywhere", "letters count only behind ':2,'", "%s: letters of a file name without ':2,' mark the message" % (bad[0].where if bad else ""))
    else:
        r.notes.append("no comparison with ':2,' recognised")
    # marks of a previous occupant of the slot do not survive
    v = ls[0]
    s = Sccp(f, pin=lambda i: frozenset([0x78]) if i in ls else None, cell=cell, init={"F": frozenset([full])})
    zero = any(s.reaches(t) and s.get(t.ops[0]) is not None and any(not (z & full) for z in s.get(t.ops[0])) for t in stores)
    r.require(zero, "C11:Maildir name:clear", "marks start out cleared for a new message", "update_database: seen/replied/flagged are not all cleared before a new message's name is scanned")


def bitnames(p, st):
    bits = layout(p, st)
    if not bits:
        raise AnalysisBroken("no seen/replied/flagged members in struct %s" % st)
    out = set()
    base = min(bits.values()) // 8
    for sz in (1, 2, 4):
        out.add(p.t.field(st, base, sz))
    return sorted(out)


def status(r, p):
    letters(r, p, "data_to_rfc822", [("hdrs." + n) for n in bitnames(p, "headers")] + [n for n in bitnames(p, "headers")], "headers", {"R": "seen", "A": "replied", "F": "flagged"}, "Status header")


def copy_marks(r, p, fname, src, srcbits, cellnames, dbits, what, pinx=None, outmask=None):
    """src(inst) says the load holds the source marks; every combination arrives unchanged"""
    f = p.fn(fname)
    cell = cells(p, f, "x", cellnames) if not callable(cellnames) else cellnames
    stores = [i for i in f.insts() if i.opc == "store" and cell(i)]
    if not stores:
        r.bad("C11:%s:none" % what, "%s (%s) does not carry the marks over" % (what, fname))
        return
    loads = {i for i in f.insts() if i.opc == "load" and src(i)}
    if not loads:
        r.bad("C11:%s:none" % what, "%s (%s) does not look at the marks" % (what, fname))
        return
    h, body = inner_loop(f, stores[-1].bb)
    sb = min(srcbits.values()) // 8 * 8
    db = min(dbits.values()) // 8 * 8
    full = word(dbits, db, ATTR)
    lat = [b for b in (body or ()) if h in b.succs] if h is not None else []
    n = 0
    for k in ([0, full] if True else [0]):
        for a in subsets():
            w = word(srcbits, sb, a)

            def pin(i):
                if i in loads:
                    return frozenset([w])
                return pinx(i) if pinx else None
            s = Sccp(f, pin=pin, cell=cell, init={"F": frozenset([k])}, reset=[h] if h else [])
            got, un = set(), False
            ends = [s.memout[(b, h)] for b in lat if (b, h) in s.memout] if lat else [s.memout.get(e) for e in s.memout]
            for st in ends:
                y = st and st.get("F")
                if y is None:
                    un = True
                else:
                    got |= {z & full for z in y}
            if un or not ends:
                r.notes.append("%s: result for marks %s not resolved" % (what, show(a)))
                continue
            wv = word(dbits, db, a)
            stale = wv | (k & full)
            if got == {wv}:
                n += 1
                r.ok("%s: marks %s arrive as %s" % (what, show(a), show(a)))
                continue
            if wv in got and k and got <= {wv, k & full}:
                r.notes.append("%s: a path on which the marks are not copied exists" % what)
                continue
            names = {word(dbits, db, s_): show(s_) for s_ in subsets()}
            r.bad("C11:%s:%s" % (what, show(a)), "%s (%s, %s): a message marked %s is recorded as %s%s" %
                  (what, fname, stores[0].where, show(a), sorted(names.get(g, hex(g)) for g in got), " when the slot held other marks before" if k else ""))


def database(r):
    p = dbio.view()
    W, I = dbio.Writer(p), dbio.Importer(p)
    mb = layout(p, "msgpath")
    mname = bitnames(p, "msgpath")
    mcell = cells(p, W.f, "msgpath", mname)
    # writer: which bit of the byte stands for which mark
    bstores = {i for rem, idx, sz, i in W.cells if sz == 1 and any(q.endswith("]") or True for q in [""])}
    f = W.f
    byt = [i for i in bstores]
    tstores = [i for i in byt if i.ops[0].kind == "int"]
    # the type/flag byte: its stores, and the loads of the same address
    addr = {}
    from lin import Lins
    L = W.L
    keys = {L(i.ops[1]).key() for i in tstores}
    if not keys:
        r.notes.append("the byte holding kind and marks was not recognised in the writer")
        return None

    def wcell(i):
        ptr = i.ops[1] if i.opc == "store" else i.ops[0]
        ty = i.ops[0].ty if i.opc == "store" else i.ty
        return "F" if ty == "i8" and L(ptr).key() in keys else None
    memo = {}

    def wc(i):
        if i not in memo:
            memo[i] = wcell(i)
        return memo[i]
    stores = [i for i in f.insts() if i.opc == "store" and wc(i)]
    h, body = inner_loop(f, stores[-1].bb)
    lat = [b for b in body if h in b.succs]
    loads = {i for i in f.insts() if i.opc == "load" and mcell(i)}
    tloads = {i for i in f.insts() if i.opc == "load" and p.s.paths(i) == {"database.type[]"}}
    base = min(mb.values()) // 8 * 8
    bitof = {}
    out = {}
    for a in subsets():
        w = word(mb, base, a)
        got = set()
        for kind in W.MTY.values():
            s = Sccp(f, pin=lambda i: frozenset([w]) if i in loads else frozenset([kind]) if i in tloads else None, cell=wc, init={"F": frozenset([0xff])}, reset=[h])
            for b in lat:
                if (b, h) in s.memout:
                    y = s.memout[(b, h)].get("F")
                    got |= {None} if y is None else {z & 0xff for z in y}
        out[tuple(a)] = got
    if any(None in g or not g for g in out.values()):
        r.notes.append("writer: byte with kind and marks not resolved")
        return None
    low = {z & 7 for g in out.values() for z in g}
    zero = {z & ~7 for z in out[()]}
    if not r.require(len(zero) == 1, "C11:write:none", "unmarked messages are stored alike", "write_database: the marks byte of an unmarked message is not fixed (left-over bits)"):
        return None
    z0 = zero.pop()
    for a in ATTR:
        v = {z & ~7 for z in out[(a,)]}
        if not r.require(len(v) == 1 and bin(next(iter(v)) ^ z0).count("1") == 1, "C11:write:%s" % a, "mark %s is stored in one bit of its own" % a,
                         "write_database (writer.c): mark %s is not stored (or not for every kind of message, or over the kind of the message)" % a):
            return None
        bitof[a] = (next(iter(v)) ^ z0).bit_length() - 1
    if not r.require(len(set(bitof.values())) == 3, "C11:write:distinct", "the three marks have different bits %s" % bitof, "write_database (writer.c): two marks are stored in the same bit: %s" % bitof):
        return None
    for a in subsets():
        exp = z0 | sum(1 << bitof[x] for x in a)
        r.require({z & ~7 for z in out[tuple(a)]} == {exp}, "C11:write:%s" % show(a), "marks %s stored independently" % show(a),
                  "write_database (writer.c): marks %s of a message are stored as %s" % (show(a), sorted(out[tuple(a)])))
    # importer
    g = I.f
    names = bitnames(p, "msgpath")

    def isbyte(i):
        return i.ty == "i8" and any(re.match(r"(arg0|read_db)\.msg_type_and_flags\[\]$", q) for q in p.s.paths(i))
    loads = {i for i in g.insts() if i.opc == "load" and isbyte(i)}
    cell = cells(p, g, "msgpath", names)
    st = [i for i in g.insts() if i.opc == "store" and cell(i)]
    if not st:
        r.bad("C11:import:none", "new_database_from_file: the marks are not restored for an update")
        return bitof, p
    h, body = inner_loop(g, st[-1].bb)
    lat = [b for b in body if h in b.succs]
    full = word(mb, base, ATTR)
    for kind in sorted(low):
        for a in subsets():
            w = kind | z0 | sum(1 << bitof[x] for x in a)
            w = w - 256 if w > 127 else w
            got = set()
            for init in (0, full):
                s = Sccp(g, pin=lambda i: frozenset([w]) if i in loads else None, cell=cell, init={"F": frozenset([init])}, reset=[h])
                for b in lat:
                    if (b, h) in s.memout:
                        y = s.memout[(b, h)].get("F")
                        got |= {None} if y is None else {z & full for z in y}
            if None in got or not got:
                r.notes.append("import of marks %s not resolved" % show(a))
                continue
            r.require(got == {word(mb, base, a)}, "C11:import:%s" % show(a), "marks %s restored (kind code %d)" % (show(a), kind),
                      "new_database_from_file (%s): a message stored with marks %s comes back with %s" % (st[0].where, show(a), [show(x) for x in subsets() if word(mb, base, x) in got]))
    return bitof, p


def mbox(r, p):
    hb, mb = layout(p, "headers"), layout(p, "msgpath")
    hn = bitnames(p, "headers")
    memo = {}

    def src(i):
        return any(re.search(r"(?:hdrs|headers)\.(%s)$" % "|".join(map(re.escape, hn)), q) for q in p.s.apath(i.ops[0], p.m.sizeof(i.ty)))

    def pinx(i):
        if i.opc == "call" and i.cname == "data_to_rfc822" or i in parsed:
            return frozenset([NZ])
        return None
    parsed, n = set(), -1
    while n != len(parsed):
        n = len(parsed)
        parsed |= {i for i in p.fn("add_mbox_messages").insts() if i.opc == "phi" and i.ty == "ptr" and
                   any(v in parsed or v.kind == "inst" and v.opc == "call" and v.cname == "data_to_rfc822" for v, _ in i.inc)}
    copy_marks(r, p, "add_mbox_messages", src, hb, bitnames(p, "msgpath"), mb, "mbox message", pinx)


def search(r, bitof):
    p = searchview.view()
    f = p.fn("do_search")
    flagload = {i for i in f.insts() if i.opc == "load" and i.ty == "i8" and any(re.match(r"(arg0|read_db)\.msg_type_and_flags\[\]$", q) for q in p.s.paths(i))}
    # --- F: expressions
    r.rule("an F: expression selects exactly the messages that have all the marks named and none of those negated")
    ls = char_loads(f, "srf-") or char_loads(f, "SRF-")
    if len(ls) != 1:
        r.notes.append("the loop reading an F: expression was not recognised")
    else:
        flag_expr(r, p, f, ls[0], flagload, bitof)
    # --- outputs
    r.rule("result names and IMAP appends carry exactly the message's marks")
    tail = [c for c in f.calls("strcat", "strcpy", "stpcpy") if len(c.args) == 2 and c.args[1].kind == "global" and c.args[1].s in ("F", "R", "S", ":2,")]
    ap = [c for c in f.calls("imap_append_new_message")]
    # the byte in the reporting part: only flag loads that can reach the outputs matter
    for kind in range(1, 4):
        for a in subsets():
            w = kind | sum(1 << bitof[x] for x in a)
            w = w - 256 if w > 127 else w
            s = Sccp(f, pin=lambda i: frozenset([w]) if i in flagload else None)
            for c in tail:
                letter = c.args[1].s
                exp = bool(a) if letter == ":2," else {"F": "flagged", "R": "replied", "S": "seen"}[letter] in a
                if not exp:
                    r.require(not s.reaches(c), "C11:name:%s:extra" % letter, "%s: %r is not added for marks %s" % (c.where, letter, show(a)),
                              "%s (do_search): a result of a message marked %s is named as if it were %s" % (c.where, show(a), letter))
            for letter in {c.args[1].s for c in tail}:
                exp = bool(a) if letter == ":2," else {"F": "flagged", "R": "replied", "S": "seen"}[letter] in a
                cs = [c for c in tail if c.args[1].s == letter]
                live = [c for c in cs if s.reaches(c)]
                if exp:
                    r.require(bool(live) or kind == 0, "C11:name:%s" % letter, "%r is added for marks %s" % (letter, show(a)),
                              "%s (do_search): the result of a message marked %s does not get %r in its name" % (cs[0].where, show(a), letter))
            for c in ap:
                if not s.reaches(c) or len(c.args) < 7:
                    continue
                for x, nm in zip(c.args[4:7], ATTR):
                    y = s.get(x)
                    if y is None or not y:
                        r.notes.append("%s: mark %s passed on not resolved" % (c.where, nm))
                        continue
                    r.require({bool(z) for z in y} == {nm in a}, "C11:append:%s" % nm, "%s: %s passed on as %s" % (c.where, nm, nm in a),
                              "%s (do_search): a message marked %s is appended with %s=%s" % (c.where, show(a), nm, sorted(y)))
    if tail:
        have = {c.args[1].s for c in tail}
        r.require(have >= {"F", "R", "S", ":2,"}, "C11:name:missing", "all of ':2,' F R S can be added to a name", "do_search: %s is never added to the name of a result" % sorted({"F", "R", "S", ":2,"} - have))
        # letters in ASCII order, after ':2,'
        order = [":2,", "F", "R", "S"]
        for x in tail:
            for y in tail:
                if order.index(x.args[1].s) > order.index(y.args[1].s) and x.args[0] is y.args[0]:
                    if _before(f, x, y):
                        r.bad("C11:name:order:%s%s" % (x.args[1].s, y.args[1].s), "%s: %r is put before %r (%s) in the name of a result" % (x.where, x.args[1].s, y.args[1].s, y.where))
    # wanted unconditionally: every combination must add (must-analysis on the pinned graph)
    must_add(r, p, f, tail, flagload, bitof)
    # append itself
    q = inlined_prog(keep={"imap_append_new_message", "imap_ll_build", "imap_ll_command", "imap_select", "imap_ll_append"})
    g = q.fn("imap_append_new_message")
    par = list(g.params)[4:7]
    builds = [c for c in g.calls("imap_ll_build")]
    if len(par) == 3:
        for n in range(8):
            a = subsets()[n]
            s = Sccp(g, args={v: frozenset([int(nm in a)]) for v, nm in zip(par, ATTR)})
            for nm, text in (("seen", "\\Seen"), ("replied", "\\Answered"), ("flagged", "\\Flagged")):
                cs = [c for c in builds if any(x.kind == "global" and x.s == text for x in c.args)]
                if not cs:
                    if n == 0:
                        r.notes.append("where %s is sent was not recognised" % text)
                    continue
                live = any(s.reaches(c) for c in cs)
                r.require(live == (nm in a), "C11:imapflag:%s" % nm, "%s is sent for marks %s: %s" % (text, show(a), live),
                          "%s (imap_append_new_message): %s is %ssent for a message marked %s" % (cs[0].where, text, "" if live else "not ", show(a)))


def _before(f, x, y):
    """can y be executed after x without passing another start of the same name? (forward reachability inside the same loop iteration)"""
    if x.bb is y.bb:
        return f.order(x) < f.order(y) if hasattr(f, "order") else x.bb.insts.index(x) < x.bb.insts.index(y)
    h, body = inner_loop(f, x.bb)
    st, seen = [x.bb], set()
    while st:
        b = st.pop()
        for s in b.succs:
            if s in seen or s is h:
                continue
            seen.add(s)
            st.append(s)
    return y.bb in seen


def must_add(r, p, f, tail, flagload, bitof):
    """no way past the naming of a result that skips a due letter: on the pinned graph, from ':2,'/path start to the use of the name"""
    groups = defaultdict(dict)
    for c in tail:
        groups[c.args[0]].setdefault(c.args[1].s, c)
    for base, g in groups.items():
        if set(g) != {":2,", "F", "R", "S"}:
            continue
        start = base if base.kind == "inst" else None
        if start is None:
            continue
        for a in subsets():
            w = 1 | sum(1 << bitof[x] for x in a)
            w = w - 256 if w > 127 else w
            s = Sccp(f, pin=lambda i: frozenset([w]) if i in flagload else None)
            if not s.reaches(start):
                continue
            for letter, nm in (("F", "flagged"), ("R", "replied"), ("S", "seen"), (":2,", None)):
                if (nm in a) if nm else a:
                    c = g[letter]
                    # from the allocation of the name, can the next use as an argument of another call be reached without c?
                    last = max((g[k] for k in g if s.reaches(g[k])), key=lambda z: _depth(f, z), default=None)
                    uses = [u for u in base.users if u.kind == "inst" and u.opc in ("call", "store", "phi", "ret") and u not in tail and u is not start and u.cname not in ("strcpy", "strcat", "llvm.lifetime.start.p0") ] if True else []
                    if _reach_without(s, start, uses, c):
                        r.bad("C11:name:skip:%s" % letter, "%s (do_search): the name of a result for a message marked %s can be completed without %r" % (c.where, show(a), letter))
                    else:
                        r.ok("name of a result for marks %s always gets %r" % (show(a), letter))


def _depth(f, i):
    return f.blocks.index(i.bb)


def _reach_without(s, start, uses, c):
    """path in the executable graph from start to one of uses avoiding instruction c"""
    def scan(insts):
        for i in insts:
            if i is c:
                return "c"
            if i in uses:
                return "u"
        return None
    b = start.bb
    k = b.insts.index(start)
    x = scan(b.insts[k + 1:])
    if x == "u":
        return True
    if x == "c":
        return False
    st, seen = [t for t in b.succs if (b, t) in s.edges], set()
    while st:
        y = st.pop()
        if y in seen or y is b:
            continue
        seen.add(y)
        x = scan(y.insts)
        if x == "u":
            return True
        if x == "c":
            continue
        st += [t for t in y.succs if (y, t) in s.edges]
    return False


def flag_expr(r, p, f, ch, flagload, bitof):
    h, body = inner_loop(f, ch.bb)
    if h is None:
        r.notes.append("the loop reading an F: expression was not recognised")
        return
    phis = [i for i in h.insts if i.opc == "phi" and i.ty != "ptr"]
    allphi = [i for i in h.insts if i.opc == "phi"]
    ptrs = {i.ops[0] for i in [ch]}
    sib = {i for b in body for i in b.insts if i.opc == "load" and i.ty == "i8" and (i.ops[0] is ch.ops[0])} | {ch}
    # message loop behind it
    tgt = [(hh, bb) for hh, bb in sym.loops(f).items() if any(i in flagload for b in bb for i in b.insts) and not (bb & body)]
    init = {}
    for ph in phis:
        v = [x for x, b in ph.inc if b not in body]
        if len(v) != 1 or v[0].kind != "int":
            init[ph] = None
        else:
            init[ph] = frozenset([v[0].c])
    lat = [b for b in body if h in b.succs]
    outside = [b for b in f.blocks if b not in body]

    def step(state, c):
        def pin(i):
            if i in state:
                return state[i]
            if i in sib:
                return frozenset([ord(c)])
            return None
        s = Sccp(f, pin=pin, entry=h, avoid=outside)
        new = {}
        for ph in phis:
            got = frozenset()
            for v, b in ph.inc:
                if b in body and (b, h) in s.edges:
                    y = s.get(v) if v is not ph else state[ph]
                    if v in phis:
                        y = state[v]
                    got = None if got is None or y is None else got | y
            new[ph] = got
        return new
    exits = {t for b in body for t in b.succs if t not in body}

    def accept(state, byte):
        def pin(i):
            if i in state:
                return state[i]
            if i in sib:
                return frozenset([0])
            if i in flagload:
                return frozenset([byte])
            return None
        # region: the expression loop, then the message loop, nothing after it
        s = Sccp(f, pin=pin, entry=h, avoid=region_out)
        hb = {t.bb for t in hit}
        may = any(s.reaches(t) for t in hit)
        # a way round the loop without recording a hit?
        st, seen2, skip = [lh], set(), False
        while st:
            b = st.pop()
            if b in seen2 or b in hb:
                continue
            seen2.add(b)
            for t in b.succs:
                if (b, t) in s.edges:
                    if t is lh:
                        skip = True
                    elif t in lb:
                        st.append(t)
        return None if may == skip else may
    # the message loop: first loop with a flag load reachable from the exits
    st, seen, loop = list(exits), set(), None
    loops = sym.loops(f)
    while st and loop is None:
        b = st.pop(0)
        if b in seen:
            continue
        seen.add(b)
        if b in loops and any(i in flagload for x in loops[b] for i in x.insts):
            loop = (b, loops[b])
            break
        st += [s for s in b.succs if s not in body]
    if loop is None:
        r.notes.append("the loop testing messages against an F: expression was not recognised")
        return
    lh, lb = loop
    inner = lb
    for hh, bb in loops.items():
        if bb < inner and any(i in flagload for x in bb for i in x.insts) and len(bb) > 1:
            pass
    hit = [i for b in lb for i in b.insts if i.opc == "store" and i.ty == "void" and i.ops[0].ty == "i8" and not (i.ops[0].kind == "int" and i.ops[0].c == 0)]
    if not hit:
        r.notes.append("where a hit is recorded for an F: expression was not recognised")
        return
    between = seen | {lh}
    region_out = [b for b in f.blocks if b not in body and b not in between and b not in lb]
    # expressions
    L = [("s", "seen"), ("S", "seen"), ("r", "replied"), ("R", "replied"), ("f", "flagged"), ("F", "flagged")]
    terms = [(n + c, a, bool(n)) for c, a in L for n in ("", "-")]
    exprs = [[]] + [[t] for t in terms] + [[t, u] for t in terms for u in terms if t[1] != u[1] and (t[0].islower() or len(t[0]) == 2) and t[0][-1].islower() and u[0][-1].islower()]
    if any(v is None for v in init.values()):
        init = {k: v for k, v in init.items() if v is not None}
    state_ph = [ph for ph in phis if ph in init]
    phis[:] = state_ph
    unresolved = 0
    for e in exprs:
        st_ = dict(init)
        text = "".join(t[0] for t in e)
        for c in text:
            st_ = step(st_, c)
        if any(v is None or not v for v in st_.values()):
            unresolved += 1
            continue
        for a in subsets():
            byte = 1 | sum(1 << bitof[x] for x in a)
            byte = byte - 256 if byte > 127 else byte
            exp = all((t[1] in a) != t[2] for t in e)
            got = accept(st_, byte)
            if got is None:
                unresolved += 1
                continue
            r.require(got == exp, "C11:F:%s" % text, "F:%s %s a message marked %s" % (text, "selects" if exp else "rejects", show(a)),
                      "%s (do_search): the expression F:%s %s a message marked %s" % (ch.where, text, "selects" if got else "does not select", show(a)))
    if unresolved:
        r.notes.append("%d F: expressions not resolved" % unresolved)


def dump(r, p, bitof):
    f = p.fn("dump_database")
    fl = {i for i in f.insts() if i.opc == "load" and i.ty == "i8" and any("msg_type_and_flags[]" in q for q in p.s.paths(i))}
    for a in subsets():
        w = 1 | sum(1 << bitof[x] for x in a)
        s = Sccp(f, pin=lambda i: frozenset([w]) if i in fl else None)
        for nm in ATTR:
            cs = [c for c in f.calls("printf", "fputs", "puts", "putstr", "fprintf") if any(x.kind == "global" and (x.s or "").strip() == nm for x in c.args)]
            if cs:
                live = any(s.reaches(c) for c in cs)
                r.require(live == (nm in a), "C11:dump:%s" % nm, "dump shows %s for marks %s: %s" % (nm, show(a), live),
                          "%s (dump_database): the dump %s %s for a message marked %s" % (cs[0].where, "shows" if live else "does not show", nm, show(a)))


def cleared(r, p):
    """a message that cannot be parsed has no marks: its entry is cleared before it is counted"""
    from rounds import View, B as B_
    for fn, parse in (("add_mbox_messages", ("data_to_rfc822",)), ("update_database", ())):
        if not p.has(fn):
            continue
        v = View(p, fn)
        inc = v.stores("database.n_msgs")
        if not inc or v.inner(inc[0].bb) is None:
            r.notes.append("%s: where messages are counted is not recognised" % fn)
            continue
        h = v.inner(inc[0].bb)
        body = v.loops[h]
        clr = [c for b in body for c in b.insts if c.opc == "call" and c.cname and (c.cname in ("memset", "bzero") or c.cname.startswith("llvm.memset")) and
               any("database.msgs" in q for q in p.s.apath(c.args[0], 1) | p.s.paths(c.args[0]))]
        bits = [i for b in body for i in b.insts if i.opc == "store" and v.ap(i) and all("database.msgs[].bits@" in q for q in v.ap(i))]
        calls = set(v.f.calls(*parse)) if parse else set()
        s = v.round(h, lambda i: B_(0) if i in calls else None)
        ini = [i for i in clr + bits if i.bb in s.blocks]
        cnt = [i for i in inc if i.bb in s.blocks]
        if not cnt:
            continue
        seen, wl, bad = set(), [h], False
        blocked = {i.bb for i in ini}
        while wl:
            b = wl.pop()
            if b in seen or b in blocked:
                continue
            seen.add(b)
            if b in {i.bb for i in cnt}:
                bad = True
            wl += [y for (a, y) in s.edges if a is b and y in body and y is not h]
        r.require(not bad, "C11:uninit:" + fn, "marks of every entry added in %s are set" % fn, "%s (%s): an entry is added whose marks were never set (a message that could not be parsed)" % (cnt[0].where, fn))


def run(r, tier):
    r.rule("letters S/R/F behind ':2,' in a Maildir name, and R/A/F in Status/X-Status of mbox messages, set seen/replied/flagged and nothing else")
    p = tokview.view()
    maildir(r, p)
    status(r, p)
    r.rule("marks survive unchanged from the parsed message to the index and through the database file, for every combination")
    mbox(r, p)
    cleared(r, p)
    x = database(r)
    if x:
        bitof, q = x
        search(r, bitof)
        dump(r, q, bitof)
    r.scope = {"functions": ["update_database", "data_to_rfc822", "add_mbox_messages", "write_database", "new_database_from_file", "do_search", "imap_append_new_message", "dump_database"]}
