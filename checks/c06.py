"""Write/read agreement of the database file."""
import re
from build import AnalysisBroken
import dbio, sym, loopinfo
from dbio import canon, TABLES
LEVEL = "other"
FLOOR = 50


def run(r, tier):
    p = dbio.view()
    W, R, I = dbio.Writer(p), dbio.Reader(p), dbio.Importer(p)
    r.rule("every header word the reader uses is written, as a count of the same thing or as the start of the same table")
    r.rule("for each kind of message and each persistent attribute, the table cell the importer takes the attribute from is the "
           "cell the writer put the same attribute into, at the same index")
    r.rule("each token table's texts and posting lists are imported into the table they were written from")
    MTY = W.MTY
    tn = {v: k for k, v in MTY.items()}
    # --- reader fields
    slot = {}
    for F, ds in R.fields.items():
        if len(ds) != 1:
            r.notes.append("reader field %s has several definitions" % F)
            continue
        slot[F] = next(iter(ds))
    # --- writer: slot -> type -> [(source, store)]
    wr = {}
    for rem, idx, sz, i in W.cells:
        ks = W.slot_of(rem, idx)
        if not ks:
            near = [k for k, ls in W.slot_lin.items() for l in ls for m in (4, 1)
                    if m in idx.values() and not l.scale(m).add(rem, -1).atoms() and rem.atoms()]
            if near and sz == 4:
                r.bad("cell-shift:%s" % min(near), "the table cell stored at %s is displaced from the start of the table announced in header word %s" %
                      (i.where, near))
            else:
                r.notes.append("store at %s not matched to a table" % i.where)
            continue
        src = W.source(i, i.ops[0])
        for k in ks:
            for t in W.types.get(i.bb, MTY.values()):
                wr.setdefault(k, {}).setdefault(t, []).append((src, i, idx))
    # --- types
    codes = {}
    tslot = slot.get("msg_type_and_flags", (None, None))[1]
    r.require(tslot in wr, "type-table", "the message kinds are stored in the table the reader takes them from (header word %s)" % tslot,
              "the reader takes message kinds from header word %s, under which the writer stores no table" % tslot)
    for t in tn:
        cs = {s[1] & 7 for src, i, _ in wr.get(tslot, {}).get(t, []) for s in src if s[0] == "const"}
        if len(cs) != 1:
            if cs:
                r.bad("kind-code:%s" % tn[t], "messages of kind %s are stored with kind codes %s" % (tn[t], sorted(cs)))
            elif tslot in wr:
                r.notes.append("kind code of %s not recognised" % tn[t])
            continue
        codes[t] = cs.pop()
    for t, c in codes.items():
        dup = [u for u in codes if u != t and codes[u] == c]
        r.require(not dup, "kind-clash:%s" % tn[t], "kind %s has code %d of its own" % (tn[t], c),
                  "kinds %s and %s are stored with the same code %d" % (tn[t], [tn[d] for d in dup], c))
    for i in I.stores.get("database.type[]", []):
        v = i.ops[0]
        if v.kind != "int":
            # a direct conversion of the code
            r.notes.append("kind imported by computation at %s" % i.where)
            continue
        cs = I.types.get(i.bb, frozenset())
        for t, c in codes.items():
            if c in cs and len(cs) <= len(codes):
                r.require(v.c == t, "kind:%s" % tn[t], "code %d imported as %s at %s" % (c, tn[t], i.where),
                          "messages stored as %s (code %d) are imported as %s at %s" % (tn[t], c, tn.get(v.c, v.c), i.where))

    def wsrc(k, t):
        return wr.get(k, {}).get(t, [])

    # --- attributes
    F_, X_, M_, D_ = MTY["MTY_FILE"], MTY["MTY_IMAP"], MTY["MTY_MBOX"], MTY["MTY_DEAD"]
    EXP = [("msgpath.src.mpf.path", "chars", "msgpath.src.mpf.path", (F_, X_)),
           ("msgpath.src.mpf.mtime", "cell", "msgpath.src.mpf.mtime", (F_,)),
           ("msgpath.src.mpf.size", "cell", "msgpath.src.mpf.size", (F_,)),
           ("msgpath.date", "cell", "msgpath.date", (F_, X_, M_)),
           ("msgpath.tid", "cell", "msgpath.tid", (F_, X_, M_, D_)),
           ("msgpath.src.mbox.file_index", "enc", "msgpath.src.mbox.file_index", (M_,)),
           ("msgpath.src.mbox.msg_index", "enc", "msgpath.src.mbox.msg_index", (M_,)),
           ("mbox.start[]", "cell", "mbox.start[]", (M_,)),
           ("mbox.len[]", "cell", "mbox.len[]", (M_,)),
           ("mbox.path", "chars", "mbox.path", None),
           ("mbox.file_mtime", "cell", "mbox.current_mtime", None),
           ("mbox.file_size", "cell", "mbox.current_size", None),
           ("mbox.n_msgs", "cell", "mbox.n_msgs", None)]
    for dest, kind, srcp, types in EXP:
        ss = I.stores.get(dest, [])
        for t in (types or (None,)):
            lab = dest + (" of %s" % tn[t] if t is not None else "")
            key = dest + (":" + tn[t] if t is not None else "")
            if t is None:
                here = [i for i in ss]
            else:
                if t not in codes:
                    continue
                here = [i for i in ss if codes[t] in I.types.get(i.bb, ())]
            if not here:
                r.bad("not-imported:" + key, "%s is not restored when the database is read for an update" % lab)
                continue
            for i in here:
                for s in I.source(i.ops[0]) or {None}:
                    if s is None:
                        r.notes.append("%s imported from an unrecognised source at %s" % (lab, i.where))
                        continue
                    if s[0] == "const":
                        if dest == "mbox.path" or len(here) > 1 or s[1] == 0 and dest.startswith("mbox."):
                            continue
                        r.bad("const-import:" + key, "%s is set to a constant instead of the stored value at %s" % (lab, i.where))
                        continue
                    if s[0] == "field":
                        if dest.endswith("msg_index") and s[1] == "mbox.n_so_far":
                            r.ok("%s recovered from the running message number, asserted equal to the stored one" % lab)
                        continue
                    F = s[1]
                    if F not in slot:
                        r.notes.append("reader field %s unknown" % F)
                        continue
                    rk, k = slot[F]
                    if s[0] != kind and {s[0], kind} == {"cell", "chars"}:
                        r.bad("kind-of-cell:" + key, "%s is imported as a %s at %s but stored as a %s" % (lab, s[0], i.where, kind))
                        continue
                    W_ = wsrc(k, t if t is not None else F_)
                    if not W_:
                        r.bad("not-written:" + key, "%s is imported from the table of header word %d (%s), whose cells are not written for it" % (lab, k, F))
                        continue
                    for src, wi, idx in W_:
                        okv, known = False, False
                        for x in src:
                            if x[0] == "enc":
                                known = True
                                off = s[2] if len(s) > 2 else None
                                okv |= any(o == off and srcp in q for o, q in x[1])
                            elif x[0] in ("field", "chars"):
                                known = known or ("?" not in x[1] and "call:" not in x[1])
                                okv |= x[1] == srcp and (x[0] == "chars") == (kind == "chars")
                            elif x[0] == "const":
                                known = True
                                okv |= dest == "mbox.path" and x[1] == 0
                        if not known:
                            r.notes.append("source of the cell stored at %s not recognised" % wi.where)
                            continue
                        r.require(okv, "mismatch:" + key, "%s: written at %s into header word %d's table, read back at %s" % (lab, wi.where, k, i.where),
                                  "%s is read back at %s from the table in which the writer stores %s (%s)" % (lab, i.where, sorted(map(str, src)), wi.where))
                        same_index(r, p, W.L, wi, idx, "w:" + key)
                    same_index_import(r, p, I, i, "r:" + key)
    # --- no cell of a live message keeps bytes of an earlier database
    for F in ("path_offsets", "mtime_table", "date_table", "size_table", "tid_table"):
        if F in slot and wr.get(slot[F][1]):
            for t in (F_, X_, M_) + ((D_,) if F == "tid_table" else ()):
                r.require(bool(wsrc(slot[F][1], t)), "cell-unwritten:%s:%s" % (F, tn[t]), "the %s cell is written for %s messages" % (F, tn[t]),
                          "the cell searches read as %s is not written for %s messages: they see bytes of an earlier database" % (F, tn[t]))
    # --- checksums of mbox messages
    got = False
    for c, d, s in I.copies:
        if any(canon(q) == "mbox.check_all" for q in p.s.paths(d)):
            got = True
            whole_checksums(r, p, I.L, c, "restored")
            for F in I.tabs(s):
                if F in slot:
                    W_ = wsrc(slot[F][1], F_)
                    r.require(any(x == ("chars", "mbox.check_all[]") or x == ("chars", "mbox.check_all") for src, wi, _ in W_ for x in src),
                              "checksums", "mbox message checksums restored from where they were written", "mbox message checksums are restored at %s from a table that does not hold them" % c.where)
    if not got:
        alt = [i for k, v in I.stores.items() if k.startswith("mbox.check_all[") for i in v]
        if alt:
            r.notes.append("checksums imported by stores")
        else:
            r.bad("checksums-lost", "the mbox message checksums are not restored when the database is read for an update")
    for c in W.f.calls("memcpy", "memmove"):
        if any(canon(q) == "mbox.check_all" for q in p.s.paths(c.args[1])):
            whole_checksums(r, p, W.L, c, "stored")
    # --- counts and key
    for dest, F in [("n_msgs", "n_msgs"), ("n_mboxen", "n_mboxen"), ("hash_key", "hash_key")] + [(t + ".n", t + ".n") for t in TABLES]:
        k = slot.get(F)
        if not r.require(k is not None and k[0] == "count", "count-slot:" + F, "the reader takes %s from header word %s" % (F, k and k[1]),
                         "the reader does not take %s from a header word" % F):
            continue
        ws = W.header.get(k[1], [])
        r.require(bool(ws) and all("database." + dest in p.s.paths(i.ops[0]) for i in ws), "count:" + F,
                  "header word %d written with %s" % (k[1], dest),
                  "header word %d, read as %s, is written with %s" % (k[1], F, [sorted(p.s.paths(i.ops[0]))[:2] for i in ws]))
        ss = [i for i in I.stores.get("database." + dest, []) if any(x[0] != "const" for x in I.source(i.ops[0]) or {("?",)})]
        r.require(bool(ss), "count-import:" + dest, "%s is restored" % dest, "%s is not restored from the database" % dest)
        for i in ss:
            src = {x for x in I.source(i.ops[0]) if x[0] == "count"}
            if src:
                r.require(src == {("count", F)}, "count-import:" + dest, "%s restored from %s at %s" % (dest, F, i.where),
                          "%s is restored from %s at %s" % (dest, sorted(map(str, src)), i.where))
    # magic / byte order
    for off, i in W.bytes_:
        r.ok("header byte %d written at %s" % (off, i.where))
    magic(r, p, W, R)
    r.rule("the seen/replied/flagged marks are stored in bits of their own and restored from them, for every combination")
    import c11
    c11.database(r)
    tokens(r, p, W, R, I, slot, wr, F_)
    # loops cover all messages / mailboxes
    for f, names in ((W.f, {"database.n_msgs", "database.n_mboxen"}), (I.f, {"read_db.n_msgs", "read_db.n_mboxen", "database.n_msgs", "database.n_mboxen"})):
        dom = p.dom(f)
        for h, body in sym.loops(f).items():
            L = loopinfo.counted(p.s, h, body, dom)
            if L is None or L.phi is None or L.phi.ty == "ptr":
                continue
            c = loopinfo.covers_from_zero(L)
            y = bound_paths(p, L)
            if c is None or not (y & names) or len(y) != 1:
                continue
            if not any(i.opc == "store" for b in body for i in b.insts):
                continue
            if (f is W.f or any(i.opc == "store" and any(canon(q).startswith(("msgpath", "mbox", "database.type")) for q in p.s.apath(i.ops[1], p.m.sizeof(i.ops[0].ty))) for b in body for i in b.insts)):
                r.require(c[0] == 0 and c[2] == 0, "loop:%s:%s" % (f.name, next(iter(y))), "loop at %s covers all of %s" % (h.insts[0].where, sorted(y)),
                          "the loop at %s in %s() covers [%d, %s%+d)" % (h.insts[-1].where, f.name, c[0], sorted(y)[0], c[2]))
    r.scope = {"header_words": len(W.header), "cell_stores": len(W.cells), "reader_fields": len(slot), "importer_stores": sum(map(len, I.stores.values()))}


def whole_checksums(r, p, L, c, what):
    """a block copy of a mailbox's checksums covers all of its messages"""
    n = c.args[2]
    if n.kind == "int":
        return
    l = L(n)
    sz = p.m.sizeof("%struct.checksum") if False else checksum_size(p)
    at = l.atoms()
    ok = len(at) == 1 and l[at[0]] == sz and l.const == 0
    if ok:
        q = {canon(y) for y in p.s.paths(L.val(at[0]))}
        ok = q <= {"mbox.n_msgs", "read_db.mbox_entries_table[]"} or not q
        if not ok and any("?" in y or "call" in y for y in q):
            r.notes.append("%s: length %s of the checksum copy not resolved" % (c.where, sorted(q)))
            return
    r.require(ok, "checksums-length:" + what, "%s: all of a mailbox's checksums are %s" % (c.where, what),
              "%s: the block of a mailbox's message checksums %s is not one checksum for each of its messages (%s bytes)" % (c.where, what, L.show(l)))


def checksum_size(p):
    for st, c in p.t.comp.items():
        if st == "checksum":
            return max(o + s for n, o, s, b in c) // 8
    return 16


def bound_paths(p, L):
    b, t = L.bound_exit
    c = b.term.ops[0]
    while c.kind == "inst" and c.opc == "xor":
        c = c.ops[0]
    out = set()
    for o in c.ops:
        q = p.s.paths(o)
        if o is not L.phi and not any(x.startswith("add(") or x.startswith("#") for x in q):
            out |= q
    return out


def elem_index(p, ptr, sizes):
    """variable index of the outermost array step of a pointer"""
    base, st = p.s.gepsteps(ptr)
    ix = [s[1] for s in st if s[0] == "[]" and s[1].kind != "int"]
    return ix[0] if ix else None


def same_index(r, p, L, wi, idx, key):
    """the writer's cell index is the index of the element the value comes from"""
    v = wi.ops[0]
    while v.kind == "inst" and v.opc in sym.CASTS:
        v = v.ops[0]
    if v.kind != "inst" or v.opc != "load":
        return
    if any(canon(q).startswith("mbox.") and canon(q).endswith("[]") for q in p.s.paths(v)):
        # an element of a mailbox's table: chosen by the message's own (file_index, msg_index)
        ix, st, seen = [], [v.ops[0]], set()
        while st:
            x = st.pop()
            if x in seen or x.kind != "inst":
                continue
            seen.add(x)
            if x.opc == "gep":
                ix += [o for o in x.ops[1:] if o.kind == "inst"]
                st.append(x.ops[0])
            elif x.opc == "load":
                st.append(x.ops[0])
            elif x.opc in sym.CASTS:
                st.append(x.ops[0])
        names = set()
        for o in ix:
            while o.kind == "inst" and o.opc in sym.CASTS:
                o = o.ops[0]
            q = {canon(y) for y in p.s.paths(o)}
            names |= q
            if o.kind == "inst" and o.opc == "load" and q <= {"msgpath.src.mbox.file_index", "msgpath.src.mbox.msg_index"}:
                e = elem_index(p, o.ops[0], None)
                if e is not None and len(idx) == 1:
                    (a, c), = idx.items()
                    l = L(e)
                    if l.atoms() == [a]:
                        r.require(l.const == 0, "index-" + key, "cell index equals the message's index at %s" % wi.where,
                                  "the cell stored at %s holds a value looked up for the message %+d away" % (wi.where, l.const))
        if len(ix) == 2 and not any("?" in y or "call:" in y for y in names):
            r.require(names == {"msgpath.src.mbox.file_index", "msgpath.src.mbox.msg_index"}, "index-" + key, "value looked up by the message's own mailbox and position at %s" % wi.where,
                      "the value stored at %s is looked up by %s instead of the message's mailbox and its position there" % (wi.where, sorted(names)))
        return
    if not any(q.startswith(("database.msgs[]", "database.mboxen[]")) for q in p.s.paths(v)) or "[]" in "".join(p.s.paths(v)).replace("database.msgs[]", "").replace("database.mboxen[]", ""):
        return
    e = elem_index(p, v.ops[0], None)
    if e is None or len(idx) != 1:
        return
    (a, c), = idx.items()
    if a[1].ty == "ptr":
        return
    l = L(e)
    at = l.atoms()
    if len(at) == 1 and at[0][0] == "v" and at[0][1].kind == "inst" and at[0][1].opc == "phi":
        same = at[0] == a and l.const == 0
        if at[0] != a and at[0][1].bb is not a[1].bb:
            return
        if at[0] != a:
            r.notes.append("different index variables at %s" % wi.where)
            return
        r.require(same, "index-" + key, "cell index equals element index at %s" % wi.where,
                  "the cell stored at %s belongs to another element than the value stored (offset %+d)" % (wi.where, l.const))


def same_index_import(r, p, I, i, key):
    v = i.ops[0]
    while v.kind == "inst" and v.opc in sym.CASTS:
        v = v.ops[0]
    if v.kind != "inst" or v.opc != "load" or not any(q.startswith("read_db.") and q.endswith("[]") for q in p.s.paths(v)):
        return
    cs = {canon(q) for q in p.s.apath(i.ops[1], p.m.sizeof(i.ops[0].ty))}
    if any(q.startswith("mbox.") and q.endswith("[]") for q in cs):
        # the element of a mailbox's own table: read from the cell of the message being restored
        a = elem_index(p, v.ops[0], None)
        ref = {I.L(e).key() for x in I.stores.get("msgpath.date", []) for e in [elem_index(p, x.ops[1], None)] if e is not None}
        if a is None or not ref:
            return
        la = I.L(a)
        at = la.atoms()
        if la.key() in ref:
            r.ok("%s restored from the cell of the message itself at %s" % (sorted(cs)[0], i.where))
        elif len(at) == 1 and at[0][0] == "v" and I.L.val(at[0]).kind == "inst" and I.L.val(at[0]).opc == "phi" and la.key() not in ref and not any(at == I.L(e).atoms() for x in I.stores.get("msgpath.date", []) for e in [elem_index(p, x.ops[1], None)] if e is not None):
            r.notes.append("%s: index of the cell read not compared" % i.where)
        else:
            r.bad("index-" + key, "at %s %s of a message is restored from cell %s of the table, not from the cell of that message" % (i.where, sorted(cs)[0], I.L.show(la)))
        return
    if not any(q.startswith(("msgpath.", "mbox.")) and "[]" not in q for q in cs):
        return
    a, b = elem_index(p, v.ops[0], None), elem_index(p, i.ops[1], None)
    if a is None or b is None:
        return
    la, lb = I.L(a), I.L(b)
    if len(la.atoms()) == 1 and la.atoms() == lb.atoms():
        r.require(la.key() == lb.key(), "index-" + key, "imported at the same index at %s" % i.where,
                  "at %s element %s is restored from cell %s" % (i.where, I.L.show(lb), I.L.show(la)))


def magic(r, p, W, R):
    """constants the reader insists on are those the writer stores"""
    want = {off: i.ops[0].c & 255 for off, i in W.bytes_ if i.ops[0].kind == "int"}
    for b in R.f.blocks:
        for i in b.insts:
            if i.opc == "icmp" and i.ops[1].kind == "int":
                x = i.ops[0]
                l = R.L(x)
                at = l.atoms()
                if len(at) != 1 or at[0][0] != "x":
                    continue
                ld = R.L.val(at[0])
                if ld.opc != "load":
                    continue
                a = R.L(ld.ops[0])
                if a.get(R.atom) != 1 or len(a.atoms()) != 1:
                    continue
                if p.m.sizeof(ld.ty) == 1 and a.const in want:
                    r.require(want[a.const] == i.ops[1].c & 255, "magic:%d" % a.const, "magic byte %d agrees" % a.const,
                              "the reader compares header byte %d with %d at %s, the writer stores %d" % (a.const, i.ops[1].c & 255, i.where, want[a.const]))
    # byte order word
    for k, ss in W.header.items():
        for i in ss:
            if i.ops[0].kind == "int" and i.ops[0].c not in (0, 40):
                cmpd = []
                for b in R.f.blocks:
                    for j in b.insts:
                        if j.opc == "icmp" and j.ops[1].kind == "int":
                            l = R.L(j.ops[0])
                            if len(l.atoms()) == 1 and R.slot(l.atoms()[0]) == k:
                                cmpd.append(j.ops[1].c)
                        elif j.opc == "switch":
                            l = R.L(j.ops[0])
                            if len(l.atoms()) == 1 and R.slot(l.atoms()[0]) == k:
                                cmpd += [c for c, _ in j.cases]
                if cmpd:
                    r.require(i.ops[0].c in cmpd, "endian", "byte-order word %d agrees" % k,
                              "the byte-order word stored at %s is not the one the reader accepts" % i.where)


def tokens(r, p, W, R, I, slot, wr, t0):
    for T in TABLES:
        want = {"tok_offsets": "text", "enc_offsets": "match0.msginfo"} if T != "msg_ids" else \
            {"tok_offsets": "text", "enc0_offsets": "match0.msginfo", "enc1_offsets": "match1.msginfo"}
        for fld, part in want.items():
            F = "%s.%s" % (T, fld)
            if not r.require(F in slot and slot[F][0] == "table", "tok-slot:" + F, "reader field %s set from header word %s" % (F, slot.get(F, (0, 0))[1]),
                             "the reader does not set %s from a header word" % F):
                continue
            k = slot[F][1]
            ws = wr.get(k, {}).get(t0, [])
            if not r.require(bool(ws), "tok-written:" + F, "cells of %s are written" % F, "the table %s read from header word %d is never written" % (F, k)):
                continue
            for src, wi, _ in ws:
                known = {x for x in src if x[0] == "tok"}
                if not known:
                    r.notes.append("token source at %s not recognised" % wi.where)
                    continue
                r.require(known == {("tok", T, part)}, "tok-mismatch:" + F, "%s holds %s of %s (%s)" % (F, part, T, wi.where),
                          "the cells read as %s are written with %s at %s" % (F, sorted(known), wi.where))
        # importer
        ins = [i for i in I.stores.get("database.%s.tokens[]" % T, []) if i.ops[0].kind == "inst" and i.ops[0].opc in ("call", "phi")]
        if not r.require(bool(ins), "tok-import:" + T, "tokens are imported into %s" % T, "no tokens are imported into table %s" % T):
            continue
        for i in ins:
            M = i.ops[0]
            text, m0, m1 = set(), set(), set()
            for j in I.f.insts():
                if j.opc != "store":
                    continue
                b, st = p.s.gepsteps(j.ops[1])
                if b is not M:
                    continue
                off = sum(x[1] for x in st if x[0] != "[]")
                nm = p.t.field("token2" if T == "msg_ids" else "token", off, p.m.sizeof(j.ops[0].ty))
                srcs = {x for x in I.source(j.ops[0]) if x[0] == "chars"}
                if nm == "text":
                    text |= srcs
                elif nm == "match0.msginfo":
                    m0 |= srcs
                elif nm == "match1.msginfo":
                    m1 |= srcs
            exp = {"text": (text, "tok_offsets"), "match0": (m0, "enc_offsets" if T != "msg_ids" else "enc0_offsets")}
            if T == "msg_ids":
                exp["match1"] = (m1, "enc1_offsets")
            for part, (got, fld) in exp.items():
                if not got:
                    r.notes.append("%s of imported tokens of %s not recognised" % (part, T))
                    continue
                r.require(got == {("chars", "%s.%s" % (T, fld))}, "tok-import:%s.%s" % (T, part), "%s.%s imported from %s.%s" % (T, part, T, fld),
                          "%s of table %s are imported from %s at %s" % (part, T, sorted(x[1] for x in got), i.where))
