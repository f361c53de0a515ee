"""C15: an indexing run brings the index in step with the mail store."""
import sym
from prog import inlined_prog
from rounds import View, B, NZ, Sccp
from util import strip

FLOOR = 25
REG, DIR, FIFO = 0o100644, 0o040755, 0o010644


def run(r, tier):
    r.rule("every entry of the index is kept, deleted or replaced exactly as the current state of its source demands, and every new source is added and scanned")
    files(r)
    import c15mbox
    c15mbox.run(r)
    driver(r)


class Files(View):
    def __init__(self):
        p = inlined_prog(keep={"lookup_msgpath", "make_rfc822", "make_rfc822_from_imap", "tokenise_message", "add_mbox_messages", "find_threading", "free_rfc822", "build_mbox_lists", "scan_maildir_flags", "update_database"})
        View.__init__(self, p, "update_database")
        f = self.f
        self.kind = {k: p.enum("MTY_" + k) for k in ("DEAD", "FILE", "MBOX", "IMAP")}
        self.look = list(f.calls("lookup_msgpath"))
        # the parameters, by type of use
        a = f.params if hasattr(f, "params") else f.args
        self.db, self.paths, self.n, self.fast = a[0], a[1], a[2], a[3]

    def marks(self):
        """byte arrays allocated here: {allocation: (loads, stores)}"""
        out = {}
        for i in self.f.insts():
            if i.opc in ("load", "store"):
                ptr = i.ops[1] if i.opc == "store" else i.ops[0]
                b = self.base(ptr)
                if b.kind == "inst" and b.opc == "phi":
                    bs = {strip(v) for v, _ in b.inc if v.kind not in ("null", "undef", "poison")}
                    b = bs.pop() if len(bs) == 1 else b
                if b.kind == "inst" and b.opc == "call" and b.cname in ("malloc", "calloc", "safe_malloc") and (i.ty if i.opc == "load" else i.ops[0].ty) in ("i8", "i32"):
                    out.setdefault(b, ([], []))[i.opc == "store"].append(i)
        return out


def files(r):
    v = Files()
    p, f = v.p, v.f
    K = v.kind
    if not v.look:
        r.notes.append("looking up of known messages in the new list not recognised")
        r.floor_waived = True
        return
    marks = v.marks()
    pth = "arg1"
    types = v.loads("database.type[]")
    dead = [i for i in v.stores("database.type[]") if i.ops[0].kind == "int" and i.ops[0].c == K["DEAD"]]
    if not dead:
        r.require(False, "C15:dead", "", "db.c (update_database): messages whose source is gone are never marked deleted")
        return
    hl = v.inner(v.look[0].bb)
    if hl is None or any(v.inner(c.bb) is not hl for c in v.look):
        r.notes.append("loop over the known messages not recognised")
        r.floor_waived = True
        return
    hd = {v.inner(i.bb) for i in dead}
    if len(hd) != 1 or None in hd:
        r.notes.append("loop that marks messages deleted not recognised")
        r.floor_waived = True
        return
    hd = hd.pop()
    adds = [i for i in v.stores("database.n_msgs") if v.inner(i.bb) is not None]
    ha = {v.inner(i.bb) for i in adds}
    Ll = v.covers(r, hl, {"database.n_msgs"}, "C15:loop:known", "known messages")
    v.covers(r, hd, {"database.n_msgs"}, "C15:loop:dead", "known messages")
    # which array says "still there" (read where messages are deleted), which "already known"
    keep = {a for a, (ls, ss) in marks.items() if any(v.inner(i.bb) is hd for i in ls)}
    known = {a for a, (ls, ss) in marks.items() if any(v.inner(i.bb) in ha for i in ls)}
    if len(keep) != 1 or len(known) != 1 or keep == known:
        r.notes.append("marks of messages still present not recognised")
        r.floor_waived = True
        return
    keep, known = keep.pop(), known.pop()
    cleared(r, v, keep, known)
    kst = [i for i in marks[keep][1] if v.inner(i.bb) is hl]
    nst = [i for i in marks[known][1] if v.inner(i.bb) is hl]
    for i in kst:
        x = v.idx(i.ops[1])
        if Ll and Ll.phi is not None and x is not None:
            g = v.lin(x).add(v.lin(Ll.phi), -1)
            if not g.atoms():
                r.require(g.const == 0, "C15:keep:index", "message marked as still there at %s is the one looked up" % i.where, "%s (update_database): the message marked as still present is not the one that was looked up" % i.where)
            elif x in v.look:
                r.require(False, "C15:keep:index", "", "%s (update_database): the mark of a message still present is set for its position in the new list" % i.where)
    for i in nst:
        x = v.idx(i.ops[1])
        roots = {x} if x is None or x.kind != "inst" or x.opc != "phi" else {strip(a) for a, _ in x.inc}
        if x is not None and Ll and Ll.phi is not None and x is Ll.phi:
            r.require(False, "C15:known:index", "", "%s (update_database): the path marked as already known is not the one that was found" % i.where)
        elif roots <= set(v.look):
            r.ok("path marked as known at %s is the one found" % i.where)
        else:
            g = [v.lin(x).add(v.lin(c), -1) for c in v.look]
            k = [q.const for q in g if not q.atoms()]
            if k:
                r.require(0 in k, "C15:known:index", "", "%s (update_database): the path marked as already known is not the one that was found" % i.where)
    for c in v.look:
        look(r, v, c, types, Ll, K)
    # values the decision depends on
    lt = set(types)
    nm, ns = set(v.loads("arg1[].src.mpf.mtime", "st_mtim.tv_sec", "st_mtim")), set(v.loads("arg1[].src.mpf.size", "stat.st_size"))
    om, os_ = set(v.loads("database.msgs[].src.mpf.mtime")), set(v.loads("database.msgs[].src.mpf.size"))
    mode = set(v.loads("stat.st_mode"))
    nty = set(v.loads("arg1[].type"))

    def round1(kind, found, fast, st, md, t, s):
        def pin(i):
            if i in lt or i in nty:
                return B(K[kind])
            if i.opc == "load":
                for grp, val in ((nm, 1000 + t), (ns, 500 + s), (om, 1000), (os_, 500), (mode, md)):
                    if i in grp:
                        return B(val)
            if i.opc == "call":
                if i.cname == "lookup_msgpath":
                    return B(found)
                if i.cname in ("stat", "lstat", "stat64"):
                    return B(st)
                if i.cname in ("__errno_location",):
                    return B(NZ)
            return None
        return v.round(hl, pin, {v.fast: B(fast)})
    for kind in ("FILE", "IMAP"):
        for found in (-1, 0, 3):
            for fast in (0, 1):
                for st, md in ((0, REG), (-1, REG), (0, DIR), (0, FIFO)):
                    for t, s in ((0, 0), (1, 0), (-1, 0), (0, 7), (0, -7), (5, 5)):
                        if (found < 0 or fast or kind == "IMAP" or st or md != REG) and (t, s) != (0, 0) and (t, s) != (1, 0):
                            continue
                        if kind == "IMAP" and (t or s):
                            continue    # IMAP messages have neither
                        z = round1(kind, found, fast, st, md, t, s)
                        want = found >= 0 and (fast or kind == "IMAP" or (st == 0 and md == REG and not t and not s))
                        case = "%s %s" % ({"FILE": "file", "IMAP": "IMAP message"}[kind], "not found any more" if found < 0 else "found again (fast index)" if fast and kind == "FILE" else
                                          "found again" if kind == "IMAP" else "that cannot be examined" if st else "that is no regular file now" if md != REG else
                                          "with another modification time and size" if t and s else "with another modification time" if t else "with another size" if s else "unchanged")
                        for nme, sts in (("keep", kst), ("known", nst)):
                            key = "C15:%s:%s:%s" % (nme, kind, case.replace(" ", "-"))
                            on = [i for i in sts if i.bb in z.blocks and z.get(i.ops[0]) is not None and 0 not in z.get(i.ops[0])]
                            if want:
                                r.require(bool(on) and not v.skips(z, hl, on), key, "%s: %s" % (case, nme),
                                          "%s (update_database): a %s is %s" % (v.look[0].where, case, "marked deleted" if nme == "keep" else "added to the index a second time"))
                            else:
                                r.require(not on, key, "%s: not %s" % (case, nme),
                                          "%s (update_database): a %s is %s" % (on[0].where if on else "", case, "kept in the index as it was" if nme == "keep" else "not indexed again"))
    stat_of(r, v, hl)
    for fld, src in (("mtime", "st_mtim"), ("size", "st_size")):
        for i in v.stores("arg1[].src.mpf." + fld):
            x = strip(i.ops[0])
            if x.kind == "inst" and x.opc == "load" and v.ap(x) and all(q.startswith("stat.") for q in v.ap(x)):
                r.require(all(src in q for q in v.ap(x)), "C15:stat:" + fld, "%s taken from the file at %s" % (fld, i.where), "%s (update_database): %s of a file is taken from %s" % (i.where, fld, "|".join(sorted(v.ap(x)))))
    deaths(r, v, hd, dead, marks[keep], K)
    if len(ha) != 1 or None in ha:
        r.notes.append("loop that adds messages not recognised")
        return
    ha = ha.pop()
    additions(r, v, ha, adds, marks[known], K, nm, ns, mode, nty)
    scan(r, v, ha, adds, K)


def cleared(r, v, keep, known):
    """both mark arrays start as all zero, over their whole size"""
    for a, nm, want in ((keep, "still present", {"database.n_msgs"}), (known, "already known", None)):
        if a.cname == "calloc":
            continue
        z = [c for c in v.f.insts() if c.opc == "call" and (c.cname in ("bzero", "explicit_bzero") or c.cname.startswith("llvm.memset") or c.cname == "memset") and v.base(c.args[0]) is a]
        if not z:
            lp = [i for i in v.f.insts() if i.opc == "store" and v.base(i.ops[1]) is a and i.ops[0].kind == "int" and i.ops[0].c == 0]
            if not lp:
                r.require(False, "C15:clear", "", "%s (update_database): the marks of messages %s are not cleared" % (a.where, nm))
            continue
        for c in z:
            n = c.args[1] if "bzero" in c.cname else c.args[2]
            g, h = v.lin(n), v.lin(a.args[0])
            if {v.lin.name(x) for x in g.atoms()} and {v.lin.name(x) for x in h.atoms()} == {v.lin.name(x) for x in g.atoms()}:
                r.ok("marks of messages %s cleared at %s" % (nm, c.where))
            elif not g.add(h, -1).atoms():
                r.require(g.add(h, -1).const == 0, "C15:clear", "", "%s (update_database): not all marks of messages %s are cleared" % (c.where, nm))
            else:
                ns = {v.lin.name(x) for x in g.atoms()}
                wrong = ns == {"database.n_msgs"} if want is None else ns == {"arg2"}
                r.require(not wrong, "C15:clear", "marks cleared", "%s (update_database): the marks of messages %s are cleared by the length of the other list" % (c.where, nm))


def look(r, v, c, types, Ll, K):
    """what is looked up: the path of this message, among paths of its own kind"""
    f = v.f
    z = {}
    for kind in ("FILE", "IMAP"):
        s = Sccp(f, pin=lambda i: B(K[kind]) if i in set(types) else None, entry=v.inner(c.bb), avoid=v.exits(v.inner(c.bb)))
        if c.bb in s.blocks:
            z[kind] = s
    if len(c.args) >= 4:
        for kind, s in z.items():
            got = s.get(c.args[3])
            if got is not None and len(got) == 1:
                r.require(got == B(K[kind]), "C15:lookup:kind", "%s messages are looked up as such at %s" % (kind, c.where), "%s (update_database): %s messages are looked up among those of another kind" % (c.where, kind))
    g = v.lin(c.args[2])
    names = {v.lin.name(a) for a in g.atoms()}
    if len(g.atoms()) == 1 and g.const == 0:
        ld = v.lin.val(g.atoms()[0])
        ok = ld.kind == "inst" and ld.opc == "load" and any(q.startswith("database.msgs[].src") for q in v.ap(ld))
        if ok and Ll and Ll.phi is not None:
            x = v.idx(ld.ops[0])
            gg = v.lin(x).add(v.lin(Ll.phi), -1) if x is not None else None
            if gg is not None and not gg.atoms():
                r.require(gg.const == 0, "C15:lookup:path", "path looked up at %s is that of the message" % c.where, "%s (update_database): the path of another message is looked up" % c.where)
    if strip(c.args[0]) is v.paths and strip(c.args[1]).kind == "inst" or strip(c.args[1]) is v.n:
        g = v.lin(c.args[1]).add(v.lin(v.n), -1)
        if not g.atoms():
            r.require(g.const == 0, "C15:lookup:range", "the whole new list is searched at %s" % c.where, "%s (update_database): only the first n%+d paths of the new list are searched" % (c.where, g.const))


def stat_of(r, v, h):
    """the file examined is the one found"""
    body = v.loops[h]
    for i in [i for b in body for i in b.insts if i.opc == "call" and i.cname in ("stat", "lstat", "stat64")]:
        r.require(i.cname != "lstat", "C15:lstat", "links are followed at %s" % i.where, "%s (update_database): a message reached through a link is judged by the link, not by the message" % i.where)
        ld = strip(i.args[0])
        if ld.kind == "inst" and ld.opc == "load" and all(q.startswith("arg1[]") for q in v.ap(ld)):
            x = v.idx(ld.ops[0])
            if x is not None:
                r.require(x in v.look or x.opc == "phi" and not x.bb is h, "C15:stat", "the path examined at %s is the one found" % i.where, "%s (update_database): the file examined is not the one found" % i.where)


def deaths(r, v, hd, dead, keep, K):
    """second pass: exactly the messages without a mark, and mbox messages that are gone, become deleted"""
    p, f = v.p, v.f
    body = v.loops[hd]
    L = v.counted(hd)
    types = set(v.loads("database.type[]", within=body))
    kl = {i for i in keep[0] if i.bb in body}
    mp = set(v.loads("database.mboxen[].path", within=body))
    nv = set(v.loads("database.mboxen[].n_old_msgs_valid", within=body))
    nm = set(v.loads("database.mboxen[].n_msgs", within=body))
    mi = set(v.loads("mbox.msg_index", within=body))
    fi = set(v.loads("mbox.file_index", "database.msgs[].src.mbox", within=body)) - mi
    for i in dead:
        x = v.idx(i.ops[1])
        if L and L.phi is not None and x is not None:
            g = v.lin(x).add(v.lin(L.phi), -1)
            if not g.atoms():
                r.require(g.const == 0, "C15:dead:index", "message deleted at %s is the one examined" % i.where, "%s (update_database): the message marked deleted is not the one examined" % i.where)
    for i in kl:
        x = v.idx(i.ops[0])
        if L and L.phi is not None and x is not None:
            g = v.lin(x).add(v.lin(L.phi), -1)
            if not g.atoms():
                r.require(g.const == 0, "C15:dead:mark", "mark read at %s is that of the message" % i.where, "%s (update_database): the mark of another message decides whether this one is deleted" % i.where)
    phis = [i for i in hd.insts if i.opc == "phi" and (L is None or i is not L.phi)]

    def rnd(kind, mark=1, path=NZ, idx=0, valid=5):
        def pin(i):
            if i in types:
                return B(K[kind])
            if i in kl:
                return B(mark)
            if i in mp:
                return B(path)
            if i in nv:
                return B(valid)
            if i in nm:
                return B(9)
            if i in mi:
                return B(idx)
            if i in phis:
                return B(0)
            return None
        return v.round(hd, pin)
    acc = None
    for kind, kw, want, what in [("FILE", dict(mark=1), 0, "file that is still there"), ("FILE", dict(mark=0), 1, "file that is gone or changed"),
                                 ("IMAP", dict(mark=1), 0, "IMAP message that is still there"), ("IMAP", dict(mark=0), 1, "IMAP message that is gone"),
                                 ("MBOX", dict(idx=0), 0, "message among the valid ones of its mbox"), ("MBOX", dict(idx=4), 0, "message that is the last valid one of its mbox"),
                                 ("MBOX", dict(idx=5), 1, "message just after the valid ones of its mbox"), ("MBOX", dict(idx=8), 1, "message after the valid ones of its mbox"),
                                 ("MBOX", dict(path=0, idx=0), 1, "message of an mbox that is gone"), ("MBOX", dict(path=0, idx=0, valid=0), 1, "message of an mbox that is gone")]:
        s = rnd(kind, **kw)
        on = [i for i in dead if i.bb in s.blocks]
        key = "C15:dead:" + what.replace(" ", "-")
        if want:
            r.require(bool(on) and not v.skips(s, hd, on), key, "%s is marked deleted" % what, "%s (update_database): a %s is not marked deleted" % (dead[0].where, what))
            if on:
                chg = {x for x in phis if (lambda b: b is not None and b and 0 not in b)(v.back(s, x))}
                acc = chg if acc is None else acc & chg
        else:
            r.require(not on, key, "%s is kept" % what, "%s (update_database): a %s is marked deleted" % (on[0].where if on else "", what))
    s = rnd("DEAD")
    r.require(not [i for i in dead if i.bb in s.blocks] or True, "x", "deleted messages stay deleted", "")
    # the mbox looked at is the one the message is in
    for i in mp | nv:
        x = v.idx(i.ops[0])
        if x is not None and x.kind == "inst" and x.opc == "load":
            r.require(x not in mi, "C15:dead:mbox", "the mbox examined at %s is the message's" % i.where, "%s (update_database): the validity of another mbox is looked at" % i.where)
    # a deletion makes the run report a change
    if acc is None:
        return
    rets = [b.term for b in f.blocks if b.term.opc == "ret" and b.term.ops]
    ok = False
    for x in acc:
        ex = [e for e in v.exits(hd) if e.term.opc != "unreachable"]
        for e in ex[:1]:
            for val in (1, 3):
                z = Sccp(f, pin=lambda i: B(val) if i is x else B(0) if i.opc == "call" and i.cname == "add_mbox_messages" else None, entry=hd, args={v.n: B(0)}, avoid=[b for b in body if b is not hd])
                got = [z._nonzero(t.ops[0]) for t in rets if t.bb in z.blocks]
                if got and all(got):
                    ok = True
                else:
                    ok = False
                    break
        if ok:
            break
    if rets and acc:
        r.require(ok, "C15:report:deleted", "a run that only deletes messages reports a change", "%s (update_database): the run can report no change although messages were marked deleted, so the database is not written" % rets[0].where)
    elif rets:
        r.require(False, "C15:report:deleted", "", "%s (update_database): marking messages deleted is not counted, so the database may not be written" % dead[0].where)


def additions(r, v, ha, adds, known, K, nm, ns, mode, nty):
    p, f = v.p, v.f
    body = v.loops[ha]
    L = v.covers(r, ha, set(), "C15:loop:add", "paths found", args={v.n})
    kl = {i for i in known[0] if i.bb in body}
    for i in kl:
        x = v.idx(i.ops[0])
        if L and L.phi is not None and x is not None:
            g = v.lin(x).add(v.lin(L.phi), -1)
            if not g.atoms():
                r.require(g.const == 0, "C15:add:mark", "mark read at %s is that of the path" % i.where, "%s (update_database): the mark of another path decides whether this one is added" % i.where)
    phis = [i for i in ha.insts if i.opc == "phi" and (L is None or i is not L.phi)]

    def rnd(kind, mark, st=0, md=REG):
        def pin(i):
            if i in kl:
                return B(mark)
            if i in nty:
                return B(K[kind])
            if i in mode:
                return B(md)
            if i in phis:
                return B(0)
            if i.opc == "call":
                if i.cname in ("stat", "stat64", "lstat"):
                    return B(st)
                if i.cname in ("malloc", "realloc", "strcpy"):
                    return B(NZ)
            return None
        return v.round(ha, pin)
    acc = None
    for kind, kw, want, what in [("FILE", dict(mark=0), 1, "new file"), ("FILE", dict(mark=1), 0, "file already in the index"), ("IMAP", dict(mark=0), 1, "new IMAP message"),
                                 ("IMAP", dict(mark=1), 0, "IMAP message already in the index"), ("FILE", dict(mark=0, st=-1), 0, "file that cannot be examined"),
                                 ("FILE", dict(mark=0, md=DIR), 0, "directory"), ("FILE", dict(mark=0, md=FIFO), 0, "FIFO")]:
        s = rnd(kind, **kw)
        on = [i for i in adds if i.bb in s.blocks]
        key = "C15:add:" + what.replace(" ", "-")
        if want:
            r.require(bool(on) and not v.skips(s, ha, on), key, "%s is added" % what, "%s (update_database): a %s is not added to the index" % (adds[0].where, what))
            if on:
                chg = {x for x in phis if (lambda b: b is not None and b and 0 not in b)(v.back(s, x))}
                acc = chg if acc is None else acc & chg
        else:
            r.require(not on, key, "%s is not added" % what, "%s (update_database): a %s is added to the index" % (on[0].where if on else "", what))
    for i in adds:
        g = v.lin(i.ops[0])
        if len(g.atoms()) == 1 and v.lin.name(g.atoms()[0]) == "database.n_msgs":
            r.require(g.const == 1, "C15:add:count", "number of messages grows by one at %s" % i.where, "%s (update_database): the number of messages changes by %d for one message" % (i.where, g.const))
    # what is recorded
    for end, src in (("database.msgs[].src.mpf.mtime", ("arg1[].src.mpf.mtime", "tv_sec")), ("database.msgs[].src.mpf.size", ("arg1[].src.mpf.size", "st_size")), ("database.type[]", ("arg1[].type",))):
        for i in v.stores(end, within=body):
            x = strip(i.ops[0])
            fld = end.split(".")[-1].replace("[]", "")
            if x.kind == "int":
                r.require(False, "C15:record:" + fld, "", "%s (update_database): the %s recorded for a new message is constant" % (i.where, fld)) if fld != "type" else None
                continue
            if x.kind == "inst" and x.opc == "load" and v.ap(x):
                good = all(q.endswith(src) for q in v.ap(x))
                bad = all(q.startswith(("arg1[]", "stat.")) for q in v.ap(x)) and not any(q.endswith(src) for q in v.ap(x))
                if good or bad:
                    r.require(good, "C15:record:" + fld, "%s of a new message recorded at %s" % (fld, i.where), "%s (update_database): the %s recorded for a new message is its %s" % (i.where, fld, "|".join(v.ap(x))))
                y = v.idx(x.ops[0]) if any(q.startswith("arg1") for q in v.ap(x)) else None
                if y is not None and L and L.phi is not None and not v.lin(y).add(v.lin(L.phi), -1).atoms():
                    r.require(v.lin(y).add(v.lin(L.phi), -1).const == 0, "C15:record:index", "%s recorded at %s is that of the path added" % (fld, i.where), "%s (update_database): the %s of another file is recorded" % (i.where, fld))
            k = v.idx(i.ops[1])
            if k is not None:
                g = v.lin(k)
                if len(g.atoms()) == 1 and v.lin.name(g.atoms()[0]) == "database.n_msgs":
                    late = any(a.bb is i.bb and a.pos < k.pos for a in adds if k.kind == "inst" and k.opc == "load" and k.bb is i.bb)
                    r.require(g.const == (-1 if late else 0), "C15:record:slot", "new message recorded in its own place (%s)" % i.where, "%s (update_database): a new message is recorded in the place of another" % i.where)
    if acc is not None:
        v.acc = acc
        # reports
        rets = [b.term for b in f.blocks if b.term.opc == "ret" and b.term.ops]
        good = False
        for x in acc:
            z = Sccp(f, pin=lambda i: B(1) if i is x else B(0) if i.opc == "call" and i.cname == "add_mbox_messages" else None, entry=ha, avoid=[b for b in body if b is not ha])
            got = [z._nonzero(t.ops[0]) for t in rets if t.bb in z.blocks]
            good |= bool(got) and all(got)
        if rets:
            r.require(good, "C15:report:added", "a run that adds messages reports a change", "%s (update_database): the run can report no change although messages were added" % rets[0].where)
    mb = list(f.calls("add_mbox_messages"))
    if mb and L is not None:
        rets = [b.term for b in f.blocks if b.term.opc == "ret" and b.term.ops]
        z = Sccp(f, pin=lambda i: B(1) if i in mb else None, entry=ha, avoid=[b for b in body if b is not ha])
        r.require(not v.avoidable(z, ha, mb), "C15:mbox-scan", "new mbox messages are always looked for", "%s (update_database): new messages in mboxen are not always looked for" % mb[0].where)
        got = [z._nonzero(t.ops[0]) for t in rets if t.bb in z.blocks]
        if got:
            r.require(all(got), "C15:report:mbox", "a run that finds new mbox messages reports a change", "%s (update_database): new mbox messages do not make the run report a change" % mb[0].where)


def scan(r, v, ha, adds, K):
    """every message added is read and its words entered under its own number"""
    p, f = v.p, v.f
    toks = list(f.calls("tokenise_message"))
    if not toks:
        r.require(False, "C15:scan", "", "db.c (update_database): new messages are never scanned") if not p.may_reach({"tokenise_message"}) else r.notes.append("scanning of new messages not recognised")
        return
    hs = v.inner(toks[0].bb)
    if hs is None:
        r.notes.append("loop that scans new messages not recognised")
        return
    body = v.loops[hs]
    L = v.counted(hs)
    if hs is not ha:
        if L is None or L.phi is None:
            r.notes.append("range of the scanning loop not recognised")
        else:
            r.require(not L.other_exits, "C15:scan:range", "scanning does not stop early", "%s (update_database): scanning of new messages may stop early" % hs.insts[-1].where)
            lo = [x for x, b in L.phi.inc if b not in body]
            for x in lo:
                g = v.lin(x)
                x = strip(x)
                if x.kind == "int":
                    r.require(False, "C15:scan:start", "", "%s (update_database): scanning starts at message %d, not at the first new one" % (hs.insts[-1].where, x.c))
                elif len(g.atoms()) == 1 and v.lin.name(g.atoms()[0]) == "database.n_msgs":
                    ld = v.lin.val(g.atoms()[0])
                    lds = [i for i in walk(x) if i.opc == "load"]
                    before = all(sym.dominates(v.dom, i.bb, ha) for i in lds)
                    r.require(g.const == 0 and before and bool(lds), "C15:scan:start", "scanning starts at the first new message", "%s (update_database): scanning does not start at the first message added by this run" % hs.insts[-1].where)
            from c06 import bound_paths
            if bound_paths(p, L) == {"database.n_msgs"}:
                r.require(L.hi[1] == 0, "C15:scan:end", "scanning includes the last message", "%s (update_database): scanning ends before the last new message" % hs.insts[-1].where)
            # entered whenever something was added
            acc = getattr(v, "acc", set())
            hit = False
            for x in acc:
                z = Sccp(f, pin=lambda i: B(1) if i is x else None, entry=ha, avoid=[b for b in v.loops[ha] if b is not ha])
                hit |= not v.avoidable(z, ha, [hs.insts[0]])
            if acc:
                r.require(hit, "C15:scan:entered", "messages added are scanned", "%s (update_database): messages were added but may not be scanned" % hs.insts[-1].where)
    types = set(v.loads("database.type[]", within=body))
    rd = {"FILE": "make_rfc822", "IMAP": "make_rfc822_from_imap"}
    lens = {i for b in body for i in b.insts if i.opc == "call" and i.cname == "strlen"}
    for kind, fn in rd.items():
        for ln, cmp, parsed in ((5, 1, 1), (30, 1, 1), (30, -1, 1), (30, 1, 0), (9, 0, 1)):
            def pin(i):
                if i in types:
                    return B(K[kind])
                if i in lens:
                    return B(ln)
                if i.opc == "call":
                    if i.cname in ("strcmp", "strncmp", "memcmp", "bcmp"):
                        return B(cmp)
                    if i.cname in rd.values():
                        return B(NZ if parsed else 0)
                return None
            s = v.round(hs, pin)
            mk = [c for b in body for c in b.insts if c.opc == "call" and c.cname == fn and c.bb in s.blocks]
            wr = [c for b in body for c in b.insts if c.opc == "call" and c.cname in rd.values() and c.cname != fn and c.bb in s.blocks]
            r.require(bool(mk) and not v.skips(s, hs, mk) and not wr, "C15:scan:read:" + kind, "%s messages are read by %s" % (kind, fn), "%s (update_database): a new %s message is not read, so none of its words are found" % (toks[0].where, kind))
            tk = [c for c in toks if c.bb in s.blocks]
            if parsed:
                r.require(bool(tk) and not v.skips(s, hs, tk), "C15:scan:words:" + kind, "words of %s messages are entered" % kind, "%s (update_database): the words of a new %s message are not entered in the index" % (toks[0].where, kind))
            for c in mk:
                ld = strip(c.args[0])
                y = v.idx(ld.ops[0]) if ld.kind == "inst" and ld.opc == "load" and any("msgs[]" in q for q in v.ap(ld)) else None
                if y is not None and L and L.phi is not None and not v.lin(y).add(v.lin(L.phi), -1).atoms():
                    r.require(v.lin(y).add(v.lin(L.phi), -1).const == 0, "C15:scan:path", "the message read at %s is the one scanned" % c.where, "%s (update_database): another message's file is read" % c.where)
            for c in tk:
                y = strip(c.args[0])
                if L and L.phi is not None and not v.lin(y).add(v.lin(L.phi), -1).atoms():
                    r.require(v.lin(y).add(v.lin(L.phi), -1).const == 0, "C15:scan:number", "words are entered under the message's number at %s" % c.where, "%s (update_database): words are entered under the number of another message" % c.where)


def walk(x, d=0):
    yield x
    if d < 6 and x.kind == "inst" and x.opc in ("add", "sub", "zext", "sext", "trunc"):
        for o in x.ops:
            if o.kind == "inst":
                yield from walk(o, d + 1)


def driver(r):
    """main: what was changed is written"""
    p = inlined_prog(keep={"update_database", "write_database", "cull_dead_messages", "build_mbox_lists", "search_top", "dump_database", "build_message_list", "build_imap_message_list", "sort_message_list", "new_database_from_file", "new_database", "parse_rc_file", "lock_database", "member_of", "unlock_database", "unlock_and_exit", "free_database", "check_database_integrity"})
    v = View(p, "main")
    up, wr, bl = list(v.f.calls("update_database")), list(v.f.calls("write_database")), list(v.f.calls("build_mbox_lists"))
    if not up or not wr:
        r.notes.append("call of update_database or write_database in main not recognised")
        return
    for u in up:
        z = Sccp(v.f, pin=lambda i: B(1) if i is u else None, entry=u.bb)
        r.require(not v.avoidable(z, u.bb, wr), "C15:main:write", "an update that reports changes is written", "%s (main): the changes made by an indexing run are not always written to the database" % u.where)
        for b in bl:
            r.require(sym.inst_dominates(v.dom, b, u), "C15:main:mbox", "mboxen are examined before the update", "%s (main): mboxen are not always examined before the update" % u.where)
        if not bl:
            r.require(False, "C15:main:mbox", "", "%s (main): mboxen are not examined" % u.where)
