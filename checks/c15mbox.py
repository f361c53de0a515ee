"""C15, mboxen: which messages of a mailbox stay valid, and that the rest is scanned anew."""
import sym
from prog import inlined_prog
from rounds import View, B, NZ, Sccp
from util import strip

REG, LNK = 0o100644, 0o120777
STAT = ("stat", "stat64")


def run(r):
    v = V("build_mbox_lists", {"create_ro_mapping", "free_ro_mapping", "compute_checksum", "glob_and_expand_paths", "split_on_colons", "free_string_array", "check_duplicates", "build_new_message_list", "build_mbox_lists", "lookup_extant_mbox"})
    extant(r, v)
    marry(r, v)
    validity(r, v)
    chunks(r)
    add(r)


class V(View):
    def __init__(self, name, keep):
        View.__init__(self, inlined_prog(keep=keep), name)

    def cell(self, i):
        ptr = i.ops[1] if i.opc == "store" else i.ops[0]
        b, st = self.p.s.gepsteps(ptr)
        return b if b.kind == "inst" and b.opc == "alloca" and not st else None


def extant(r, v):
    """every configured mailbox that exists is considered, with the state of the mailbox itself"""
    f = v.f
    st = [i for i in v.stores(".full_path") if i.ops[0].kind != "null"]
    tm, sz = v.stores("[].mtime"), v.stores("[].size")
    ls = [c for c in f.calls("lstat", "lstat64", *STAT)]
    h = v.inner(st[0].bb) if st else None
    if h is None or not ls or any(v.inner(c.bb) is not h for c in ls):
        r.notes.append("list of existing mboxen not recognised")
        return
    body = v.loops[h]
    mode = set(v.loads("stat.st_mode"))
    a = v.f.params[4] if hasattr(v.f, "params") else v.f.args[4]
    L = v.counted(h)
    if L is None or L.phi is None or L.other_exits:
        r.notes.append("loop over the mbox paths not recognised")
    phis = [i for i in h.insts if i.opc == "phi" and (L is None or i is not L.phi)]
    for what, res, md, follow, want in (("mailbox", 0, REG, 0, 1), ("mailbox (links followed)", 0, REG, 1, 1), ("mailbox that does not exist", -1, REG, 0, 0), ("link, not to be followed", 0, LNK, 0, 0), ("link to be followed", 0, LNK, 1, 1)):
        first = {}

        def pin(i):
            if i in mode:
                return B(md)
            if i.opc == "call":
                if i in ls:
                    return B(res)
                if i.cname in ("malloc", "strcpy", "strdup"):
                    return B(NZ)
            if i in phis:
                return B(3)
            return None
        s = v.round(h, pin, {a: B(follow)})
        for nm, sts in (("path", st), ("modification time", tm), ("size", sz)):
            on = [i for i in sts if i.bb in s.blocks]
            key = "C15:extant:%s:%s" % (what.replace(" ", "-"), nm.replace(" ", "-"))
            if want:
                r.require(bool(on) and not v.skips(s, h, on), key, "%s: %s noted" % (what, nm), "%s (build_mbox_lists): the %s of a %s is not noted" % (st[0].where, nm, what))
            elif nm == "path":
                r.require(not on, key, "%s is left out" % what, "%s (build_mbox_lists): a %s is not left out" % (st[0].where, what))
        if want:
            inc = [x for x in phis if v.back(s, x) == B(4)]
            if phis:
                r.require(bool(inc), "C15:extant:count", "each mailbox gets a place of its own", "%s (build_mbox_lists): an existing mailbox is overwritten by the next one" % st[0].where)
        if md == LNK and follow:
            deep = [c for c in ls if c.cname in STAT and c.bb in s.blocks]
            r.require(bool(deep) and not v.skips(s, h, deep), "C15:extant:link", "a mailbox behind a link is judged by the mailbox", "%s (build_mbox_lists): a mailbox reached through a link is judged by the link, so changes to the mailbox are not noticed" % ls[0].where)
    bufs = {strip(c.args[1]) for c in ls}
    for i, fld in [(i, "st_mtim.tv_sec") for i in tm if i.bb in body] + [(i, "st_size") for i in sz if i.bb in body]:
        x = strip(i.ops[0])
        if x.kind == "inst" and x.opc == "load" and v.ap(x) and all(q.startswith("stat.") for q in v.ap(x)):
            r.require(all(q.endswith(fld) for q in v.ap(x)) or fld == "st_mtim.tv_sec" and all("st_mtim" in q for q in v.ap(x)), "C15:extant:field", "%s noted at %s" % (fld, i.where), "%s (build_mbox_lists): %s is noted instead of %s" % (i.where, "|".join(v.ap(x)), fld))
        elif x.kind == "int":
            r.require(False, "C15:extant:field", "", "%s (build_mbox_lists): a constant is noted instead of %s" % (i.where, fld))


def marry(r, v):
    """known mailboxes: found again -> current state recorded; not found -> dropped"""
    f = v.f
    look = list(f.calls("lookup_extant_mbox"))
    ct, cs = v.stores("database.mboxen[].current_mtime"), v.stores("database.mboxen[].current_size")
    if not look:
        r.notes.append("looking up of known mboxen not recognised")
        return
    h = v.inner(look[0].bb)
    if h is None:
        r.notes.append("loop over known mboxen not recognised")
        return
    body = v.loops[h]
    L = v.covers(r, h, {"database.n_mboxen"}, "C15:marry:loop", "known mboxen")
    mp = set(v.loads("database.mboxen[].path", within=body))
    dbix = [i for i in v.stores("[].db_index") if i.bb in body]
    o2n = [i for i in f.insts() if i.opc == "store" and i.bb in body and strip(i.ops[0]) in look]
    for found in (0, 3, -1):
        s = v.round(h, lambda i: B(NZ) if i in mp else B(found) if i in look else None)
        for nm, sts in (("modification time", ct), ("size", cs), ("place in the index", dbix)):
            on = [i for i in sts if i.bb in s.blocks and i.bb in body]
            key = "C15:marry:%s" % nm.replace(" ", "-")
            if found >= 0:
                r.require(bool(on) and not v.skips(s, h, on), key, "current %s of a known mbox noted" % nm, "%s (build_mbox_lists): the current %s of a known mbox is not noted" % (look[0].where, nm))
            else:
                r.require(not on, key, "nothing noted for an mbox that is gone", "%s (build_mbox_lists): an mbox that was not found is given the %s of another" % (look[0].where, nm))
    for i, fld in [(i, ".mtime") for i in ct] + [(i, ".size") for i in cs]:
        x = strip(i.ops[0])
        if x.kind == "inst" and x.opc == "load" and v.ap(x):
            other = ".size" if fld == ".mtime" else ".mtime"
            good = all(q.endswith(fld) for q in v.ap(x))
            if good or all(q.endswith(other) or "file_" in q for q in v.ap(x)):
                r.require(good, "C15:marry:field", "current%s noted at %s" % (fld, i.where), "%s (build_mbox_lists): %s is noted as current%s" % (i.where, "|".join(v.ap(x)), fld))
            y = v.idx(x.ops[0])
            if i.bb in body and y is not None and good:
                if L and L.phi is not None and y is L.phi:
                    r.require(False, "C15:marry:index", "", "%s (build_mbox_lists): the state of another mbox is noted" % i.where)
        elif x.kind == "int":
            r.require(False, "C15:marry:field", "", "%s (build_mbox_lists): a constant is noted as current%s" % (i.where, fld))
    # dropping
    gone = [i for i in v.stores("database.mboxen[].path") if i.ops[0].kind == "null"]
    hg = {v.inner(i.bb) for i in gone} - {None}
    hg = [g for g in hg if not any(c.bb in v.loops[g] for c in f.calls("create_ro_mapping"))]
    if len(hg) != 1:
        if not hg:
            r.require(bool(gone) and False, "C15:marry:gone", "", "mbox.c (build_mbox_lists): an mbox that is gone is not dropped from the index") if not gone else r.notes.append("dropping of mboxen not recognised")
        else:
            r.notes.append("dropping of mboxen not recognised")
    else:
        g = hg[0]
        if g is h:
            for found, want in ((-1, 1), (0, 0), (3, 0)):
                s = v.round(g, lambda i: B(NZ) if i in mp else B(found) if i in look else None)
                dropped(r, v, s, g, gone, want)
        else:
            v.covers(r, g, {"database.n_mboxen"}, "C15:marry:loop", "known mboxen")
            arr = {v.base(i.ops[1]) for i in o2n}
            ld = {i for b in v.loops[g] for i in b.insts if i.opc == "load" and i.ty == "i32" and (v.base(i.ops[0]) in arr or any(a in arr for a in phi_in(v.base(i.ops[0]))))}
            if not ld:
                r.notes.append("how mboxen to drop are told is not recognised")
            else:
                for val, want in ((-1, 1), (0, 0), (3, 0)):
                    s = v.round(g, lambda i: B(val) if i in ld else None)
                    dropped(r, v, s, g, gone, want)
                for i in o2n:
                    x = v.idx(i.ops[1])
                    if L and L.phi is not None and x is not None:
                        q = v.lin(x).add(v.lin(L.phi), -1)
                        if not q.atoms() or x in look:
                            r.require(not q.atoms() and q.const == 0, "C15:marry:note", "what was found is noted for that mbox", "%s (build_mbox_lists): what was found is noted for another mbox" % i.where)
                    s = v.round(h, lambda i: B(NZ) if i in mp else B(3) if i in look else None)
                    r.require(not v.skips(s, h, o2n), "C15:marry:found", "a mailbox that was found is not dropped", "%s (build_mbox_lists): a mailbox that was found may be dropped" % look[0].where)
    # new ones are appended
    new = [i for i in v.stores("database.mboxen[].path") if i.ops[0].kind != "null"]
    ha = {v.inner(i.bb) for i in new} - {None}
    nn = v.stores("database.n_mboxen")
    if len(ha) == 1:
        ha = ha.pop()
        bl = v.loops[ha]
        ld = set(v.loads("[].db_index", within=bl))
        for val, want in ((-1, 1), (0, 0), (2, 0)):
            s = v.round(ha, lambda i: B(val) if i in ld else B(NZ) if i.opc == "call" else None)
            on = [i for i in new if i.bb in s.blocks]
            if want:
                r.require(bool(on) and not v.skips(s, ha, on), "C15:new-mbox", "a new mbox is added", "%s (build_mbox_lists): a new mbox is not added to the index" % new[0].where)
                for fld in ("current_mtime", "current_size", "n_msgs", "n_old_msgs_valid", "max_msgs", "file_size", "file_mtime"):
                    on = [i for i in v.stores("database.mboxen[]." + fld, within=bl) if i.bb in s.blocks]
                    zero = [i for i in on if not (fld in ("n_msgs", "n_old_msgs_valid", "max_msgs") and not (i.ops[0].kind == "int" and i.ops[0].c == 0))]
                    ms = any(c.opc == "call" and (c.cname or "").startswith(("memset", "llvm.memset", "bzero")) for b in bl for c in b.insts)
                    r.require(ms or bool(zero) and not v.skips(s, ha, zero), "C15:new-mbox:" + fld, "%s of a new mbox set" % fld, "%s (build_mbox_lists): %s of a new mbox is not set%s" % (new[0].where, fld, "" if not on else " to zero"))
            else:
                r.require(not on, "C15:new-mbox:twice", "a known mbox is not added again", "%s (build_mbox_lists): a known mbox is added a second time" % new[0].where)
    else:
        r.notes.append("adding of new mboxen not recognised")
    ini = [i for i in v.stores("[].db_index") if i.ops[0].kind == "int"]
    for i in ini:
        r.require(i.ops[0].c < 0, "C15:marry:init", "mailboxes are unknown until found", "%s (build_mbox_lists): every mailbox counts as known from the start" % i.where)


def phi_in(x):
    return {strip(a) for a, _ in x.inc} if x.kind == "inst" and x.opc == "phi" else ({strip(o) for o in x.ops[1:]} if x.kind == "inst" and x.opc == "select" else set())


def dropped(r, v, s, g, gone, want):
    on = [i for i in gone if i.bb in s.blocks]
    if want:
        r.require(bool(on) and not v.skips(s, g, on), "C15:marry:gone", "an mbox that is gone is dropped", "%s (build_mbox_lists): an mbox that is gone is not dropped from the index" % gone[0].where)
    else:
        r.require(not on, "C15:marry:found", "an mbox that is there is not dropped", "%s (build_mbox_lists): an mbox that is still there is dropped from the index" % gone[0].where)


def validity(r, v):
    f, p = v.f, v.p
    maps = list(f.calls("create_ro_mapping"))
    hs = {v.outer(c.bb) for c in maps} - {None}
    if len(hs) != 1:
        r.notes.append("examination of mboxen not recognised")
        return
    h = hs.pop()
    body = v.loops[h]
    v.covers(r, h, {"database.n_mboxen"}, "C15:valid:loop", "mboxen")
    M = "database.mboxen[]."
    ld = {n: set(v.loads(M + n, within=body)) for n in ("path", "current_mtime", "current_size", "file_mtime", "file_size", "n_msgs")}
    nov, nms = [i for i in v.stores(M + "n_old_msgs_valid") if i.bb in body], [i for i in v.stores(M + "n_msgs") if i.bb in body]
    pth = [i for i in v.stores(M + "path") if i.bb in body and i.ops[0].kind == "null"]
    nl = [i for i in v.stores(M + "new_msgs") if i.bb in body]
    builds = [c for c in f.calls("build_new_message_list") if c.bb in body]
    if not nov or not builds:
        r.notes.append("recording of what is valid in an mbox not recognised")
        return
    vac = {strip(c.args[1]) for c in maps}
    lnc = {strip(c.args[2]) for c in maps}
    sl = set(v.loads(M + "start[]", M + "start", within=body)), set(v.loads(M + "len[]", M + "len", within=body))
    sl = {i for i in sl[0] if i.ty == "i64"}, {i for i in sl[1] if i.ty == "i64"}
    cmps = [c for b in body for c in b.insts if c.opc == "call" and c.cname in ("memcmp", "bcmp")]
    cls = {}
    for c in cmps:
        cls[c] = which(r, v, c, body)
    loops = [x for x in v.loops if x is not h and x in body]

    def rnd(mt=(1, 1), sz=(1, 1), va=NZ, ln=100, n=4, last=1, first=1, mid=1, start=10, length=5, path=NZ):
        """last/first/mid: what comparing that message's checksum gives (0: equal)"""
        def pin(i):
            if i in ld["path"]:
                return B(path)
            for nm, val in (("current_mtime", 1000 + mt[1]), ("file_mtime", 1000 + mt[0]), ("current_size", 2000 + sz[1]), ("file_size", 2000 + sz[0]), ("n_msgs", n)):
                if i in ld[nm]:
                    return B(val)
            if i in sl[0] and i.ty == "i64":
                return B(start)
            if i in sl[1] and i.ty == "i64":
                return B(length)
            if i in cls:
                return {"last": B(last), "first": B(first), "mid": B(mid), None: None}[cls[i]]
            if i.opc == "load" and strip(i.ops[0]) in vac:
                return B(va)
            if i.opc == "load" and strip(i.ops[0]) in lnc:
                return B(ln)
            return None
        return v.round(h, pin)
    # unchanged
    w = maps[0].where
    for mt, sz, chg in (((1, 1), (1, 1), 0), ((1, 2), (1, 1), 1), ((2, 1), (1, 1), 1), ((1, 1), (1, 9), 1), ((1, 1), (9, 1), 1), ((1, 2), (1, 2), 1)):
        s = rnd(mt, sz)
        mp = [c for c in maps if c.bb in s.blocks]
        what = "%s%s" % ("modification time" if mt[0] != mt[1] else "", " size" if sz[0] != sz[1] else "")
        if chg:
            r.require(bool(mp) and not v.skips(s, h, mp), "C15:valid:changed:" + what.strip().replace(" ", "-"), "an mbox with another %s is examined" % what, "%s (build_mbox_lists): an mbox whose %s changed is taken as unchanged" % (w, what.strip()))
        else:
            on = [i for i in nov if i.bb in s.blocks]
            got = {x for i in on for x in (s.get(i.ops[0]) or {None})}
            if mp and not on:
                continue
            r.require(bool(on) and not v.skips(s, h, on) and got <= {4}, "C15:valid:unchanged", "all messages of an unchanged mbox stay valid", "%s (build_mbox_lists): an unchanged mbox keeps %s of its 4 messages" % (nov[0].where, sorted(map(str, got)) or "none"))
    # changed, contents readable
    ok = None not in cls.values() and set(cls.values()) >= {"last"}
    for c, k in cls.items():
        if k is None:
            r.notes.append("%s: which message is compared is not recognised" % c.where)
    cases = [(dict(n=0), {0}, "an mbox without known messages"), (dict(n=4, last=0), {4}, "a mailbox whose last known message is intact"),
             (dict(n=4, last=1, first=1, mid=1), {0}, "a mailbox whose first message changed"), (dict(n=1, last=1, first=1), {0}, "a mailbox whose only message changed"),
             (dict(n=4, last=0, first=0, mid=0, start=90, length=20), {0}, "a mailbox shorter than its messages"), (dict(n=4, last=0, start=80, length=20), {4}, "a mailbox that ends with its last known message"),
             (dict(n=200, last=0), {200}, "a large mailbox whose last known message is intact"), (dict(n=200, last=1, first=1, mid=1), {0}, "a large mailbox whose first message changed")]
    for kw, want, what in cases if ok else ():
        s = rnd(mt=(1, 2), **kw)
        on = [i for i in nov if i.bb in s.blocks]
        vals = [s.get(i.ops[0]) for i in on]
        if any(x is None for x in vals):
            r.notes.append("number of valid messages for %s not decided" % what)
            continue
        got = set().union(*vals) if vals else set()
        r.require(got == want, "C15:valid:" + what.replace(" ", "-"), "%s: %s valid" % (what, sorted(want)), "%s (build_mbox_lists): for %s, %s messages count as valid, not %s" % (nov[0].where, what, sorted(got), sorted(want)))
    s = rnd(mt=(1, 2))
    b = [c for c in builds if c.bb in s.blocks]
    r.require(bool(b) and not v.skips(s, h, b), "C15:valid:rescan", "the rest of a changed mbox is scanned", "%s (build_mbox_lists): a changed mbox is not scanned for new messages" % builds[0].where)
    keep = [i for i in nl if strip(i.ops[0]) in builds]
    r.require(bool(keep) and not v.skips(s, h, keep), "C15:valid:new", "the new messages found are noted", "%s (build_mbox_lists): the new messages found in an mbox are not noted" % builds[0].where)
    # the others are forgotten: n_msgs is brought down to the valid ones
    fg = [i for i in nms if i.bb in s.blocks and any(v.lin(i.ops[0]) == v.lin(j.ops[0]) for j in nov)] + [i for i in nms if i.bb in s.blocks and strip(i.ops[0]).kind == "inst" and strip(i.ops[0]).opc == "load" and all(q.endswith("n_old_msgs_valid") for q in v.ap(strip(i.ops[0])))]
    r.require(bool(fg) and not v.skips(s, h, fg), "C15:valid:forget", "messages no longer valid are forgotten", "%s (build_mbox_lists): the number of known messages is not reduced to the valid ones, so positions that were never restored are used later" % nov[0].where)
    # unreadable or empty
    s = rnd(mt=(1, 2), va=0, ln=0)
    on = [i for i in nov if i.bb in s.blocks and s.get(i.ops[0]) == B(0)]
    r.require(bool(on) and not v.skips(s, h, on) and not [c for c in builds if c.bb in s.blocks], "C15:valid:empty", "an emptied mbox has no valid messages", "%s (build_mbox_lists): messages of an emptied mbox stay valid" % maps[0].where)
    s = rnd(mt=(1, 2), va=0, ln=100)
    on = [i for i in nov if i.bb in s.blocks and s.get(i.ops[0]) == B(0)] + [i for i in pth if i.bb in s.blocks]
    r.require(bool(on) and not v.skips(s, h, on), "C15:valid:unreadable", "an unreadable mbox has no valid messages", "%s (build_mbox_lists): messages of an mbox that cannot be read stay valid" % maps[0].where)
    # the search for the last intact message
    for lp in loops:
        mids = [c for c in cmps if cls[c] == "mid" and c.bb in v.loops[lp]]
        if mids:
            chop(r, v, lp, mids[0], nov, cls, sl, lnc)


def which(r, v, c, body):
    """the message whose checksum is compared: last / first / mid; also checks that the parts belong together"""
    side = [a for a in c.args[:2] if any("check_all" in v.lin.name(x) for x in v.lin(a).atoms())]
    other = [a for a in c.args[:2] if a not in side]
    if len(side) != 1:
        return None
    g = v.lin(side[0])
    rest = [(g[a], a) for a in g.atoms() if "check_all" not in v.lin.name(a)]
    n = c.args[2]
    if n.kind == "int":
        r.require(n.c == 16, "C15:intact:len", "whole checksums are compared at %s" % c.where, "%s (build_mbox_lists): only %d of the 16 bytes of a checksum are compared" % (c.where, n.c))
    k = None
    if not rest:
        k = "first" if g.const == 0 else None
        ix = v.lin(c.args[2]).scale(0)
    elif len(rest) == 1 and rest[0][0] == 16:
        nm = v.lin.name(rest[0][1])
        ix = None
        if nm.endswith("n_msgs"):
            k = "last" if g.const == -16 else None
            if g.const != -16:
                r.require(False, "C15:intact:last", "", "%s (build_mbox_lists): the checksum of message n%+d is compared, not that of the last one" % (c.where, g.const // 16))
        elif g.const == 0:
            k = "mid"
    # the checksum compared was computed over that message
    sums = [q for q in v.f.calls("compute_checksum") if sym.inst_dominates(v.dom, q, c) and strip(q.args[2]) is strip(other[0])]
    if not sums:
        r.require(False, "C15:intact:sum", "", "%s (build_mbox_lists): the checksum compared was not computed" % c.where)
        return k
    q = sums[-1]
    idxof = lambda val: None
    parts = []
    for e, arg in (("start", q.args[0]), ("len", q.args[1])):
        for a in v.lin(arg).atoms():
            w = v.lin.val(a)
            if w.kind == "inst" and w.opc == "load" and any(x.endswith((".start", ".start[]", ".len", ".len[]")) for x in v.ap(w)) and w.ty == "i64":
                fld = "start" if any(".start" in x for x in v.ap(w)) else "len"
                gg = v.lin(w.ops[0])
                i8 = [(gg[b], b) for b in gg.atoms() if not v.lin.name(b).endswith((".start", ".len"))]
                parts.append((e, fld, frozenset((k2 * 2, b) for k2, b in i8), gg.const * 2))
    mine = (frozenset(rest), g.const)
    for e, fld, ii, cc in parts:
        r.require(fld == e and (ii, cc) == mine, "C15:intact:extent", "%s of the message compared (%s)" % (e, c.where), "%s (build_mbox_lists): the %s of the bytes summed is not that of the message whose checksum is compared" % (q.where, e))
    return k


def chop(r, v, h, c, nov, cls, sl, lnc):
    """narrowing down: the lower end only ever moves to a message found intact; the result counts up to it"""
    f = v.f
    phis = [i for i in h.insts if i.opc == "phi"]
    body = v.loops[h]
    # lower end: the header phi from which the result is computed
    lo = None
    for i in nov:
        for x in roots(i.ops[0]):
            g = v.lin(x)
            for a in g.atoms():
                if v.lin.val(a) in phis and g[a] == 1:
                    lo = (v.lin.val(a), g.const)
    if lo is None:
        r.notes.append("result of the search for the last intact message not recognised")
        return
    r.require(lo[1] == 1, "C15:chop:result", "valid messages: up to and including the last intact one", "%s (build_mbox_lists): with message l the last one intact, l%+d messages count as valid" % (c.where, lo[1]))
    lo = lo[0]
    ini = [x for x, b in lo.inc if b not in body]
    for x in ini:
        if x.kind == "int":
            r.require(x.c == 0, "C15:chop:start", "the search starts from the first message", "%s (build_mbox_lists): the search for the last intact message takes message %d as intact" % (c.where, x.c))
    his = [i for i in phis if i is not lo]
    if len(his) != 1:
        r.notes.append("search for the last intact message not recognised")
        return
    hi = his[0]
    side = [a for a in c.args[:2] if any("check_all" in v.lin.name(x) for x in v.lin(a).atoms())][0]
    at = [a for a in v.lin(side).atoms() if "check_all" not in v.lin.name(a)]
    idx = v.lin.val(at[0])
    for l in range(0, 6):
        for u in range(l + 1, 8):
            for eq in (0, 1):
                def pin(i):
                    if i is lo:
                        return B(l)
                    if i is hi:
                        return B(u)
                    if i in cls:
                        return B(eq)
                    if i in sl[0] and i.ty == "i64":
                        return B(10)
                    if i in sl[1] and i.ty == "i64":
                        return B(5)
                    if i.opc == "load" and strip(i.ops[0]) in lnc:
                        return B(100)
                    return None
                s = v.round(h, pin)
                nl, nh = v.back(s, lo), v.back(s, hi)
                m = s.get(idx) if c.bb in s.blocks else None
                if c.bb not in s.blocks:
                    r.require(u == l + 1, "C15:chop:stop", "the search stops only when decided", "%s (build_mbox_lists): the search stops although messages %d to %d are undecided" % (c.where, l + 1, u - 1))
                    continue
                if m is None or len(m) != 1 or nl is None or nh is None:
                    r.notes.append("%s: step of the search not decided" % c.where)
                    return
                m = next(iter(m))
                r.require(l < m < u, "C15:chop:probe", "the message examined lies between the ends (%d,%d)" % (l, u), "%s (build_mbox_lists): with ends %d and %d, message %d is examined" % (c.where, l, u, m))
                if eq == 0:
                    r.require(nl <= {m} and nh <= {u}, "C15:chop:intact", "intact message %d: lower end moves there" % m, "%s (build_mbox_lists): message %d between %d and %d is intact, but the ends become %s and %s" % (c.where, m, l, u, sorted(nl), sorted(nh)))
                else:
                    r.require(nl <= {l} and nh <= {m}, "C15:chop:changed", "changed message %d: upper end moves there" % m, "%s (build_mbox_lists): message %d between %d and %d is changed, but the ends become %s and %s" % (c.where, m, l, u, sorted(nl), sorted(nh)))


def roots(x, seen=None):
    seen = set() if seen is None else seen
    x = strip(x)
    if x in seen:
        return set()
    seen.add(x)
    if x.kind == "inst" and x.opc == "phi":
        return set().union(*[roots(a, seen) for a, _ in x.inc])
    if x.kind == "inst" and x.opc == "select":
        return roots(x.ops[1], seen) | roots(x.ops[2], seen)
    return {x}


def chunks(r):
    """splitting of the unscanned part: starts after the last valid message; every chunk noted with its extent"""
    p = inlined_prog(keep={"build_new_message_list"})
    if not p.has("build_new_message_list"):
        r.notes.append("splitting of mboxen not recognised")
        return
    v = View(p, "build_new_message_list")
    f = v.f
    st = [i for i in f.insts() if i.opc == "store" and v.base(i.ops[1]).kind == "inst" and v.base(i.ops[1]).opc in ("call", "phi") and v.inner(i.bb) is not None]
    new = [c for c in f.insts() if c.opc == "call" and c.cname in ("malloc", "calloc", "safe_malloc") and v.inner(c.bb) is not None]
    if len(new) != 1:
        r.notes.append("list of new mbox messages not recognised")
        return
    new = new[0]
    h = v.inner(new.bb)
    body = v.loops[h]
    ind = [c for b in body for c in b.insts if c.opc == "call" and c.cname is None]
    hp = [i for i in h.insts if i.opc == "phi"]
    ms = [c for c in ind if strip(c.args[0]) in hp]
    fs = [c for c in ind if strip(c.args[0]) in ms]
    if len(ms) != 1 or len(fs) != 1:
        r.notes.append("calls that find messages in an mbox not recognised")
        return
    ms, fs = ms[0], fs[0]
    pos = strip(ms.args[0])
    off = {}
    for i in st:
        if v.base(i.ops[1]) is new:
            o = v.lin(i.ops[1]).add(v.lin(new), -1)
            if not o.atoms():
                off.setdefault(o.const, []).append(i)
    a = f.params if hasattr(f, "params") else f.args
    flen = a[2]
    res = [i for i in hp if i is not pos and i.ty == "ptr"]
    cnt = [i for i in f.insts() if i.opc == "store" and i.bb in body and strip(v.base(i.ops[1])) is a[3]]

    def rnd(end, have=0):
        def pin(i):
            if i is pos:
                return B(12)
            if i is ms:
                return B(20)
            if i is fs:
                return B(end)
            if i is new:
                return B(NZ)
            if i in res:
                return B(NZ if have else 0)
            if i.opc == "load" and v.ap(i) == {"@verbose"}:
                return B(0)
            return None
        return v.round(h, pin, {flen: B(100)})
    for end, ln in ((50, 30), (-1, 80)):
        for have in (0, 1):
            s = rnd(end, have)
            what = "a message that runs to the end of the file" if end < 0 else "a message followed by another"
            for o, want, nm in ((8, 20, "start"), (16, ln, "length")):
                on = [i for i in off.get(o, ()) if i.bb in s.blocks]
                got = [s.get(i.ops[0]) for i in on]
                r.require(bool(on) and not v.skips(s, h, on), "C15:chunk:" + nm, "%s of %s is noted" % (nm, what), "%s (build_new_message_list): the %s of %s is not noted" % (new.where, nm, what))
                if on and all(g is not None for g in got):
                    g = set().union(*got)
                    r.require(g == {want}, "C15:chunk:" + nm, "%s of %s" % (nm, what), "%s (build_new_message_list): %s starting at 20%s gets %s %s" % (on[0].where, what, ", the next at 50" if end > 0 else " of 100 bytes", nm, sorted(g)))
            if have:
                link = [i for i in st if i.bb in s.blocks and strip(i.ops[0]) is new and v.base(i.ops[1]) is not new]
                r.require(bool(link) and not v.skips(s, h, link), "C15:chunk:link", "each message found is put on the list", "%s (build_new_message_list): a message found in an mbox is not put on the list" % new.where)
            b = [v.back(s, x) for x in res]
            r.require(all(x is None or 0 not in x for x in b), "C15:chunk:list", "the list is kept", "%s (build_new_message_list): the list of messages found is lost" % new.where)
            if cnt:
                r.require(not v.skips(s, h, [i for i in cnt if i.bb in s.blocks]) and all(v.lin(i.ops[0]).const == 1 for i in cnt), "C15:chunk:count", "messages found are counted", "%s (build_new_message_list): a message found is not counted, so too little room is made for it" % new.where)
            if end > 0:
                nx = v.back(s, pos)
                if nx is not None:
                    r.require(nx <= {50, 55} and bool(nx), "C15:chunk:next", "the next message is looked for where this one ends", "%s (build_new_message_list): after a message ending at 50 the search goes on at %s" % (fs.where, sorted(nx)))
    # where scanning starts
    firsts = [c for c in f.insts() if c.opc == "call" and c.cname is None and c not in (ms, fs)]
    nv = set(v.loads("n_old_msgs_valid"))
    sa, la = [i for i in v.loads(".start", ".start[]") if i.ty == "i64"], [i for i in v.loads(".len", ".len[]") if i.ty == "i64"]
    for c in firsts:
        if c.bb in body:
            continue
        for n in (0, 1, 3):
            s = Sccp(f, pin=lambda i: B(n) if i in nv else B(40) if i in sa else B(7) if i in la else B(1) if i.opc == "call" and i.cname == "strncmp" else None, args={flen: B(100)})
            g = s.get(c.args[0]) if c.bb in s.blocks else None
            if g is not None:
                w = 0 if n == 0 else 47
                r.require(g <= {w}, "C15:chunk:from", "scanning starts after the last valid message (%d valid)" % n, "%s (build_new_message_list): with %d valid messages, the last one at 40 with 7 bytes, scanning starts at %s" % (c.where, n, sorted(g)))
        for i in sa + la:
            g = v.lin(i.ops[0])
            at = [x for x in g.atoms() if v.lin.val(x) in nv or v.lin.name(x).endswith("n_old_msgs_valid")]
            if at:
                r.require(g.const == -8, "C15:chunk:last", "extent of the last valid message at %s" % i.where, "%s (build_new_message_list): scanning starts after message n%+d, not after the last valid one" % (i.where, g.const // 8))


def add(r):
    """each new message of an mbox becomes an entry of the index"""
    v = V("add_mbox_messages", {"create_ro_mapping", "free_ro_mapping", "compute_checksum", "data_to_rfc822", "tokenise_message", "free_rfc822", "format_msg_src", "add_mbox_messages"})
    p, f = v.p, v.f
    inc = [i for i in v.stores("database.n_msgs")]
    if not inc:
        r.require(False, "C15:mbox:add", "", "mbox.c (add_mbox_messages): new mbox messages are not added")
        return
    h = v.inner(inc[0].bb)
    ar = v.around(inc[0].bb)
    if len(ar) < 2:
        r.notes.append("adding of mbox messages not recognised")
        return
    ho = ar[-1]
    Lo = v.covers(r, ho, {"database.n_mboxen"}, "C15:mbox:loop", "mboxen")
    body = v.loops[h]
    toks = [c for c in f.calls("tokenise_message") if c.bb in body]
    par = [c for c in f.calls("data_to_rfc822") if c.bb in body]
    ty, fi, mi = v.stores("database.type[]"), v.stores("src.mbox.file_index", "database.msgs[].src.mbox"), v.stores("src.mbox.msg_index")
    fi = [i for i in fi if i not in mi]
    hp = [i for i in h.insts if i.opc == "phi"]
    js = {strip(i.ops[0]) for i in mi}
    if len(js) == 1 and next(iter(js)) in hp:
        j = next(iter(js))
        for x, b in j.inc:
            g = v.lin(x)
            if b not in body:
                if len(g.atoms()) == 1 and v.lin.name(g.atoms()[0]).endswith("n_old_msgs_valid"):
                    r.require(g.const == 0, "C15:mbox:first", "new messages are numbered from the end of the valid ones", "%s (add_mbox_messages): new messages are numbered from n%+d" % (mi[0].where, g.const))
                elif x.kind == "int":
                    r.require(False, "C15:mbox:first", "", "%s (add_mbox_messages): new messages are numbered from %d" % (mi[0].where, x.c))
            else:
                q = g.add(v.lin(j), -1)
                if not q.atoms():
                    r.require(q.const == 1, "C15:mbox:step", "each new message gets its own number", "%s (add_mbox_messages): the number in the mbox changes by %d per message" % (mi[0].where, q.const))
        for i in v.stores("database.mboxen[].n_msgs"):
            q = v.lin(i.ops[0]).add(v.lin(j), -1)
            if not q.atoms():
                inside = i.bb in body
                r.require(q.const == (1 if inside else 0), "C15:mbox:total", "number of messages of the mbox updated at %s" % i.where, "%s (add_mbox_messages): the mbox is recorded with %d messages too %s" % (i.where, abs(q.const), "many" if q.const > 0 else "few"))
            elif x.kind == "int":
                pass
        nm = v.stores("database.mboxen[].n_msgs")
        r.require(bool(nm), "C15:mbox:total", "number of messages of the mbox updated", "mbox.c (add_mbox_messages): the number of messages of the mbox is not updated")
        for e in ("start[]", "len[]"):
            for i in v.stores("database.mboxen[]." + e):
                q = v.lin(v.idx(i.ops[1])).add(v.lin(j), -1)
                if not q.atoms():
                    r.require(q.const == 0, "C15:mbox:extent", "extent recorded under the message's number (%s)" % i.where, "%s (add_mbox_messages): the extent of a message is recorded under the number of another" % i.where)
    else:
        bad = None
        for i in mi:
            g = v.lin(i.ops[0])
            at = [a for a in g.atoms() if v.lin.val(a) in hp]
            rest = [a for a in g.atoms() if v.lin.val(a) not in hp]
            if len(at) == 1 and g[at[0]] == 1 and rest and all("database.mboxen[]." in v.lin.name(a) for a in rest) and any(v.lin.name(v.lin(x).atoms()[0]).endswith("n_old_msgs_valid") for x, b in v.lin.val(at[0]).inc if b not in body and len(v.lin(x).atoms()) == 1):
                bad = i
        if bad is not None:
            r.require(False, "C15:mbox:number", "", "%s (add_mbox_messages): the number recorded for a new message (%s) is not its place in the mbox" % (bad.where, v.lin.show(v.lin(bad.ops[0]))))
        else:
            r.notes.append("number of a message in its mbox not recognised")
    for i in fi:
        if Lo and Lo.phi is not None:
            q = v.lin(i.ops[0]).add(v.lin(Lo.phi), -1)
            if not q.atoms() or strip(i.ops[0]) in hp:
                r.require(not q.atoms() and q.const == 0, "C15:mbox:which", "messages are recorded as of their mbox", "%s (add_mbox_messages): messages are recorded as of another mbox" % i.where)
    errs = {strip(c.args[3]) for c in par}
    # the entry
    slot = {}
    for i in ty + fi + mi + v.stores("database.msgs[].date"):
        x = v.idx(i.ops[1])
        if x is not None:
            g = v.lin(x)
            if len(g.atoms()) == 1 and v.lin.name(g.atoms()[0]) == "database.n_msgs":
                r.require(g.const == 0, "C15:mbox:slot", "entry of the new message at %s" % i.where, "%s (add_mbox_messages): the place of another message is overwritten" % i.where)
    for i in ty:
        if i.ops[0].kind == "int":
            r.require(i.ops[0].c == p.enum("MTY_MBOX"), "C15:mbox:type", "kind of the new message", "%s (add_mbox_messages): new mbox messages are recorded as another kind" % i.where)
    for c in toks:
        g = v.lin(c.args[0])
        if len(g.atoms()) == 1 and v.lin.name(g.atoms()[0]) == "database.n_msgs":
            after = [i for i in inc if sym.inst_dominates(v.dom, i, c)]
            r.require(g.const == (-1 if after else 0), "C15:mbox:words", "words entered under the number of the new message", "%s (add_mbox_messages): words are entered under the number of another message" % c.where)
    MISS = p.enum("DTR8_MISSING_END")
    acc = [i for i in hp if i.ty in ("i32", "i8", "i1")]
    for err, parsed in ((0, NZ), (0, 0), (MISS, NZ), (MISS, 0)):
        def pin(i):
            if i in par:
                return B(parsed)
            if i.opc == "load" and strip(i.ops[0]) in errs:
                return B(err)
            if i.opc == "load" and i.ty == "ptr" and any(strip(i.ops[0]) is strip(c.args[1]) for c in f.calls("create_ro_mapping")):
                return B(NZ)
            return None
        s = v.round(h, pin)
        on = [i for i in inc if i.bb in s.blocks]
        what = "a new mbox message%s" % (" with an unterminated part" if err else "" if parsed else " that cannot be parsed")
        r.require(bool(on) and not v.skips(s, h, on), "C15:mbox:entry", "%s becomes an entry" % what, "%s (add_mbox_messages): %s does not become an entry of the index" % (inc[0].where, what))
        if parsed and not err:
            t = [c for c in toks if c.bb in s.blocks]
            r.require(bool(t) and not v.skips(s, h, t), "C15:mbox:indexed", "words of %s are entered" % what, "%s (add_mbox_messages): the words of %s are not entered in the index" % (toks[0].where if toks else "mbox.c", what))
        for c in [c for c in toks if c.bb in s.blocks]:
            rs = roots(c.args[2])
            r.require(all(x in par or x.kind == "null" for x in rs), "C15:mbox:parsed", "what is entered is what was parsed", "%s (add_mbox_messages): something else than the new message is entered" % c.where)
    nn = [i for i in v.loads("database.mboxen[].new_msgs") if i.bb in v.loops[ho]]
    s = v.round(ho, lambda i: B(NZ) if i in nn else None)
    s0 = v.round(ho, lambda i: B(0) if i in nn else None)
    r.require(h in s.blocks and not v.skips(s, ho, [h.insts[0]]), "C15:mbox:all", "every mbox with new messages is handled", "%s (add_mbox_messages): new messages of an mbox are not handled" % inc[0].where)
    rets = [b.term for b in f.blocks if b.term.opc == "ret" and b.term.ops]
    if rets and acc:
        x = [i for i in roots2(rets[0].ops[0]) if i.kind == "inst" and i.opc == "phi" and i.bb in (h, ho)]
        hit = [q for q in hp if q in x]
        if hit:
            s = v.round(h, lambda i: B(0) if i in hit else B(NZ) if i in par else None)
            b = v.back(s, hit[0])
            r.require(b is None or 0 not in b, "C15:mbox:report", "new mbox messages are reported", "%s (add_mbox_messages): a new mbox message does not make the run report a change" % inc[0].where)


def roots2(x, seen=None):
    """phis the value passes through"""
    seen = set() if seen is None else seen
    x = strip(x)
    if x in seen:
        return set()
    seen.add(x)
    if x.kind == "inst" and x.opc == "phi":
        for a, _ in x.inc:
            roots2(a, seen)
    return seen
