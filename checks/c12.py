"""C12: every live match is delivered in every result format; deleted messages never are."""
import deliver, sym, loopinfo
from sccp import Sccp, NZ
from vec import Vec
from lin import Lins
from util import strip

FLOOR = 30
B = lambda x: frozenset([x])
FT = {"FT_MAILDIR": "Maildir", "FT_MH": "MH", "FT_MBOX": "mbox", "FT_RAW": "raw", "FT_EXCERPT": "excerpt", "FT_IMAP": "IMAP"}
TY = {"DB_MSG_FILE": "file", "DB_MSG_MBOX": "mbox", "DB_MSG_IMAP": "IMAP"}
LINK = {"symlink", "link", "symlinkat", "linkat"}
WRITE = {"fwrite", "write", "fwrite_unlocked"}
PRINT = {"printf", "fprintf", "puts", "fputs"}
SINKS = {}
for _f in ("FT_MAILDIR", "FT_MH"):
    SINKS[_f, "DB_MSG_FILE"] = LINK
    SINKS[_f, "DB_MSG_MBOX"] = WRITE
    SINKS[_f, "DB_MSG_IMAP"] = {"imap_fetch_message_raw"}
SINKS["FT_MBOX", "DB_MSG_FILE"] = SINKS["FT_MBOX", "DB_MSG_MBOX"] = WRITE
SINKS["FT_MBOX", "DB_MSG_IMAP"] = {"imap_fetch_message_raw"}
for _t in TY:
    SINKS["FT_RAW", _t] = SINKS["FT_EXCERPT", _t] = PRINT
SINKS["FT_IMAP", "DB_MSG_FILE"] = SINKS["FT_IMAP", "DB_MSG_MBOX"] = {"imap_append_new_message"}
SINKS["FT_IMAP", "DB_MSG_IMAP"] = {"imap_copy_message"}


NAMES = {}


def codes():
    """message kind codes of the database file (macros of reader.h)"""
    import os, re, build
    out = {"DB_MSG_DEAD": 0, "DB_MSG_FILE": 1, "DB_MSG_MBOX": 2, "DB_MSG_IMAP": 3}
    try:
        for m in re.finditer(r"^\s*#\s*define\s+(DB_MSG_\w+)\s+(\d+)", open(os.path.join(build.REPO, "reader.h"), encoding="latin1").read(), re.M):
            out[m.group(1)] = int(m.group(2))
    except OSError:
        pass
    return out


class D:
    """the delivery part of do_search"""

    def __init__(self):
        p = self.p = deliver.view()
        f = self.f = p.fn("do_search")
        self.V = Vec(p, f)
        self.lin = Lins(p)
        self.dom = p.dom(f)
        self.loops = sym.loops(f)
        n = {}
        for a in f.params:
            if a.ty == "i32":
                cs = set()
                for i in f.insts():
                    if i.opc == "switch" and strip(i.ops[0]) is a:
                        cs |= {c for c, _ in i.cases}
                    elif i.opc == "icmp" and strip(i.ops[0]) is a and i.ops[1].kind == "int":
                        cs.add(i.ops[1].c)
                n[a] = len(cs)
        self.ftarg = max(n, key=lambda a: n[a]) if n and max(n.values()) >= 4 else None
        self.problem = None
        # the list of results: int array filled with message numbers under a condition on a hit array
        self.res = None
        for h, body in self.V.loops.items():
            L = self.V.info[h]
            for b in body:
                for i in b.insts:
                    if i.opc == "store" and strip(i.ops[0]) is L.phi and not self.V.array_of(i):
                        base, st = p.s.gepsteps(i.ops[1])
                        base = strip(base)
                        if base.kind == "inst" and base.opc == "call" and base.cname in ("malloc", "calloc") and len(st) == 1:
                            self.res, self.store, self.fill, self.nidx = base, i, h, strip(st[0][1])
        if self.res is None:
            self.problem = "the list of results was not recognised"
            return
        # count: loop phi used as index (possibly as n_hits++)
        self.count = self.nidx if self.nidx.kind == "inst" and self.nidx.opc == "phi" else None
        if self.count is None or self.count.bb is not self.fill:
            self.problem = "the number of results was not recognised"
            return
        self.deliv = {}         # header -> (body, Loop, load of results[ii])
        for h, body in self.loops.items():
            lds = [i for b in body for i in b.insts if i.opc == "load" and self.isres(i)]
            if not lds or any(h2 is not h and h2 in body and any(i.bb in self.loops[h2] for i in lds) for h2 in self.loops):
                continue
            self.deliv[h] = (body, loopinfo.counted(p.s, h, body, self.dom), lds)

    def isres(self, i):
        base, st = self.p.s.gepsteps(i.ops[0])
        return strip(base) is self.res and all(s[0] == "[]" for s in st)

    def roots(self, v, seen=None):
        seen = set() if seen is None else seen
        v = strip(v)
        if v in seen:
            return set()
        seen.add(v)
        if v.kind == "inst" and v.opc == "phi":
            out = set()
            for x, _ in v.inc:
                out |= self.roots(x, seen)
            return out
        if v.kind == "inst" and v.opc == "select":
            return self.roots(v.ops[1], seen) | self.roots(v.ops[2], seen)
        return {v}

    def alloca(self, v):
        b, st = self.p.s.gepsteps(v)
        return b if b.kind == "inst" and b.opc == "alloca" else None


def sccp_loop(d, h, body, ft, t, extra=None, sums=0, parsed=1, avoid=()):
    p, f = d.p, d.f
    types = {i for b in body for i in b.insts if i.opc == "load" and p.s.paths(i) == {"read_db.msg_type_and_flags[]"}}
    tset = frozenset(x if x < 128 else x - 256 for x in (t, t | 8, t | 16, t | 32, t | 24, t | 40, t | 48, t | 56))
    imap, maps = {}, {}
    for i in f.insts():
        if i.opc == "icmp" and i.ops[1].kind == "null" and i.pred in ("eq", "ne"):
            if any(x.kind == "inst" and x.opc == "call" and x.cname == "imap_start" for x in d.roots(i.ops[0])):
                imap[i] = B(int(i.pred == "ne"))

    def pin(i):
        if i in types:
            return tset
        if i in imap:
            return imap[i]
        if i.opc == "call":
            if i.cname in ("memcmp", "bcmp"):
                return B(sums)
            if i.cname in ("fopen", "imap_start"):
                return B(NZ)
            if i.cname in ("make_rfc822", "make_rfc822_from_imap", "data_to_rfc822"):
                return B(NZ if parsed else 0)
        if extra:
            return extra(i)
        return None

    def cell(i):
        ptr = i.ops[1] if i.opc == "store" else i.ops[0]
        b, st = p.s.gepsteps(ptr)
        return b if b.kind == "inst" and b.opc == "alloca" and not st else None

    def effect(i, st):
        if i.opc == "call" and i.cname == "create_ro_mapping":
            a = d.alloca(i.args[1])
            if a is not None:
                st[a] = B(NZ)
            a = d.alloca(i.args[2])
            if a is not None:
                st[a] = None
    out = [s for b in body for s in b.succs if s not in body]
    return Sccp(f, pin=pin, entry=h, avoid=list(out) + list(avoid), args={d.ftarg: B(ft)} if d.ftarg else {}, cell=cell, init={}, effect=effect, cap=24)


def skip_path(s, h, body, through):
    """can one round of the loop be made without executing any of the calls?"""
    blocked = {c.bb for c in through}
    seen, wl = set(), [x for (a, x) in s.edges if a is h and x in body]
    while wl:
        b = wl.pop()
        if b is h:
            return True
        if b in seen or b in blocked:
            continue
        seen.add(b)
        wl += [y for (a, y) in s.edges if a is b and (y in body)]
    return False


def msgno(d, v, lds):
    """how v refers to the message: 'i' the message number taken from the results"""
    return strip(v) in lds


def path_of(d, v, lds):
    """v is the path of the message: data + path_offsets[i]; returns 'ok', 'other' (another message/another table) or None"""
    l = d.lin(v)
    names, idx = {}, None
    for a in l.atoms():
        w = d.lin.val(a)
        names["|".join(sorted(d.p.s.paths(w)))] = (l[a], w)
    if set(names) == {"read_db.data", "read_db.path_offsets[]"} and l.const == 0:
        w = names["read_db.path_offsets[]"][1]
        ix = [s[1] for s in d.p.s.gepsteps(w.ops[0])[1] if s[0] == "[]"]
        if len(ix) == 1:
            return "ok" if msgno(d, ix[0], lds) else "other" if known_index(d, ix[0]) else None
    if set(names) == {"read_db.data", "read_db.mbox_paths_table[]"} and l.const == 0:
        return "mbox"
    return "other" if names and set(names) <= {"read_db.data", "read_db.path_offsets[]"} else None


def known_index(d, v):
    return strip(v).kind == "int" or strip(v).kind == "inst" and strip(v).opc in ("phi", "add", "sub")


def run(r, tier):
    r.rule("results = the matching live messages; every result format delivers every result of every kind, each exactly once and from its own source; exit status tells whether there were any")
    d = D()
    p, f = d.p, d.f
    if d.problem:
        r.notes.append(d.problem)
        r.floor_waived = True
        return
    E = p.enum
    results(r, d)
    if d.ftarg is None:
        ints = [a for a in f.params if a.ty == "i32"]
        r.notes.append("the parameter for the result format was not recognised")
        r.floor_waived = True
        return
    # which loop serves which format
    sw = Sccp_ft(d)
    for ftn, what in FT.items():
        hs = [h for h in d.deliv if h in sw[ftn]]
        if len(hs) != 1:
            r.require(len(hs) > 0, "C12:noloop:" + ftn, "the %s format handles the results" % what, "search.c (do_search): no loop over the results is reached for the %s format" % what)
            if hs:
                r.notes.append("%s: %d loops over the results" % (what, len(hs)))
            continue
        h = hs[0]
        body, L, lds = d.deliv[h]
        cover(r, d, h, body, L, lds, what)
        NAMES.clear()
        for tn, tw in TY.items():
            deliver_one(r, d, h, body, L, set(lds), ftn, what, tn, tw)
        for k, forms in NAMES.items():
            if any(len(x) != 1 for x in forms):
                r.notes.append("%s: names given to results of different kinds not compared" % what)
                continue
            r.require(len(forms) == 1, k + ":names", "%s results are named by the same number whatever their kind" % what,
                      "%s (do_search): %s results are named by %s: two results can get the same name" % (sorted(w for w, t in forms.values())[-1], what, " and ".join(sorted("%s%+d" % (sorted(x)[0][0], sorted(x)[0][2]) for x in forms))))
    outcome(r, d)
    callbacks(r, d)
    excerpt(r, d)
    path_search(r, d)
    imap_parse(r)


def Sccp_ft(d):
    out = {}
    for ftn in FT:
        s = Sccp(d.f, entry=d.fill, args={d.ftarg: B(d.p.enum(ftn))})
        out[ftn] = s.blocks
    return out


def results(r, d):
    p, f, V = d.p, d.f, d.V
    h, body = d.fill, V.loops[d.fill]
    L = V.info[h]
    c = loopinfo.covers_from_zero(L)
    from c06 import bound_paths
    where = d.store.where
    if c is None or bound_paths(p, L) != {"read_db.n_msgs"}:
        r.notes.append("range of the loop collecting results (%s) not recognised" % where)
    else:
        r.require(c[0] == 0 and c[2] == 0 and not L.other_exits, "C12:collect:range", "results are collected from all messages",
                  "%s (do_search): the collection of results leaves out messages (covers [%s, n_msgs%+d)%s)" % (where, c[0], c[2], ", may stop early" if L.other_exits else ""))
    init = [v for v, b in d.count.inc if b not in body]
    r.require(all(v.kind == "int" and v.c == 0 for v in init), "C12:collect:start", "the number of results starts at 0", "%s (do_search): the number of results does not start at 0" % where) if all(v.kind == "int" for v in init) else None
    hl = {i for b in body for i in b.insts if i.opc == "load" and V.array_of(i) is not None}
    tl = {i for b in body for i in b.insts if i.opc == "load" and p.s.paths(i) == {"read_db.msg_type_and_flags[]"}}
    if not hl:
        r.notes.append("the test of the match array at %s was not recognised" % where)
        return
    for w in (0, 1):
        for t in (0, 1, 2, 3):
            for fl in (0, 8, 56):
                def pin(i):
                    if i in hl:
                        return B(w)
                    if i in tl:
                        return B(t | fl)
                    return None
                s = Sccp(f, pin=pin, entry=h, avoid=[x for b in body for x in b.succs if x not in body])
                reach = d.store.bb in s.blocks
                skip = skip_path(s, h, body, [d.store])
                want = bool(w) and t != codes()["DB_MSG_DEAD"]
                what = "a %s %s" % ("matching" if w else "non-matching", {0: "deleted message", 1: "message file", 2: "mbox message", 3: "IMAP message"}[t])
                if reach and skip:
                    r.notes.append("whether %s is collected is not decided" % what)
                    continue
                r.require(reach == want, "C12:collect:%d:%d" % (w, t), what + (" is a result" if want else " is not a result"),
                          "%s (do_search): %s %s" % (where, what, "becomes a result" if reach else "does not become a result"))
    # after storing, the count goes up by one; otherwise it stays
    for v, b in d.count.inc:
        if b not in body:
            continue
        terms = d.roots(v)
        forms = {(d.lin(x).get(("v", d.count), 0), d.lin(x).const, len(d.lin(x).atoms())) if x is not d.count else (1, 0, 1) for x in terms}
        r.require(forms <= {(1, 1, 1), (1, 0, 1)} and (1, 1, 1) in forms or not all(x[2] == 1 for x in forms), "C12:collect:count", "one more result for each message collected",
                  "%s (do_search): the number of results does not increase by one for each message collected" % where)


def cover(r, d, h, body, L, lds, what):
    where = lds[0].where
    if L is None or L.phi is None:
        r.notes.append("range of the %s delivery loop (%s) not recognised" % (what, where))
        return
    c = loopinfo.covers_from_zero(L)
    if c is None:
        r.notes.append("range of the %s delivery loop (%s) not recognised: %s..%s" % (what, where, L.lo, L.hi))
        return
    n = d.p.s.expr(d.count)
    ks = set()
    for i in lds:
        ix = [s[1] for s in d.p.s.gepsteps(i.ops[0])[1] if s[0] == "[]"]
        g = d.lin(ix[0]).add(d.lin(L.phi), -1) if len(ix) == 1 else None
        ks.add(g.const if g is not None and not g.atoms() else None)
    if None in ks or len(ks) != 1:
        v = [s[1] for i in lds for s in d.p.s.gepsteps(i.ops[0])[1] if s[0] == "[]"]
        if any(x.kind == "int" for x in v):
            r.require(False, "C12:loop:index:" + what, "", "%s (do_search): delivery in %s format does not take each result in turn" % (where, what))
        r.notes.append("%s: which result is delivered is not decided" % where)
        return
    k = ks.pop()
    if c[1] != n:
        r.notes.append("bound of the %s delivery loop (%s) not recognised" % (what, where))
    else:
        r.require(c[0] + k == 0 and c[2] + k == 0 and not L.other_exits, "C12:loop:" + what, "%s delivery handles all results" % what,
                  "%s (do_search): delivery in %s format leaves out results (covers [%s, n%+d)%s)" % (where, what, c[0] + k, c[2] + k, ", may stop early" if L.other_exits else ""))


def deliver_one(r, d, h, body, L, lds, ftn, what, tn, tw):
    p = d.p
    s = sccp_loop(d, h, body, p.enum(ftn), codes()[tn])
    names = SINKS[ftn, tn]
    cand = [c for b in body if b in s.blocks for c in b.insts if c.opc == "call" and c.cname in names]
    where = next(iter(lds)).where
    key = "C12:%s:%s" % (ftn, tn)
    desc = "%s results for %s messages" % (what, tw)
    if names is PRINT or names is WRITE:
        cand = [c for c in cand if carries(d, c, lds)]
    elif names is LINK:
        pass
    if not cand:
        r.require(False, key, desc, "%s (do_search): a matching %s message is not delivered when the result format is %s" % (where, tw, what))
        return
    sk = skip_path(s, h, body, cand)
    r.require(not sk, key, desc + " are delivered", "%s (do_search): a matching %s message may be left out when the result format is %s (no delivery on some path though everything succeeded)" % (cand[0].where, tw, what))
    # no second kind of delivery for this message
    # identity
    for c in cand:
        ident(r, d, c, s, lds, L, key, what, tw, tn)


def carries(d, c, lds):
    """the call outputs data of this message (its path, or bytes of a mapping)"""
    for a in c.args:
        if path_of(d, a, lds) in ("ok", "other", "mbox"):
            return True
    if c.cname in WRITE:
        a = c.args[1] if c.cname == "write" else c.args[0]
        for x in d.roots(a):
            b = d.p.s.gepsteps(x)[0]
            if b.kind == "inst" and b.opc == "load" and d.alloca(b.ops[0]) is not None:
                return True
    return False


def ident(r, d, c, s, lds, L, key, what, tw, tn):
    p = d.p
    where = c.where

    def pathcheck(v, role):
        k = path_of(d, v, lds)
        if k is None:
            r.notes.append("%s: %s not recognised" % (where, role))
        else:
            r.require(k == "ok", key + ":path", "%s at %s is that of the result" % (role, where), "%s (do_search): %s is not that of the message being delivered" % (where, role))
    if c.cname in LINK:
        pathcheck(c.args[0], "the link target")
        name_unique(r, d, c, c.args[1], lds, L, key)
    elif c.cname == "imap_fetch_message_raw":
        pathcheck(c.args[0], "the message fetched")
        if len(c.args) > 3 and not any(x.kind == "inst" and x.opc == "call" and x.cname == "fopen" for x in d.roots(c.args[3])):
            name_unique(r, d, c, c.args[3], lds, L, key)
    elif c.cname == "imap_copy_message":
        pathcheck(c.args[1], "the message copied")
    elif c.cname in PRINT:
        if tn != "DB_MSG_MBOX":
            for a in c.args[1:] if c.cname == "printf" else c.args:
                if path_of(d, a, lds):
                    pathcheck(a, "the path printed")
        else:
            mbox_path(r, d, c, [a for a in c.args if path_of(d, a, lds)], lds, key)
            forms = [d.lin(a) for a in c.args if a.ty in ("i32", "i64")]
            if len(forms) == 2:
                want = [{"read_db.mtime_table[]"}, {"read_db.mtime_table[]", "read_db.size_table[]"}]
                for g, w in zip(forms, want):
                    ns = {d.lin.name(a) for a in g.atoms()}
                    if ns <= {"read_db.mtime_table[]", "read_db.size_table[]"}:
                        r.require(ns == w and g.const == 0 and all(g[a] == 1 for a in g.atoms()) and all(idx_ok(d, d.lin.val(a), lds) for a in g.atoms()), key + ":extent", "extent printed at %s" % where,
                                  "%s (do_search): the extent printed for an mbox message is %s, not the place recorded for it" % (where, d.lin.show(g)))
    elif c.cname in WRITE or c.cname == "imap_append_new_message":
        if what in (FT.get("FT_MH"), FT.get("FT_MAILDIR")):
            for o in d.f.calls("fopen", "fopen64", "open", "open64", "creat"):
                if o.bb in L.body and o.bb in s.blocks and sym.dominates(d.dom, o.bb, c.bb):
                    name_unique(r, d, o, o.args[0], lds, L, key)
        a = c.args[2] if c.cname == "imap_append_new_message" else c.args[1] if c.cname == "write" else c.args[0]
        n = c.args[3] if c.cname == "imap_append_new_message" else c.args[2]
        maps = set()
        for x in d.roots(a):
            b = p.s.gepsteps(x)[0]
            if b.kind == "inst" and b.opc == "load":
                al = d.alloca(b.ops[0])
                maps |= {m for m in d.f.calls("create_ro_mapping") if d.alloca(m.args[1]) is al and m.bb in s.blocks}
        for m in maps:
            if tn == "DB_MSG_FILE":
                k = path_of(d, m.args[0], lds)
                if k:
                    r.require(k == "ok", key + ":path", "the file written at %s is the result" % where, "%s (do_search): the bytes delivered are not those of the matching message's file" % where)
                # all of it
                lf = d.roots(n)
                for x in lf:
                    if x.kind == "inst" and x.opc == "load" and d.alloca(x.ops[0]) is not None:
                        r.require(d.alloca(x.ops[0]) is d.alloca(m.args[2]), key + ":len", "length delivered at %s" % where, "%s (do_search): the length delivered is not that of the message file" % where)
                    elif x.kind == "inst" and x.opc in ("add", "sub"):
                        g = d.lin(x)
                        if g.const and len(g.atoms()) == 1 and d.alloca(d.lin.val(g.atoms()[0]).ops[0] if d.lin.val(g.atoms()[0]).kind == "inst" and d.lin.val(g.atoms()[0]).opc == "load" else x) is d.alloca(m.args[2]):
                            r.require(False, key + ":len", "", "%s (do_search): %d bytes of the message file are %s" % (where, abs(g.const), "left out" if g.const < 0 else "added beyond its end"))
            else:
                mbox_path(r, d, m, [m.args[0]], lds, key)
                for x in d.roots(a):
                    if x.kind == "null":
                        continue
                    g = d.lin(x)
                    ns = {d.lin.name(z): z for z in g.atoms()}
                    off = {n_: z for n_, z in ns.items() if n_.startswith("read_db.")}
                    if set(off) and set(off) <= {"read_db.mtime_table[]", "read_db.size_table[]", "read_db.date_table[]", "read_db.path_offsets[]"}:
                        z = off.get("read_db.mtime_table[]")
                        r.require(set(off) == {"read_db.mtime_table[]"} and g.const == 0 and idx_ok(d, d.lin.val(z), lds), key + ":start", "start of the mbox message delivered at %s" % where,
                                  "%s (do_search): the mbox message is not taken from the place recorded for it (%s)" % (where, d.lin.show(g)))
        if not maps:
            r.notes.append("%s: source of the bytes not recognised" % where)


def idx_ok(d, ld, lds):
    ix = [s[1] for s in d.p.s.gepsteps(ld.ops[0])[1] if s[0] == "[]"]
    if len(ix) != 1:
        return True
    return msgno(d, ix[0], lds) or not known_index(d, ix[0])


def packed(d, v, lds):
    """v read from the packed position of an mbox message: (byte offset, 'ok' | 'other' | None)"""
    v = strip(v)
    if v.kind != "inst" or v.opc != "load":
        return None
    b, st = d.p.s.gepsteps(v.ops[0])
    off = sum(x[1] for x in st if x[0] != "[]")
    if b.kind == "inst" and b.opc == "alloca" and all(x[0] != "[]" for x in st):
        src = [c for c in d.f.calls() if c.cname.startswith(("llvm.memcpy", "memcpy", "memmove", "llvm.memmove")) and d.alloca(c.args[0]) is b and sym.dominates(d.dom, c.bb, v.bb)]
        if len(src) == 1:
            return off, path_of(d, src[0].args[1], lds)
        return None
    g = d.lin(v.ops[0])
    k = path_of(d, v.ops[0], lds)
    if {d.lin.name(x) for x in g.atoms()} == {"read_db.data", "read_db.path_offsets[]"}:
        w = next(d.lin.val(x) for x in g.atoms() if d.lin.name(x) == "read_db.path_offsets[]")
        return g.const, "ok" if idx_ok(d, w, lds) else "other"
    return None


def mbox_path(r, d, c, args, lds, key):
    """mbox_paths_table[mbi], mbi being the first of the two numbers packed at data + path_offsets[i]"""
    for a in args:
        l = d.lin(a)
        tb = [d.lin.val(x) for x in l.atoms() if d.lin.name(x) == "read_db.mbox_paths_table[]"]
        if len(tb) != 1:
            k = path_of(d, a, lds)
            if k == "ok":
                r.require(False, key + ":mbox", "", "%s (do_search): the packed mbox position of a message is used as a path" % c.where)
            continue
        ix = [s[1] for s in d.p.s.gepsteps(tb[0].ops[0])[1] if s[0] == "[]"]
        bb = packed(d, ix[0], lds) if len(ix) == 1 else None
        if bb is None or bb[1] is None:
            r.notes.append("%s: which mbox is used is not decided" % c.where)
            continue
        r.require(bb == (0, "ok"), key + ":mbox", "the mbox used at %s is that of the message" % c.where,
                  "%s (do_search): the mbox used is not the one recorded for the message" % c.where)


def name_unique(r, d, c, path, lds, L, key):
    """the name of the new file is distinct for each result: a number printed into it depends one-to-one on the message or the position"""
    p = d.p
    pr = []
    for q in d.f.calls("sprintf", "snprintf", "asprintf"):
        if q.bb in L.body and sym.dominates(d.dom, q.bb, c.bb):
            pr.append(q)
    if not pr:
        r.notes.append("%s: how the name of the new file is built was not recognised" % c.where)
        return
    ok = bad = False
    forms = set()
    for q in pr:
        for a in q.args[2:]:
            if a.ty not in ("i32", "i64"):
                continue
            g = d.lin(a)
            at = g.atoms()
            if len(at) == 1 and g[at[0]] in (1, -1):
                v = d.lin.val(at[0])
                if v in lds or strip(v) is L.phi or d.isres(v) if v.kind == "inst" and v.opc == "load" else strip(v) is L.phi:
                    ok = True
                    forms.add(("place among the results" if strip(v) is L.phi else "message number", g[at[0]], g.const))
                    continue
            bad = True
    if forms:
        # one result can be named by one form only; which one is compared over all kinds of messages of a format
        NAMES.setdefault(key.rsplit(":", 1)[0], {}).setdefault(frozenset(forms), (c.where, key.rsplit(":", 1)[1]))
    if ok:
        r.ok("names of new files at %s are distinct" % c.where)
    elif bad or not pr:
        r.require(False, key + ":name", "", "%s (do_search): the name of the new file is not distinct for each result" % c.where)


def outcome(r, d):
    p, f = d.p, d.f
    body = d.V.loops[d.fill]
    lx = [s for b in body for s in b.succs if s not in body and s.term.opc != "unreachable"]
    cnts = {d.count}
    for n, want in ((0, 1), (1, 0), (7, 0)):
        for e in lx:
            s = Sccp(f, pin=lambda i: B(n) if i is d.count else None, entry=e, args={d.ftarg: B(p.enum("FT_RAW"))})
            # entry block phis are unknown; the count is defined before
            s = Sccp(f, pin=lambda i: B(n) if i is d.count else None, entry=d.fill, args={d.ftarg: B(p.enum("FT_RAW"))})
            rets = [b.term for b in s.blocks if b.term.opc == "ret"]
            vals = set()
            for t in rets:
                y = s.get(t.ops[0]) if t.ops else None
                vals |= {None} if y is None else set(y)
            if None in vals or not vals:
                r.notes.append("exit status for %d results not decided" % n)
                continue
            r.require(vals == {want}, "C12:status:%d" % n, "status for %d results" % n, "search.c (do_search): with %d results the search reports status %s, not %d" % (n, sorted(vals), want))
            break
    for c in f.calls("printf", "fprintf"):
        fm = next((a.s for a in c.args if a.kind == "global" and a.s is not None), "")
        if "atched" in fm and "%d" in fm:
            a = c.args[-1]
            r.require(d.roots(a) == {d.count} or strip(a) is d.count or bool(d.roots(a) & {d.count}), "C12:matched", "the number reported is the number of results", "%s (do_search): the number of matches reported is not the number of results" % c.where)


def callbacks(r, d):
    """functions given to imap_fetch_message_raw write out everything they are given"""
    p = d.p
    fns = {x.fn for c in d.f.calls("imap_fetch_message_raw") for a in c.args for x in d.roots(a) if x.kind == "func"}
    for g in fns:
        if g.decl or len(g.params) < 2:
            continue
        ws = [c for c in g.calls(*WRITE)]
        s = Sccp(g, pin=lambda i: B(NZ) if i.opc == "call" and i.cname == "fopen" else None)
        ws = [c for c in ws if c.bb in s.blocks]
        lin = Lins(p)
        hit = False
        for c in ws:
            data, n = (c.args[1], [c.args[2]]) if c.cname == "write" else (c.args[0], [c.args[1], c.args[2]])
            if strip(data) is not g.params[0]:
                continue
            hit = True
            k = [x for x in n if not (x.kind == "int" and x.c == 1)]
            if len(k) == 1:
                r.require(lin(k[0]) == lin(g.params[1]), "C12:callback:%s" % g.name, "%s writes all bytes" % g.name, "%s (%s): writes %s bytes of a fetched message, not all" % (c.where, g.name, lin.show(lin(k[0]))))
            # on every path to the return
            seen, wl, miss = set(), [g.blocks[0]], False
            while wl:
                b = wl.pop()
                if b in seen or b is c.bb:
                    continue
                seen.add(b)
                if b.term.opc == "ret":
                    miss = True
                wl += [y for (a, y) in s.edges if a is b]
            r.require(not miss, "C12:callback:skip:%s" % g.name, "%s always writes" % g.name, "%s (%s): a fetched message may be left out though the file could be opened" % (c.where, g.name))
        if not hit:
            r.notes.append("%s: no writing of the fetched bytes recognised" % g.name)


HDR = {"To": "to", "Cc": "cc", "From": "from", "Subject": "subject", "Message-ID": "message_id", "In-Reply-To": "in_reply_to", "References": "references"}


def excerpt(r, d):
    """labels of the header lines in an excerpt go with the headers they name"""
    import re
    p, f = d.p, d.f
    seen = set()
    for c in f.calls("printf", "fprintf"):
        k = next((j for j, a in enumerate(c.args) if a.kind == "global" and a.s is not None), None)
        if k is None or k + 1 >= len(c.args):
            continue
        m = re.match(r"\s*([A-Za-z-]+):", c.args[k].s)
        if not m or m.group(1) not in HDR:
            continue
        ps = p.s.paths(c.args[k + 1])
        fl = {x.split(".")[-1] for x in ps if "." in x}
        if len(fl) != 1 or not fl <= set(HDR.values()):
            r.notes.append("%s: header printed in excerpts not recognised (%s)" % (c.where, sorted(ps)))
            continue
        seen.add(m.group(1))
        r.require(fl == {HDR[m.group(1)]}, "C12:excerpt:" + m.group(1), "the %s line of an excerpt shows that header" % m.group(1), "%s (do_search): the %s line of an excerpt shows the %s header" % (c.where, m.group(1), fl.pop()))
    if "FT_EXCERPT" and seen:
        for nm in ("To", "Cc", "From", "Subject", "Message-ID", "In-Reply-To"):
            r.require(nm in seen, "C12:excerpt:" + nm, "excerpts have a %s line" % nm, "search.c (do_search): excerpts have no %s line" % nm)


def path_search(r, d):
    """p: compares the path of every live message, of whatever kind"""
    p, f = d.p, d.f
    from c06 import bound_paths
    found = 0
    for h, body in d.loops.items():
        if h in d.deliv:
            continue
        acc = [i for b in body for i in b.insts if i.opc == "store" and d.V.array_of(i) is not None]
        offs = [i for b in body for i in b.insts if i.opc == "load" and p.s.paths(i) == {"read_db.path_offsets[]"}]
        if not acc or not offs:
            continue
        if any(h2 is not h and h2 in body and any(i.bb in d.loops[h2] for i in offs) for h2 in d.loops):
            continue
        found += 1
        L = loopinfo.counted(p.s, h, body, d.dom)
        where = offs[0].where
        if L is None or L.phi is None:
            r.notes.append("%s: loop over paths not recognised" % where)
            continue
        c = loopinfo.covers_from_zero(L)
        if c is not None and bound_paths(p, L) == {"read_db.n_msgs"}:
            r.require(c[0] == 0 and c[2] == 0 and not L.other_exits, "C12:path:range", "path search visits every message", "%s (do_search): the path search leaves out messages" % where)
        else:
            r.notes.append("%s: range of the path search not recognised" % where)
        lds = {L.phi}
        inner = [i for b in body for i in b.insts if i.opc == "load" and i.ty == "i8" and p.s.paths(i) != {"read_db.msg_type_and_flags[]"} and
                 any(path_of(d, x, lds) for x in d.roots(base_ptr(d, i.ops[0])))]
        if not inner:
            r.notes.append("%s: no comparison of path characters recognised" % where)
            continue
        types = {i for b in body for i in b.insts if i.opc == "load" and p.s.paths(i) == {"read_db.msg_type_and_flags[]"}}
        data = {i for i in f.insts() if i.opc == "load" and p.s.paths(i) == {"read_db.data"}}
        out = [s for b in body for s in b.succs if s not in body]
        for nm, t in codes().items():
            def pin(i):
                if i in types:
                    return frozenset((t, t | 8, t | 16, t | 32, t | 56))
                if i in data:
                    return B(NZ)
                return None
            s = Sccp(f, pin=pin, entry=h, avoid=out)
            here = [i for i in inner if i.bb in s.blocks]
            hit = [i for i in acc if i.bb in s.blocks]
            if nm == "DB_MSG_DEAD":
                r.require(not hit, "C12:path:dead", "deleted messages are not found by path", "%s (do_search): a deleted message may be found by its path" % where)
                continue
            tw = TY.get(nm, nm)
            r.require(bool(here), "C12:path:" + nm, "%s messages are found by path" % tw, "%s (do_search): the path of %s messages is not looked at in a path search" % (where, tw))
            if here:
                r.require(not skip_path(s, h, body, here), "C12:path:skip:" + nm, "%s messages are always compared" % tw, "%s (do_search): the path of some %s messages is not looked at in a path search" % (where, tw))
                kinds = set()
                for i in here:
                    for x in live_roots(d, s, base_ptr(d, i.ops[0])):
                        k = path_of(d, x, lds)
                        if k == "mbox":
                            tb = [d.lin.val(y) for y in d.lin(x).atoms() if d.lin.name(y) == "read_db.mbox_paths_table[]"]
                            ix = [z[1] for y in tb for z in d.p.s.gepsteps(y.ops[0])[1] if z[0] == "[]"]
                            pk = packed(d, ix[0], lds) if len(ix) == 1 else None
                            if pk is not None and pk[1] is not None and pk != (0, "ok"):
                                k = "other"
                        kinds.add(k)
                want = "mbox" if nm == "DB_MSG_MBOX" else "ok"
                if None in kinds:
                    r.notes.append("%s: path compared for %s messages not recognised" % (where, tw))
                else:
                    r.require(kinds == {want}, "C12:path:which:" + nm, "%s messages are compared by their own path" % tw, "%s (do_search): the path compared for %s messages is not that of the message" % (where, tw))
        for i in acc:
            if d.V.index(i) is not None:
                r.require(d.V.index(i) is L.phi, "C12:path:hit", "path hits are recorded for the message compared", "%s (do_search): a path match is recorded for another message" % i.where)
    if not found:
        r.notes.append("the path search was not found")


def base_ptr(d, v):
    """the pointer a walking pointer starts from (its phi)"""
    return d.p.s.gepsteps(v)[0]


def live_roots(d, s, v, seen=None):
    """roots of v through phis, along executable edges only; walking pointers by their start"""
    seen = set() if seen is None else seen
    v = strip(v)
    if v in seen:
        return set()
    seen.add(v)
    if v.kind == "inst" and v.opc == "phi":
        out = set()
        for x, b in v.inc:
            if (b, v.bb) in s.edges and x.kind not in ("null", "undef"):
                g = strip(x)
                bp = d.p.s.gepsteps(g)[0] if g.kind == "inst" and g.opc == "gep" else g
                out |= live_roots(d, s, bp if strip(bp) in seen else g, seen)
        return out
    return {v}


def imap_parse(r):
    """a message that could not be fetched is no message: the result handed back is null unless the callback set it"""
    from prog import base_prog
    p = base_prog()
    if not p.has("make_rfc822_from_imap"):
        r.notes.append("make_rfc822_from_imap not found")
        return
    g = p.fn("make_rfc822_from_imap")
    dom = p.dom(g)
    for b in g.blocks:
        t = b.term
        if t.opc != "ret" or not t.ops:
            continue
        v = strip(t.ops[0])
        if v.kind == "inst" and v.opc == "load":
            base, st = p.s.gepsteps(v.ops[0])
            if base.kind == "inst" and base.opc == "alloca":
                e = p.s.expr(v.ops[0])
                init = [i for i in g.insts() if i.opc == "store" and p.s.expr(i.ops[1]) == e and sym.inst_dominates(dom, i, v)]
                init += [c for c in g.calls() if c.cname.startswith(("llvm.memset", "memset")) and p.s.gepsteps(c.args[0])[0] is base and sym.inst_dominates(dom, c, v)]
                r.require(bool(init), "C12:imap:unset", "the parsed IMAP message is null until fetched", "%s (make_rfc822_from_imap): returns an indeterminate pointer when the message could not be fetched" % v.where)
