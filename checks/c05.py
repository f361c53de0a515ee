"""Clearing of the results folder is confined and tied to the augment option."""
from build import AnalysisBroken
from prog import base_prog, inlined_prog, Typestate, phi_edge_atoms, cv, cvs
from strs import Strs
from cli import Cli
import sym
import deliver
from sccp import Sccp, NZ
from util import strip
EXITS = {"exit", "_exit", "abort", "unlock_and_exit", "__assert_fail"}
SZ = {"i8": 1, "i16": 2, "i32": 4, "i64": 8}
LEVEL = "other"
FLOOR = 8
LNK, REG = 0xA000, 0x8000


def run(r, tier):
    pb = base_prog()
    cli = Cli(pb)
    p = inlined_prog(keep={"search_top", "do_search"})
    S = Strs(p)
    r.rule("without -a the old results are removed before the search writes; with -a nothing is removed")
    r.rule("only regular files and symbolic links are removed: in new/ and cur/ of a Maildir, under numeric names in an MH folder, or the mbox file itself")
    r.rule("clearing visits every directory entry and removes every one that qualifies")
    f = p.fn("search_top")
    call = next(iter(pb.callers().get(pb.fn("search_top"), [])), None)
    if call is None or "-a" not in cli.opts:
        raise AnalysisBroken("cannot relate the -a option to the search")
    AUG = [k for k, a in enumerate(call.args) if cli.sets("-a", a, 1) and cli.sets("--augment", a, 1) and not cli.sets("-t", a, 1)]
    r.require(len(AUG) == 1, "aug-arg", "-a/--augment reaches the search", "the augment option is not passed to the search")
    if len(AUG) != 1:
        return
    aug = f.params[AUG[0]]
    FT = {k: p.enum(k) for k in ("FT_MAILDIR", "FT_MH", "FT_MBOX", "FT_RAW", "FT_EXCERPT", "FT_IMAP")}
    nm = {v: k for k, v in FT.items()}
    ftk = [k for k, a in enumerate(call.args) if pb.s.paths(a) == {"@output_folder_type"}]
    if len(ftk) != 1:
        raise AnalysisBroken("cannot find the output format argument")
    ftp = f.params[ftk[0]]
    ds = list(f.calls("do_search"))
    if not ds:
        raise AnalysisBroken("do_search not called from search_top")
    lab = {}

    def labels(v):
        if v not in lab:
            lab[v] = S.labels(v)
        return lab[v]

    def lits(t):
        return {x[4:].strip("/") for x in t if x.startswith("lit:")} - {""}

    def is_dirent(t):
        return any(x.startswith("dirent.") for x in t)

    # state: (aug: 0/1/None, ft frozenset, cleared frozenset, entry facts frozenset, pending bool)
    def edge(b, s2, s):
        a_, ft, cl, ent, pend = s
        for pred, x, y in phi_edge_atoms(b, s2):
            c = cv(y) if not isinstance(y, tuple) else None
            if x is aug or (x.kind == "inst" and p.s.expr(x) == ("arg", aug.idx)):
                if c == 0 and pred in ("eq", "ne"):
                    n = 0 if pred == "eq" else 1
                    if a_ is not None and a_ != n:
                        return ()
                    a_ = n
                continue
            if p.s.expr(x) == ("arg", ftp.idx):
                v = {c} if pred == "eq" else ft - {c} if pred == "ne" else cvs(y) if pred == "in" else ft - cvs(y) if pred == "notin" else ft
                ft = ft & frozenset(v)
                if not ft:
                    return ()
                continue
            xp = p.s.paths(x)
            js = "|".join(sorted(xp))
            if xp == {"call:readdir"} or xp == {"call:readdir64"}:
                if c == 0 and pred == "ne":
                    ent, pend = frozenset(), True
                elif c == 0 and pred == "eq":
                    ent, pend = frozenset(), False
            elif xp <= {"call:lstat", "call:lstat64", "call:stat", "call:stat64"} and xp:
                if (pred in ("slt", "ne") and c == 0) or (pred == "eq" and c == -1):
                    ent = ent | {"statfail"}
                elif (pred in ("sge", "eq") and c == 0) or (pred == "sgt" and c == -1):
                    ent = ent | {"statok"}
            elif "st_mode" in js and "and(" in js:
                vs = {c} if pred in ("eq", "ne") else cvs(y) if isinstance(y, tuple) else set()
                if pred in ("eq", "in"):
                    if vs <= {LNK, REG}:
                        ent = ent | {"filelike"}
                    if 0x4000 in vs:
                        ent = ent | {"isdir", "notfile"}
                    elif not vs & {LNK, REG}:
                        ent = ent | {"notfile"}
                elif pred in ("ne", "notin"):
                    if LNK in vs:
                        ent = ent | {"notlnk"}
                    if REG in vs:
                        ent = ent | {"notreg"}
                    if 0x4000 in vs:
                        ent = ent | {"notdir"}
            elif "dirent" in js or "d_name" in js:
                if c is not None or isinstance(y, tuple):
                    ent = ent | {"nametest"}
                    if "strcmp" in js and pred == "eq":
                        ent = ent | {"dotname"}
                    if pred == "eq" and c == ord("."):
                        ent = ent | {"dotname"}
            elif xp == {"call:opendir"} and c == 0 and pred == "eq":
                pass
        return [(a_, ft, cl, ent, pend)]

    seen = {}
    vmh = "valid_mh_filename_p"

    def visit(i, s, key):
        a_, ft, cl, ent, pend = s
        if i.opc != "call" or key[0] is not f:
            return
        n = i.cname
        if n in ("unlink", "remove", "rmdir", "rename", "truncate"):
            h, t = labels(i.args[0])
            k = (i, a_, ft)
            fts = [nm.get(x, x) for x in sorted(ft)]
            if is_dirent(t):
                r.require(a_ == 0, "remove-on-augment:%s" % "/".join(fts), "entry removal at %s only without -a" % i.where,
                          "results are removed at %s although -a asked to keep them" % i.where)
                r.require("filelike" in ent or i.where in judged, "remove-nonfile:%s" % "/".join(fts), "only regular files and links removed at %s" % i.where,
                          "an entry that is not known to be a regular file or link is removed at %s" % i.where)
                if ft == {FT["FT_MH"]}:
                    r.require(not lits(t), "mh-subdir", "MH clearing at %s stays in the folder itself" % i.where,
                              "MH clearing at %s descends into %s" % (i.where, sorted(lits(t))))
                    r.require("nametest" in ent or i.where in judged, "mh-name", "MH clearing at %s tests the entry name" % i.where,
                              "MH clearing at %s removes entries whatever their name" % i.where)
                elif ft == {FT["FT_MAILDIR"]}:
                    r.require(len(lits(t)) >= 1 and lits(t) <= {"new", "cur"}, "maildir-subdir", "Maildir clearing at %s stays in %s" % (i.where, sorted(lits(t))),
                              "Maildir clearing at %s removes entries of %s" % (i.where, sorted(lits(t)) or "the folder itself"))
                else:
                    r.bad("clear-format", "directory entries are removed at %s for output format %s" % (i.where, fts))
            elif "filelike" in ent or "notdir" in ent or "notfile" in ent and "isdir" not in ent:
                # making way for a directory that has to be created
                r.ok("non-directory in the way of the results folder removed at %s" % i.where)
            else:
                r.require(a_ == 0 and ft == {FT["FT_MBOX"]} and not lits(t), "mbox-clear", "mbox results file removed at %s only for mbox output without -a" % i.where,
                          "the results path is removed at %s for format %s%s" % (i.where, fts, "" if a_ == 0 else " although -a may be in force"))
        elif n in ("readdir", "readdir64"):
            if pend and i.where not in judged:
                h = ent
                good = "unlinked" in h or "statfail" in h or ("notlnk" in h and "notreg" in h) or "notfile" in h or "dotname" in h or \
                    ("nametest" in h and ft == {FT["FT_MH"]})
                r.require(good, "entry-kept:%s" % "/".join(nm.get(x, str(x)) for x in sorted(ft)), "entries passed over at %s do not qualify for removal" % i.where,
                          "clearing at %s passes over an entry that is an old result (facts %s)" % (i.where, sorted(h)))
        elif n == "do_search":
            if a_ == 0 or a_ is None:
                for x in ft:
                    want = {FT["FT_MAILDIR"]: {"new", "cur"}, FT["FT_MH"]: {"mh"}, FT["FT_MBOX"]: {"mbox"}}.get(x, set())
                    miss = sorted(want - cl)
                    r.require(not miss, "not-cleared:%s" % nm.get(x, x), "old %s results cleared before the search at %s" % (nm.get(x, x), i.where),
                              "old %s results (%s) are not cleared before the search at %s" % (nm.get(x, x), ",".join(miss), i.where))

    def step(i, s):
        a_, ft, cl, ent, pend = s
        n = i.cname
        if n in ("opendir",):
            h, t = labels(i.args[0])
            l = lits(t)
            if h & {"@mfolder", "@folder_base"}:
                cl = cl | (l & {"new", "cur"} if l else {"mh"})
            return [(a_, ft, cl, ent, pend)]
        if n in ("unlink", "remove"):
            h, t = labels(i.args[0])
            if not is_dirent(t) and not lits(t):
                cl = cl | {"mbox"}
            return [(a_, ft, cl, ent | {"unlinked"}, pend)]
        if n in ("lstat", "stat", "lstat64", "stat64") and not pend:
            return [(a_, ft, cl, frozenset(), pend)]
        if n in ("exit", "_exit", "abort", "unlock_and_exit", "__assert_fail"):
            return ()
        return [s]

    rounds, judged = entries(r, FT, AUG[0], ftk[0])
    ts = Typestate(p, step, edge, visit)
    ts.run("search_top", (None, frozenset(FT.values()), frozenset(), frozenset(), False))
    imap_clear(r, FT, AUG[0], ftk[0])
    # MH name test: digits only
    mh_names(r, pb)
    r.scope = {"unlink_sites": sorted({i.where for i in f.calls("unlink")}), "opendir_sites": sorted({i.where for i in f.calls("opendir")}),
               "entry_rounds": rounds, "states": sum(len(v) for v in ts.at.values())}


def live(s, i):
    if i.bb not in s.blocks:
        return False
    for j in i.bb.insts:
        if j is i:
            return True
        if j.opc == "call" and j.cname in EXITS:
            return False
    return False


def entries(r, FT, aug, ftp):
    """What happens to one directory entry, for every kind of entry."""
    p = inlined_prog(keep={"search_top", "do_search", "valid_mh_filename_p"})
    f = p.fn("search_top")
    S = Strs(p)
    REM = ("unlink", "remove", "unlinkat")
    n = 0
    judged = set()

    def about(i, fld):
        return i.opc == "load" and any(q.endswith(fld) for q in p.s.apath(i.ops[0], SZ.get(i.ty, 8)))

    def of_entry(v):
        return any(x.startswith("dirent.") for x in S.labels(v)[1]) or "d_name" in "|".join(sorted(p.s.paths(v))) or \
            "d_name" in "|".join(sorted(p.s.apath(v, 8)))
    entrystat = {c for c in f.calls("lstat", "lstat64", "stat", "stat64", "access") if of_entry(c.args[0])}
    entryrem = {c for c in f.calls(*REM) if any(of_entry(x) for x in c.args if x.ty == "ptr")}
    names = {FT["FT_MAILDIR"]: "Maildir", FT["FT_MH"]: "MH"}
    for ft in names:
        base = {f.params[aug]: frozenset([0]), f.params[ftp]: frozenset([ft])}
        s0 = Sccp(f, pin=lambda i: [NZ] if i.cname in ("opendir", "malloc", "safe_malloc") else None, args=base, stop=lambda i: i.cname in EXITS, cap=8)
        groups = {}
        for rd in f.calls("readdir", "readdir64"):
            if rd.bb in s0.blocks:
                groups.setdefault(strip(rd.args[0]), []).append(rd)
        for g in groups.values():
            where = g[-1].where
            # the stretch of code that handles one entry
            body, todo = set(), [x.bb for x in g]
            while todo:
                b = todo.pop()
                for x in b.succs:
                    if x not in body and not any(i.opc == "call" and (i in g or i.cname in ("closedir", "do_search")) for i in x.insts):
                        body.add(x)
                        todo.append(x)
            body |= {x.bb for x in g}
            rem = [c for c in f.calls(*REM) if c.bb in body and c in entryrem]
            if not rem:
                continue
            judged |= {c.where for c in rem} | {x.where for x in g}

            def world(mode, valid, st=0, un=0):
                def pin(i):
                    if i.opc == "call":
                        if i.cname in ("opendir", "malloc", "safe_malloc") or i in g:
                            return [NZ]
                        if i.bb not in body:
                            return None
                        if i in entrystat:
                            return [st] if i.cname[0] == "l" or mode & 0xf000 != LNK else [-1]
                        if i.cname == "valid_mh_filename_p":
                            return [valid]
                        if i.cname in REM:
                            return [un]
                        if i.cname in ("strcmp", "strcasecmp") and any(of_entry(x) for x in i.args):
                            return [1]
                        if i.cname == "strlen" and of_entry(i.args[0]):
                            return [9]
                    elif i.bb in body:
                        if about(i, ".st_mode"):
                            return [mode]
                        if about(i, ".d_type"):
                            return [mode >> 12, 0]
                        if i.opc == "load" and i.ty == "i8" and any(q.endswith("d_name") or q.endswith("d_name[0]") for q in p.s.apath(i.ops[0], 1)):
                            return [ord("1") if valid else ord("a")]
                    return None
                return Sccp(f, pin=pin, args=base, stop=lambda i: i.cname in EXITS, cap=8)

            def walk(s, start, goal, through):
                """a call satisfying goal that can follow start without one satisfying through"""
                seen, todo = set(), [(start.bb, start.bb.insts.index(start) + 1)]
                while todo:
                    b, k = todo.pop()
                    cut = False
                    for i in b.insts[k:]:
                        if i.opc == "ret" or i.opc == "call":
                            if goal(i):
                                return i
                            if i.opc == "call" and (through(i) or i.cname in EXITS):
                                cut = True
                                break
                    if not cut:
                        for x in [y for (z, y) in s.edges if z is b]:
                            if x not in seen:
                                seen.add(x)
                                todo.append((x, 0))
                return None

            def over(i):
                return i.opc == "ret" or i.cname in ("closedir", "do_search", "opendir")
            for nm, mode in (("regular file", REG | 0o644), ("symbolic link", LNK | 0o777)):
                for un in (0, -1):
                    s = world(mode, 1, 0, un)
                    for rd in g:
                        if rd.bb not in s.blocks:
                            continue
                        n += 1
                        x = walk(s, rd, lambda i: i in g or over(i), lambda i: i in rem)
                        r.require(x is None, "kept:%s:%s" % (names[ft], nm), "%s clearing: every old result that is a %s is removed (loop at %s)" % (names[ft], nm, where),
                                  "%s clearing (loop at %s): an old result that is a %s is not removed on some path" % (names[ft], where, nm))
                        x = walk(s, rd, over, lambda i: i in g)
                        r.require(x is None, "stops:%s" % names[ft], "%s clearing goes on to the next entry (loop at %s)" % (names[ft], where),
                                  "%s clearing (loop at %s) stops while entries remain%s" % (names[ft], where, " after a failed removal" if un else ""))
            for nm, mode, valid in (("directory", 0x4000 | 0o755, 1), ("fifo", 0x1000 | 0o644, 1), ("socket", 0xc000 | 0o644, 1), ("device", 0x2000 | 0o644, 1),
                                    ("block device", 0x6000 | 0o644, 1)) + ((("regular file without a message number", REG | 0o644, 0),) if ft == FT["FT_MH"] else ()):
                s = world(mode, valid)
                hit = [c for c in rem if live(s, c)]
                n += 1
                if hit and valid == 0 and not list(f.calls("valid_mh_filename_p")) and named(p, f, body, hit[0]):
                    r.notes.append("MH name test not recognised")
                    continue
                r.require(not hit, "removed:%s:%s" % (names[ft], nm), "%s clearing never removes a %s (loop at %s)" % (names[ft], nm, where),
                          "%s clearing removes a %s at %s" % (names[ft], nm, hit[0].where if hit else ""))
    if not n:
        r.notes.append("no clearing loop recognised")
    return n, judged


def named(p, f, body, c):
    """the name of the entry goes through some test by characters or a function before the removal"""
    for i in f.insts():
        if i.bb not in body:
            continue
        if i.opc == "call" and i.cname and i.cname not in ("strcpy", "strcat", "sprintf", "snprintf", "strlen", "memcpy", "stpcpy") and not i.cname.startswith(("llvm.", "lstat", "stat", "unlink", "remove")):
            if any("d_name" in "|".join(sorted(p.s.apath(a, 8))) for a in i.args if a.ty == "ptr"):
                return True
        if i.opc == "load" and i.ty == "i16" and "__ctype_b_loc" in "|".join(sorted(p.s.apath(i.ops[0], SZ.get(i.ty, 8)))):
            return True
        if i.opc == "icmp" and any(o.kind == "int" and o.c in (47, 48, 57, 58, 9, 10) for o in i.ops):
            return True
    return False


def imap_clear(r, FT, aug, ftp):
    """in do_search the IMAP folder is cleared on request, and only then; the request is the absence of -a"""
    d = deliver.view()
    if not d.has("do_search"):
        r.notes.append("do_search not recognised")
        return
    g = d.fn("do_search")
    p = inlined_prog(keep={"search_top", "do_search"})
    f = p.fn("search_top")
    ds = list(f.calls("do_search"))
    clr = list(g.calls("imap_clear_folder"))
    out = list(g.calls("imap_append_new_message", "imap_copy_message"))
    if not clr:
        r.bad("imap-no-clear", "the IMAP results folder is never cleared before results are delivered")
        return
    pins = {"imap_start": frozenset([NZ])}
    ftd = [k for k, x in enumerate(ds[0].args) if x is f.params[ftp]]
    if len(ftd) != 1:
        r.notes.append("format argument of do_search not recognised")
        return
    for a_ in (0, 1):
        s = Sccp(f, args={f.params[aug]: frozenset([a_]), f.params[ftp]: frozenset([FT["FT_IMAP"]])}, stop=lambda i: i.cname in EXITS, cap=8)
        args = {g.params[ftd[0]]: frozenset([FT["FT_IMAP"]])}
        for c in ds:
            if c.bb not in s.blocks:
                continue
            for k, x in enumerate(c.args):
                v = s.get(x)
                if v is not None and v and k != ftd[0] and g.params[k].ty != "ptr":
                    args[g.params[k]] = v
        t = Sccp(g, pin=lambda i: pins.get(i.cname) if i.opc == "call" else None, args=args, cap=16)
        on = [c for c in clr if c.bb in t.blocks]
        if a_:
            r.require(not on, "imap-clear-guard", "IMAP results folder kept with -a", "the IMAP results folder is cleared at %s even when -a was given" % (on[0].where if on else ""))
            continue
        hit = [c for c in out if c.bb in t.blocks]
        seen, todo, bad = set(), [g.blocks[0]], None
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            stop = False
            for i in x.insts:
                if i in clr:
                    stop = True
                    break
                if i in hit:
                    bad = i
            if not stop:
                todo += [z for (y, z) in t.edges if y is x]
        r.require(bad is None, "imap-clear-must", "IMAP results folder cleared before results are delivered", "results are delivered to the IMAP folder at %s without it having been cleared although -a was not given" % (bad.where if bad else ""))
        for c in on:
            for h in hit:
                k = 2 if h.cname == "imap_copy_message" else 1
                x, y = d.s.expr(c.args[1]), d.s.expr(h.args[k])
                r.require(x == y or "arg" not in (x[0], y[0]), "imap-clear-which", "the folder cleared is the one written to", "the IMAP folder cleared at %s is not the one results go to" % c.where)


def mh_names(r, p):
    """valid_mh_filename_p accepts only names made of digits (Evolution: with one final dot)."""
    if not p.has("valid_mh_filename_p"):
        r.notes.append("valid_mh_filename_p not present")
        return
    f = p.fn("valid_mh_filename_p")
    dom = p.dom(f)
    loops = sym.loops(f)
    bad = []
    # from the loop: on continuing, the character was a digit
    def edge(b, s2, s):
        for pred, x, y in phi_edge_atoms(b, s2):
            js = "|".join(sorted(p.s.paths(x)))
            c = cv(y) if not isinstance(y, tuple) else None
            if "isdigit" in js or ("__ctype_b_loc" in js and "2048" in js):
                if c == 0:
                    s = s | {"digit"} if pred == "ne" else s | {"nondigit"}
            elif c == 46 and pred == "eq":
                s = s | {"dot"}
            elif c == 0 and pred == "eq" and "dot" in s:
                s = s | {"dotend"}
            elif c == 48 and pred in ("sge", "uge") or c == 47 and pred in ("sgt", "ugt"):
                s = s | {"ge0"}
            elif c == 57 and pred in ("sle", "ule") or c == 58 and pred in ("slt", "ult"):
                s = s | {"le9"}
            elif "sub(" in js or "add(" in js:
                if (pred == "ult" and c == 10) or (pred == "ule" and c == 9):
                    s = s | {"digit"}
                elif (pred == "uge" and c == 10) or (pred == "ugt" and c == 9):
                    s = s | {"nondigit"}
        if {"ge0", "le9"} <= s:
            s = s | {"digit"}
        return [s]
    heads = {h for h in loops}
    res = {"cont": set(), "ret": set()}

    def visit(i, s, key):
        if i.opc == "ret":
            v = ts._eval(i.ops[0], ts.env)
            res["ret"].add((v, frozenset(s), i.where))
    ts = Typestate(p, lambda i, s: [s], edge, visit)
    ts.run(f.name, frozenset())
    for v, s, w in res["ret"]:
        if v and "nondigit" in s and "dotend" not in s:
            r.bad("mh-nondigit", "valid_mh_filename_p() accepts at %s a name with a character that is not a digit" % w)
        else:
            r.ok("MH name test returns %s at %s with facts %s" % (v, w, sorted(s)))
    r.require(any("digit" in s or "nondigit" in s for _, s, _ in res["ret"]), "mh-digit-test", "MH names are tested for digits",
              "valid_mh_filename_p() no longer tests that names consist of digits")
