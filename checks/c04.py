"""Results are never directed into an indexed folder."""
from build import AnalysisBroken
from prog import base_prog, Typestate, phi_edge_atoms, cv, cvs
from sccp import Sccp, NZ
from util import strip
import sym
import loopinfo
LEVEL = "other"
FLOOR = 8
LISTS = {"@maildir_folders": "FT_MAILDIR", "@mh_folders": "FT_MH", "@mboxen": "FT_MBOX"}
EXITS = {"exit", "_exit", "_Exit", "unlock_and_exit", "abort", "__assert_fail", "out_of_mem"}
G = "@output_folder_type"


def run(r, tier):
    p = base_prog()
    r.rule("main() is run abstractly for Maildir, MH and mbox output: when the comparison with any one of the three configured lists reports a match the search "
           "is never started and the run ends with a failure status; when none does, the search is started")
    r.rule("the comparison, run abstractly for one folder: equal names or the same inode on the same device match, anything else does not; every expanded folder is compared")
    r.rule("each list is expanded in full with its own folder kind, below the configured base, without the omitted folders")
    FT = {k: p.enum(k) for k in ("FT_MAILDIR", "FT_MH", "FT_MBOX", "FT_RAW", "FT_EXCERPT", "FT_IMAP")}
    st_fn = p.fn("search_top")
    mem = p.fn("member_of")
    m = p.fn("main")
    sites = [c for c in p.callers().get(st_fn, [])]
    if not sites:
        raise AnalysisBroken("search_top is never called")
    call = sites[0]
    ftk = [k for k, a in enumerate(call.args) if p.s.paths(a) == {G}]
    r.require(len(ftk) == 1, "ft-arg", "search receives the configured output type", "the search is not given the configured output format")
    mcalls = [c for c in p.callers().get(mem, [])]
    roles(r, p, mem, mcalls)
    inmain = [c for c in mcalls if c.bb.fn is m]
    if len(inmain) < len(mcalls) or not inmain:
        r.notes.append("comparisons made outside main(): the decision is analysed for those in main() only")
    listed = {c: "".join(sorted(p.s.paths(c.args[R["list"]]))) for c in inmain}
    sm = [c for c in sites if c.bb.fn is m]
    if not sm:
        r.notes.append("search started outside main()")
    n = 0
    for ft in ("FT_MAILDIR", "FT_MH", "FT_MBOX"):
        for match in (None, "@maildir_folders", "@mh_folders", "@mboxen"):
            def pin(i):
                if i.opc == "load":
                    q = p.s.paths(i)
                    if q == {G}:
                        return [FT[ft]]
                    if len(q) == 1 and (q <= set(LISTS) or q <= {"@mfolder", "@folder_base", "@database_path", "@mboxen"}) and i.ty == "ptr":
                        return [NZ]
                elif i in listed:
                    return [1 if listed[i] == match else 0]
                elif i.opc == "call" and i.cname in ("malloc", "safe_malloc"):
                    return [NZ]
                return None
            s = Sccp(m, pin=pin, stop=lambda i: i.cname in EXITS, cap=8)
            n += 1
            hit = [c for c in sm if live(s, c)]
            if match is None:
                r.require(hit or not sm, "over-refusal:" + ft, "%s output to a folder that is not indexed is searched" % ft,
                          "for %s output the search is never started although the results folder is none of the indexed folders" % ft)
                continue
            r.require(not hit, "unguarded:%s:%s" % (ft, match[1:]), "%s output to a folder of %s refused" % (ft, match[1:]),
                      "for %s output the search at %s can be started although the results folder is one of %s" % (ft, hit[0].where if hit else "", match[1:]))
            # and the refusal is an error
            for c in inmain:
                if listed[c] != match or not live(s, c):
                    continue
                for i in after(s, c):
                    if i.opc == "call" and i.cname in ("exit", "_exit", "unlock_and_exit"):
                        v = s.get(i.args[0])
                        r.require(v is None or 0 not in v, "refusal-status", "refusal at %s ends with a failure status" % i.where,
                                  "the refusal at %s ends the run with status zero" % i.where)
                    elif i.opc == "ret" and i.ops:
                        v = s.get(i.ops[0])
                        r.require(v is None or v != frozenset([0]), "refusal-return", "refusal returns a failure status at %s" % i.where, "after the refusal main returns zero at %s" % i.where)
    # arguments of the comparison
    L = list(listed.values())
    for l in LISTS:
        r.require(any(l in x for x in L) or not inmain, "not-compared:" + l[1:], "the results folder is compared with %s" % l[1:], "the results folder is never compared with the folders of %s" % l[1:])
    om = {p.s.expr(c.args[k]) for nm, k in (("build_message_list", -1), ("build_mbox_lists", 3)) for c in m.calls(nm) if c.args}
    for c in mcalls:
        lst = p.s.paths(c.args[R["list"]])
        r.require(lst <= set(LISTS), "cmp-list", "comparison at %s against %s" % (c.where, sorted(lst)))
        for l in lst:
            if l in LISTS:
                want = FT[LISTS[l]]
                a = c.args[R["ft"]]
                r.require(a.kind == "int" and a.c == want, "cmp-type:" + l,
                          "%s expanded with its own folder kind at %s" % (l, c.where),
                          "%s is expanded with the rules of another folder kind at %s" % (l, c.where))
        r.require(p.s.paths(c.args[R["base"]]) == {"@folder_base"}, "cmp-base", "expanded below folder_base at %s" % c.where)
        same = [k for k, a in enumerate(call.args) if a is c.args[R["dest"]] or p.s.expr(a) == p.s.expr(c.args[R["dest"]])]
        r.require(same, "cmp-target:%s" % "|".join(sorted(lst)), "the folder compared at %s is the one searched into" % c.where,
                  "the folder compared at %s is not the folder results go to" % c.where)
        if "omit" in R and om:
            r.require(p.s.expr(c.args[R["omit"]]) in om, "cmp-omit:%s" % "|".join(sorted(lst)), "omitted folders left out of the comparison at %s" % c.where,
                      "the comparison at %s does not leave out the omitted folders as indexing does" % c.where)
    check_member(r, p, mem, FT)
    r.scope = {"search_sites": [c.where for c in sites], "comparison_sites": [c.where for c in mcalls], "scenarios": n}


R = {}


def roles(r, p, mem, mcalls):
    """parameter positions by what the calls pass"""
    R.clear()
    R.update({"dest": 0, "base": 1, "list": 2, "ft": 3, "omit": 4})
    if mcalls:
        c = mcalls[0]
        for k, a in enumerate(c.args):
            q = p.s.paths(a)
            if q == {"@folder_base"}:
                R["base"] = k
            elif q and q <= set(LISTS):
                R["list"] = k
            elif a.ty == "i32":
                R["ft"] = k
        if len(c.args) < 5:
            R.pop("omit", None)


def live(s, i):
    if i.bb not in s.blocks:
        return False
    for j in i.bb.insts:
        if j is i:
            return True
        if j.opc == "call" and j.cname in EXITS:
            return False
    return False


def after(s, c):
    out, seen = [], set()

    def body(ins):
        for i in ins:
            out.append(i)
            if i.opc == "call" and i.cname in EXITS:
                return False
        return True
    wl = [y for (x, y) in s.edges if x is c.bb] if body(c.bb.insts[c.bb.insts.index(c) + 1:]) else []
    while wl:
        b = wl.pop()
        if b in seen:
            continue
        seen.add(b)
        if body(b.insts):
            wl += [y for (x, y) in s.edges if x is b]
    return out


def check_member(r, p, f, FT):
    P = f.params
    dest = P[R["dest"]]
    cmps = [c for c in f.calls("strcmp") if any(p.s.expr(a) == ("arg", dest.idx) for a in c.args)]
    if not cmps:
        r.bad("no-name-compare", "%s() no longer compares the results folder with the indexed folders by name" % f.name)
        return
    lp = sym.loops(f)
    hs = sorted((len(body), k, h) for k, (h, body) in enumerate(lp.items()) if cmps[0].bb in body)
    if not hs:
        r.bad("loop-partial", "%s() compares the results folder with a single folder at %s" % (f.name, cmps[0].where))
        return
    h = hs[0][2]
    body = lp[h]
    dom = p.dom(f)
    other = cmps[0].args[1] if p.s.expr(cmps[0].args[0]) == ("arg", dest.idx) else cmps[0].args[0]
    stats = list(f.calls("stat", "lstat", "stat64", "lstat64"))

    def fieldcmp(i, fld):
        if i.opc != "icmp" or i.pred not in ("eq", "ne"):
            return False
        ok = 0
        for o in i.ops:
            o = strip(o)
            if o.kind == "inst" and o.opc == "load" and any(q.endswith(fld) for q in p.s.apath(o.ops[0], 8)):
                ok += 1
        return ok == 2
    ino = [i for i in f.insts() if fieldcmp(i, "st_ino")]
    dev = [i for i in f.insts() if fieldcmp(i, "st_dev")]
    if not ino:
        uses = any(q.endswith("st_ino") for i in f.insts() if i.opc == "load" for q in p.s.apath(i.ops[0], 8))
        if not uses:
            r.bad("no-inode-compare", "folders reached by another name are no longer recognised (no inode comparison in %s())" % f.name)
        else:
            r.notes.append("inode comparison not recognised")
        return
    bufs = {p.s.gepsteps(strip(o).ops[0])[0] for i in ino for o in i.ops}
    for c in stats:
        if c.cname.startswith("lstat") and p.s.gepsteps(c.args[1])[0] in bufs:
            r.bad("lstat", "%s() identifies a folder at %s without following symbolic links" % (f.name, c.where))
    L = loopinfo.counted(p.s, h, body, dom)

    def othertest(v, d=0):
        """v is a test of something else in the two stat results"""
        v = strip(v)
        if d > 6 or v.kind != "inst":
            return False
        if v.opc == "load":
            return p.s.gepsteps(v.ops[0])[0] in bufs
        return v.opc in ("icmp", "and", "or", "xor", "zext", "trunc", "lshr", "add", "sub", "freeze") and v not in ino and v not in dev \
            and any(othertest(o, d + 1) for o in v.ops)

    def outcome(s, v, d=0):
        """the results an unknown value can have"""
        x = s.get(v)
        if x is not None:
            return {int(k != 0) for k in x}
        if d < 8 and v.kind == "inst":
            if v.opc == "phi":
                out = set()
                for a, b in v.inc:
                    if (b, v.bb) in s.edges:
                        out |= outcome(s, a, d + 1)
                return out
            if v.opc in ("zext", "freeze"):
                return outcome(s, v.ops[0], d + 1)
            if v.opc == "icmp" and othertest(v):
                return {0, 1}
        return {None}

    def pins(name, sd, so, i_, d_):
        def pin(i):
            if i.opc == "call":
                if i in cmps:
                    return [0] if name else [1]
                if i in stats:
                    v = sd if p.s.expr(i.args[0]) == ("arg", dest.idx) else so
                    return [0] if v else [-1]
                if i.cname in ("malloc", "safe_malloc"):
                    return [NZ]
            elif i in ino:
                return [int((i.pred == "eq") == i_)]
            elif i in dev:
                return [int((i.pred == "eq") == d_)]
            return None
        return pin
    lists = {P[R["list"]]: frozenset([NZ])}
    SC = [("the names are equal", (True, True, True, False, True), 1), ("names are equal but the folder cannot be examined", (True, False, False, False, False), 1),
          ("it is the same inode on the same device", (False, True, True, True, True), 1),
          ("name and inode differ", (False, True, True, False, True), 0),
          ("the inode number is equal but the device differs", (False, True, True, True, False), 0),
          ("the results folder does not exist", (False, False, True, False, False), 0),
          ("the indexed folder does not exist", (False, True, False, False, False), 0)]
    for what, a, want in SC:
        pin = pins(*a)
        s = Sccp(f, pin=pin, stop=lambda i: i.cname in EXITS, once={h: body}, args={**lists, P[R["ft"]]: frozenset([FT["FT_MH"]])}, cap=8)
        got = set()
        for b in s.blocks:
            if b.term.opc == "ret" and live(s, b.term):
                v = s.get(b.term.ops[0])
                got |= outcome(s, b.term.ops[0]) if v is None else {int(x != 0) for x in v}
        if None in got:
            r.notes.append("result of %s() not recognised when %s" % (f.name, what))
            continue
        if want:
            r.require(got == {1}, "match-ignored:" + what, "match reported when %s" % what, "%s() can report no match although %s" % (f.name, what))
            continue
        r.require(got == {0}, "over-refusal:" + what, "no match reported when %s" % what, "%s() can report a match although %s" % (f.name, what))
        # and the next folder is looked at
        pre = {i: s.val[i] for b in s.blocks if b not in body for i in b.insts if i in s.val}
        hp = {}
        for i in h.insts:
            if i.opc == "phi" and (L is None or i is not L.phi):
                x = frozenset()
                for v, b in i.inc:
                    if b not in body:
                        x = None if x is None or s.get(v) is None else x | s.get(v)
                hp[i] = x

        def pin2(i):
            if i in hp:
                return hp[i]
            if i.bb not in body and i in pre and pre[i] is not None:
                return pre[i]
            return pin(i)
        out = [t for b in body for t in b.succs if t not in body]
        t = Sccp(f, pin=pin2, stop=lambda i: i.cname in EXITS, entry=h, avoid=out, args=dict(lists), cap=8)
        be = L.bound_exit if L else None
        early = [(b, x) for (b, x) in t.edges if b in body and x not in body and (be is None and b is not h or be is not None and (b, x) != be)]
        stop = [i for i, x in hp.items() if x for v, b in i.inc if b in body and (b, h) in t.edges and t.get(v) is not None and not t.get(v) <= x]
        r.require(not early and not stop, "stops-early:" + what, "the next folder is compared when %s" % what,
                  "%s() stops comparing at %s when %s, so later folders are not compared" % (f.name, early[0][0].insts[-1].where if early else h.insts[-1].where, what))
    # the loop covers every folder
    c = loopinfo.covers_from_zero(L) if L is not None else None
    if c is None:
        r.notes.append("folder loop bounds not recognised")
    else:
        r.require(c[0] == 0 and c[2] == 0, "loop-partial", "the folder loop covers every expanded folder",
                  "the folder loop in %s() at %s does not cover all expanded folders (starts at %d, ends %+d)" % (f.name, h.insts[0].where, c[0], c[2]))
    expansion(r, p, f, FT, h, body)


def expansion(r, p, f, FT, h, body):
    """each folder kind is expanded, completely, with its own traversal"""
    P = f.params
    want = {"FT_MAILDIR": "maildir_traverse_methods", "FT_MH": "mh_traverse_methods", "FT_MBOX": "mbox_traverse_methods"}
    globs = list(f.calls("glob_and_expand_paths"))
    if not globs:
        r.notes.append("expansion of the folder list not recognised")
        return
    for kind, tm in want.items():
        def pin(i):
            if i.opc == "load" and i.ty == "i8" and p.s.expr(p.s.gepsteps(i.ops[0])[0]) == ("arg", R["list"]):
                return [120]
            return None
        s = Sccp(f, pin=pin, stop=lambda i: i.cname in EXITS, args={P[R["list"]]: frozenset([NZ]), P[R["ft"]]: frozenset([FT[kind]])}, cap=8)
        on = [c for c in globs if live(s, c)]
        # no result without expansion
        seen, wl, bad = set(), [f.blocks[0]], None
        while wl:
            b = wl.pop()
            if b in seen:
                continue
            seen.add(b)
            stop = False
            for i in b.insts:
                if i in globs:
                    stop = True
                    break
                if i.opc == "ret":
                    bad = i
            if not stop:
                wl += [y for (x, y) in s.edges if x is b]
        r.require(bad is None, "not-expanded:" + kind, "%s lists are expanded" % kind, "%s() can answer at %s without having expanded a %s list" % (f.name, bad.where if bad else "", kind))
        for c in on:
            got = {sym.gname(q.lstrip("@&")) for q in p.s.paths(c.args[5])} if len(c.args) > 5 else set()
            r.require(got == {tm}, "traverse:" + kind, "%s expanded with %s at %s" % (kind, sorted(got), c.where), "%s() expands %s folders with %s at %s" % (f.name, kind, sorted(got), c.where))
    for c in globs:
        r.require(p.s.expr(c.args[0]) == ("arg", R["base"]), "expand-base", "expansion below the base at %s" % c.where, "%s() expands at %s below another folder than the configured base" % (f.name, c.where))
        if "omit" in R and len(c.args) > 6:
            r.require(p.s.expr(c.args[6]) == ("arg", R["omit"]), "expand-omit", "omitted folders left out at %s" % c.where,
                      "%s() does not leave out the omitted folders at %s" % (f.name, c.where))
        # all the names of the list
        split = list(f.calls("split_on_colons"))
        if len(split) == 1:
            sp = split[0]
            r.require(p.s.expr(sp.args[0]) == ("arg", R["list"]), "split-list", "the list itself is split at %s" % sp.where, "%s() splits another text than the list at %s" % (f.name, sp.where))
            nb = sp.args[1]
            v = strip(c.args[2])
            if v.kind == "inst" and v.opc == "load" and v.ops[0] is nb:
                w = [u for u in nb.users if u.opc == "store" and u.ops[1] is nb]
                r.require(not w, "all-names", "all names of the list are expanded at %s" % c.where, "%s() expands only some names of the list: their number is overwritten at %s" % (f.name, w[0].where if w else ""))
            elif v.kind == "int":
                r.bad("all-names", "%s() expands only %d names of the list at %s" % (f.name, v.c, c.where))
