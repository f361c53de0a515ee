"""Writing the database: checked first, exactly sized, every failure fatal, written iff something changed."""
from build import AnalysisBroken
from prog import base_prog, inlined_prog
from lin import Lins
from sccp import Sccp, NZ
from util import strip
from rounds import force
import sym
LEVEL = "other"
FLOOR = 20
EXITS = {"exit", "_exit", "_Exit", "abort", "unlock_and_exit", "__assert_fail", "out_of_mem"}
OPEN = ("open", "open64")
SIZERS = ("lseek", "lseek64", "write", "ftruncate", "ftruncate64", "pwrite", "pwrite64", "posix_fallocate", "posix_fallocate64")
FAIL = {"open": -1, "open64": -1, "fstat": -1, "fstat64": -1, "lseek": -1, "lseek64": -1, "write": -1, "ftruncate": -1, "ftruncate64": -1, "pwrite": -1, "pwrite64": -1,
        "posix_fallocate": 28, "posix_fallocate64": 28, "mmap": -1, "mmap64": -1, "munmap": -1, "fsync": -1, "fdatasync": -1, "msync": -1, "close": -1}
GOOD = {"open": 5, "open64": 5, "fstat": 0, "fstat64": 0, "write": 1, "ftruncate": 0, "ftruncate64": 0, "pwrite": 1, "pwrite64": 1, "posix_fallocate": 0, "posix_fallocate64": 0,
        "mmap": NZ, "mmap64": NZ, "munmap": 0, "fsync": 0, "fdatasync": 0, "msync": 0, "close": 0, "lseek": 4096, "lseek64": 4096}
FLUSH = ("fsync", "fdatasync", "msync")


def live(s, i):
    if i.bb not in s.blocks:
        return False
    for j in i.bb.insts:
        if j is i:
            return True
        if j.opc == "call" and j.cname in EXITS:
            return False
    return False


def after(s, start):
    """instructions that can be executed after start"""
    seen, todo, out = set(), [(start.bb, start.bb.insts.index(start) + 1)], []
    while todo:
        b, k = todo.pop()
        for i in b.insts[k:]:
            out.append(i)
            if i.opc == "call" and i.cname in EXITS:
                break
        else:
            for x in [y for (z, y) in s.edges if z is b]:
                if x not in seen:
                    seen.add(x)
                    todo.append((x, 0))
    return out


def misses(s, start, through, goal=lambda i: i.opc == "ret"):
    """can goal be reached from start (None: the entry) without an instruction of `through`?"""
    seen = set()
    todo = [(start.bb, start.bb.insts.index(start) + 1)] if start is not None else [(s.f.blocks[0], 0)]
    while todo:
        b, k = todo.pop()
        for i in b.insts[k:]:
            if goal(i):
                return i
            if through(i) or i.opc == "call" and i.cname in EXITS:
                break
        else:
            for x in [y for (z, y) in s.edges if z is b]:
                if x not in seen:
                    seen.add(x)
                    todo.append((x, 0))
    return None


def run(r, tier):
    r.rule("write_database() is run abstractly with each system call failing in turn: the run then ends with a failure status, nothing further is done to the file, and the function does not return")
    r.rule("with all of them succeeding, and the old file shorter, longer or equal: the file is brought to exactly the length that is mapped and unmapped, mapped shared and writable, flushed and closed")
    r.rule("the consistency and mbox size checks come before the file is opened; a failed check leaves it untouched")
    r.rule("main() writes the database exactly when the update or the purge changed something; the update reports every change it made")
    writer(r)
    main_(r)
    changed(r)


def writer(r):
    p = inlined_prog(keep={"write_database", "check_database_integrity", "verify_mbox_size_constraints", "compute_mapping", "char_length"})
    f = p.fn("write_database")
    lin = Lins(p)
    opens = list(f.calls(*OPEN))
    if not opens:
        r.notes.append("opening of the database for writing not recognised")
        r.floor_waived = True
        return
    ver = list(f.calls("verify_mbox_size_constraints"))
    chk = list(f.calls("check_database_integrity"))
    maps = list(f.calls("mmap", "mmap64"))
    if not maps:
        r.notes.append("the database is no longer mapped for writing")
        r.floor_waived = True
        return
    lens = [lin(c.args[1]) for c in maps]
    fstats = list(f.calls("fstat", "fstat64"))

    def sizeld(v):
        v = strip(v)
        return v.kind == "inst" and v.opc == "load" and any(q.endswith("st_size") for q in p.s.apath(v.ops[0], 8))
    cmps = []
    for i in f.insts():
        if i.opc == "icmp":
            for a, b, sw in ((0, 1, 0), (1, 0, 1)):
                if sizeld(i.ops[a]) and lin(i.ops[b]).key() in {x.key() for x in lens}:
                    cmps.append((i, sw))
    truth = {}
    for i, sw in cmps:
        for rel in ("shorter", "longer", "equal"):
            d = {"shorter": -1, "longer": 1, "equal": 0}[rel] * (-1 if sw else 1)
            q = i.pred if i.pred in ("eq", "ne") else i.pred[1:]
            truth[i, rel] = int({"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[q])

    def scen(rel=None, fail=None, ok=1, value=None):
        def pin(i):
            if i.opc == "call":
                if i is fail:
                    return [FAIL[i.cname] if value is None else value]
                if i in ver:
                    return [ok]
                if i.cname in GOOD:
                    return [GOOD[i.cname]]
                if i.cname == "__errno_location":
                    return [NZ]
            elif rel and (i, rel) in truth:
                return [truth[i, rel]]
            return None
        return Sccp(f, pin=pin, stop=lambda i: i.cname in EXITS, cap=8)
    rets = [b.term for b in f.blocks if b.term.opc == "ret"]
    calls = [c for c in f.calls(*FAIL)]
    n = 0
    # every failure is fatal
    for c in calls:
        for rel in ("shorter", "longer", "equal") if truth else (None,):
            g = scen(rel)
            if not live(g, c):
                continue
            s = scen(rel, c)
            n += 1
            # as if it had succeeded: the outcome is not looked at
            back = misses(s, c, lambda i: False)
            r.require(back is None, "unchecked:%s" % c.cname, "a failing %s() at %s ends the run" % (c.cname, c.where),
                      "write_database(): the run goes on after %s() failed at %s, as if the database had been written" % (c.cname, c.where))
            if back is not None:
                continue
            for i in after(s, c):
                if i.opc != "call":
                    continue
                if i.cname in ("exit", "_exit", "_Exit", "unlock_and_exit"):
                    v = s.get(i.args[0])
                    r.require(v is None or 0 not in v, "status:%s" % c.cname, "failure of %s() at %s gives a failure status" % (c.cname, c.where),
                              "write_database() ends the run with status zero at %s although %s() failed" % (i.where, c.cname))
                elif i.cname in SIZERS + ("mmap", "mmap64", "rename", "unlink"):
                    r.bad("goes-on:%s" % c.cname, "write_database(): after %s() failed, %s() is still called at %s" % (c.cname, i.cname, i.where))
    # nothing fatal when all is well, and what was done
    for rel in ("shorter", "longer", "equal"):
        s = scen(rel if truth else None)
        n += 1
        if not any(live(s, t) for t in rets):
            r.bad("success-fatal", "write_database() never returns although everything succeeded")
            continue
        for c in opens:
            if live(s, c):
                fl = s.get(c.args[1])
                if fl:
                    x = next(iter(fl))
                    r.require(x & 3 == 2 and x & 0o100, "open-flags", "database opened for reading and writing, created if missing, at %s" % c.where,
                              "the database is opened at %s with flags %#x, which do not allow to create and map it for writing" % (c.where, x))
                    trunc = bool(x & 0o1000)
                else:
                    trunc = False
                q = p.s.expr(c.args[0])
                r.require(q == ("arg", 1) or q[0] != "arg", "open-name", "the configured database is opened", "write_database() opens something else than the configured database")
        for m in maps:
            if not live(s, m):
                continue
            L = lin(m.args[1])
            pr, fl = s.get(m.args[2]), s.get(m.args[3])
            r.require(not fl or all(x & 3 == 1 for x in fl), "map-shared", "database mapped shared at %s" % m.where, "the database is mapped privately at %s: what is written there never reaches the file" % m.where)
            r.require(not pr or all(x & 2 for x in pr), "map-writable", "database mapped writable at %s" % m.where, "the database is not mapped writable at %s" % m.where)
            off = s.get(m.args[5])
            r.require(not off or off == {0}, "map-offset", "database mapped from its start", "the database is mapped from an offset at %s" % m.where)
            r.require(lin(m.args[4]).key() in {lin(c).key() for c in opens}, "map-fd", "the file opened is the one mapped", "another file than the database just opened is mapped at %s" % m.where)
            for u in f.calls("munmap"):
                if live(s, u):
                    d = lin(u.args[1]).add(L, -1)
                    r.require(not (not d.atoms() and d.const), "unmap-len", "the whole mapping is released at %s" % u.where, "munmap() at %s gets another length than was mapped" % u.where)
            # sized before it is mapped
            if truth or rel == "equal":
                def sized(i):
                    if i.opc != "call":
                        return False
                    if i.cname in ("ftruncate", "ftruncate64"):
                        return lin(i.args[1]).add(L, -1).key() == frozenset()
                    if rel != "shorter":
                        return False
                    if i.cname == "write":
                        return any(k.opc == "call" and k.cname in ("lseek", "lseek64") and live(s, k) and lin(k.args[1]).add(lin(i.args[2])).add(L, -1).key() == frozenset() and
                                   s.get(k.args[2]) == {0} and i in after(s, k) for k in f.calls("lseek", "lseek64"))
                    if i.cname in ("pwrite", "pwrite64"):
                        return lin(i.args[3]).add(lin(i.args[2])).add(L, -1).key() == frozenset()
                    if i.cname.startswith("posix_fallocate"):
                        return lin(i.args[1]).add(lin(i.args[2])).add(L, -1).key() == frozenset()
                    return False
                if rel != "equal" and not (rel == "longer" and trunc):
                    x = misses(s, opens[0], sized, lambda i: i is m)
                    r.require(x is None, "size:%s" % rel, "an old file that is %s is brought to the length that is mapped" % rel,
                              "write_database(): when the old file is %s, it can be mapped at %s without having been brought to exactly the length needed" % (rel, m.where))
                for i in f.calls(*SIZERS):
                    if live(s, i) and i.cname.startswith("ftruncate"):
                        d = lin(i.args[1]).add(L, -1)
                        r.require(d.atoms() or not d.const, "trunc-len", "file cut to the length mapped at %s" % i.where, "the database is cut at %s to another length than is mapped" % i.where)
        for what, names in (("flushed", FLUSH), ("closed", ("close",))):
            x = misses(s, opens[0], lambda i: i.opc == "call" and i.cname in names)
            r.require(x is None, "not-" + what, "the database is %s before success is reported" % what, "write_database() can return without the database having been %s" % what)
        fl = [i for i in f.calls(*FLUSH) if live(s, i)]
        bases = set(maps)
        def inmap(x, d=0):
            x = p.s.gepsteps(x)[0]
            if x in bases:
                return True
            return d < 4 and x.kind == "inst" and x.opc == "phi" and any(inmap(a, d + 1) for a, _ in x.inc if a is not x)
        late = [i for c in fl for i in after(s, c) if i.opc == "store" and inmap(i.ops[1])]
        late += [i for c in fl for i in after(s, c) if i.opc == "call" and i.cname and i.cname.startswith("write_") and any(inmap(x) for x in i.args if x.ty == "ptr")]
        r.require(not late, "flush-early", "nothing is written after the flush", "the database is still being written at %s after it was flushed" % (late[0].where if late else ""))
        fdk = {lin(c).key() for c in opens}
        for c in f.calls("fstat", "fstat64", "lseek", "lseek64", "write", "ftruncate", "ftruncate64", "fsync", "fdatasync", "close"):
            if live(s, c):
                r.require(lin(c.args[0]).key() in fdk, "fd:%s" % c.cname, "%s() at %s is on the database" % (c.cname, c.where), "%s() at %s is not applied to the database just opened" % (c.cname, c.where))
    # the checks come first
    if not ver:
        if any(x.cname == "verify_mbox_size_constraints" for g in p.m.funcs.values() if not g.decl for x in g.calls()):
            r.notes.append("mbox size check made elsewhere")
        else:
            r.bad("no-size-check", "the number of messages per mbox is no longer checked before the database is written")
    else:
        s = scen("equal" if truth else None, ok=0)
        hit = [c for c in opens if live(s, c)]
        n += 1
        r.require(not hit, "size-check", "a failed mbox size check leaves the database alone", "write_database() opens the database at %s although the mbox size check failed" % (hit[0].where if hit else ""))
        r.require(not any(live(s, t) for t in rets), "size-check-status", "a failed mbox size check ends the run", "write_database() returns as if all was well although the mbox size check failed")
        for e in f.calls("exit", "unlock_and_exit", "_exit"):
            if live(s, e):
                v = s.get(e.args[0])
                r.require(v is None or 0 not in v, "size-check-zero", "failed mbox size check gives a failure status", "a failed mbox size check ends the run with status zero at %s" % e.where)
    s = scen(None)
    if not chk:
        r.bad("no-integrity-check", "write_database() no longer checks the consistency of the database")
    for c in chk:
        for o in opens:
            r.require(not any(i is c for i in after(s, o)), "check-first", "consistency checked before the file is opened", "write_database() opens the database at %s before its consistency is checked at %s" % (o.where, c.where))
    k = [a for a in range(len(f.params)) if f.params[a].ty == "i32"]
    if len(k) == 1 and chk:
        for v in (0, 1):
            s = Sccp(f, pin=lambda i: [GOOD[i.cname]] if i.opc == "call" and i.cname in GOOD else None, args={f.params[k[0]]: frozenset([v])}, stop=lambda i: i.cname in EXITS, cap=8)
            if v:
                x = misses(s, None, lambda i: i in chk, lambda i: i in opens)
                r.require(x is None, "checks-on", "consistency checked when asked for", "write_database() opens the database without the consistency check that was asked for")
    r.scope = {"calls": sorted({"%s %s" % (c.cname, c.where) for c in calls}), "scenarios": n}


def main_(r):
    p = base_prog()
    m = p.fn("main")
    up, cu, wr = list(m.calls("update_database")), list(m.calls("cull_dead_messages")), list(m.calls("write_database"))
    if not wr:
        if any(True for g in p.m.funcs.values() if not g.decl for x in g.calls("write_database")):
            r.notes.append("write_database is not called from main()")
        else:
            r.bad("never-written", "the database is never written")
        return
    if not up:
        r.notes.append("update_database is not called from main()")
        return
    for u in (0, 1):
        for c in (0, 1) if cu else (0,):
            pin = lambda i: [u] if i in up else [c] if i in cu else None
            s = Sccp(m, pin=pin, stop=lambda i: i.cname in EXITS, cap=8)
            w = [i for i in wr if live(s, i)]
            if not u and not c:
                r.require(not w, "needless", "the database is left alone when nothing changed", "main() writes the database at %s although nothing changed" % (w[0].where if w else ""))
            elif u:
                for a in up:
                    if live(s, a):
                        x = misses(Sccp(m, pin=pin, entry=a.bb, stop=lambda i: i.cname in EXITS, cap=8), a, lambda i: i in wr)
                        r.require(x is None, "not-written:update", "changes found by the update are written", "main() can end without writing the database although the update changed it")
            if c:
                for a in cu:
                    if live(s, a):
                        x = misses(Sccp(m, pin=pin, entry=a.bb, stop=lambda i: i.cname in EXITS, cap=8), a, lambda i: i in wr)
                        r.require(x is None, "not-written:purge", "a purge is written", "main() can end without writing the database although messages were purged")
    for w in wr:
        for a in up:
            s = Sccp(m, stop=lambda i: i.cname in EXITS, cap=8)
            x = misses(s, w, lambda i: False, lambda i: i in up or i in cu)
            r.require(x is None, "order", "the database is written after it was brought up to date", "main() writes the database at %s before %s" % (w.where, x.where if x else ""))
            r.require(p.s.expr(w.args[0]) == p.s.expr(a.args[0]) or strip(w.args[0]) is strip(a.args[0]), "which", "the database brought up to date is the one written",
                      "main() writes another database at %s than the one brought up to date" % w.where)
        q = p.s.paths(w.args[1])
        r.require(q == {"@database_path"}, "path", "written to the configured database path", "main() writes the database to %s" % sorted(q))


def changed(r):
    """the update reports every change it made"""
    p = base_prog()
    if not p.has("update_database"):
        r.notes.append("update_database not present")
        return
    f = p.fn("update_database")
    T = {k: p.enum(k) for k in ("MTY_DEAD", "MTY_FILE", "MTY_MBOX", "MTY_IMAP")}
    dead = [i for i in f.insts() if i.opc == "store" and i.ops[0].kind == "int" and i.ops[0].c == T["MTY_DEAD"] and any(q.endswith("type[]") or "database.+" in q or q.endswith(".type") or "type" in q for q in p.s.apath(i.ops[1], 4))]
    adds = list(f.calls("add_msg_path"))
    mb = list(f.calls("add_mbox_messages"))
    rets = [b.term for b in f.blocks if b.term.opc == "ret"]

    def result(s):
        out = set()
        for t in rets:
            if live(s, t) and t.ops:
                v = s.get(t.ops[0])
                out |= {None} if v is None else {int(x != 0) for x in v}
        return out

    # which parameter counts the files found
    cnt = {k for g in p.m.funcs.values() if not g.decl for c in g.calls(f.name) for k, a in enumerate(c.args) if a.ty == "i32" and any(q.endswith(".n") or q.endswith("msgpath_array.+8") for q in p.s.paths(a))}
    if len(cnt) != 1:
        r.notes.append("parameter counting the files found not recognised")
        return
    cnt = f.params[next(iter(cnt))]
    nm = [i for i in f.insts() if i.opc == "load" and any(q.endswith("database.n_msgs") for q in p.s.apath(i.ops[0], 4))]
    lp = sym.loops(f)
    dom = p.dom(f)

    def bound(h):
        """what a loop counts to"""
        t = h.term
        for b in [h] + [x for x in lp[h]]:
            for i in b.insts:
                if i.opc == "icmp" and any(strip(o) in nm for o in i.ops):
                    return "old"
                if i.opc == "icmp" and any(strip(o) is cnt for o in i.ops):
                    return "new"
        return None

    def nothing(mbox):
        return Sccp(f, pin=lambda i: [mbox] if i in mb else [0] if i in nm else None, args={cnt: frozenset([0])}, stop=lambda i: i.cname in EXITS, cap=16)

    def world(site, way=None):
        """one round of the loop that passes the site, nothing else happening before or after"""
        hs = [(len(b), h) for h, b in lp.items() if site.bb in b]
        if not hs:
            return None
        h = max(hs, key=lambda x: x[0])[1]
        if bound(h) is None:
            return None
        body = lp[h]
        way = force(body, h, site.bb) if way is None else way
        phis = [i for i in h.insts if i.opc == "phi"]
        start = nothing(0)

        def init(i):
            out = set()
            for v, b in i.inc:
                if b not in body:
                    w = start.get(v)
                    if not w:
                        return None
                    out |= w
            return out
        first = {i: init(i) for i in phis}
        one = Sccp(f, pin=lambda i: first.get(i) if i in first else way[i] if i in way else [0] if i in mb else None, entry=h, avoid=[x for b in body for x in b.succs if x not in body],
                   stop=lambda i: i.cname in EXITS, cap=16)
        if not live(one, site):
            return None
        then = {}
        for i in phis:
            out = set()
            for v, b in i.inc:
                if b in body and (b, h) in one.edges:
                    w = one.get(v)
                    out = None if out is None or w is None else out | w
            then[i] = out
        pre = {}
        for b in f.blocks:
            if b not in body:
                for i in b.insts:
                    if i in start.val:
                        pre[i] = start.val[i]

        def pin(i):
            if i in then:
                return then[i]
            if i in mb:
                return [0]
            if i in nm and i.bb not in body:
                return [0]
            if i in pre and i.bb is not h and sym.dominates(dom, i.bb, h):
                return pre[i]
            return None
        return Sccp(f, pin=pin, entry=h, args={cnt: frozenset([0])} if bound(h) == "old" else {}, avoid=[x for x in body if x is not h], stop=lambda i: i.cname in EXITS, cap=16)
    for what, sites in (("a message that is gone is struck out", dead), ("a message is added", adds)):
        if not sites:
            r.notes.append("no place found where %s" % what)
        for k in sites:
            s = world(k)
            if s is None:
                r.notes.append("round of update_database at %s not recognised" % k.where)
                continue
            got = result(s)
            if None in got or not got:
                r.notes.append("result of update_database not recognised when %s" % what)
            else:
                r.require(0 not in got, "unreported:" + what.split()[-1], "update_database reports a change when %s at %s" % (what, k.where),
                          "update_database() can report no change although %s at %s" % (what, k.where))
    # a name that turns out not to be a message is no change
    res = {p.enum(k) for k in ("STAT_RESULT_FILE", "STAT_RESULT_DIR", "STAT_RESULT_BAD") if k in p.t.enums}
    for k in adds:
        hs = [(len(b), h) for h, b in lp.items() if k.bb in b]
        ds = [c for c in f.calls("do_stat") if hs and c.bb in lp[max(hs, key=lambda x: x[0])[1]]]
        if not ds:
            r.notes.append("examination of the files to be added not recognised")
            continue
        for v in sorted(res - {p.enum("STAT_RESULT_FILE")}):
            s = world(ds[0], {**force(lp[max(hs, key=lambda x: x[0])[1]], max(hs, key=lambda x: x[0])[1], ds[0].bb), **{c: [v] for c in ds}})
            got = None if s is None else result(s)
            if not got or None in got:
                r.notes.append("result of update_database not recognised when a name is no message")
            else:
                r.require(got == {0}, "overreported", "update_database reports no change for a name that is no message (%d)" % v,
                          "update_database() reports a change although the name looked at by %s is no message" % ds[0].where)
    for v in (0, 1) if mb else ():
        got = result(nothing(v))
        if None in got or not got:
            r.notes.append("result of update_database not recognised when %s mbox messages were added" % ("no" if not v else "only"))
        elif v:
            r.require(0 not in got, "unreported:mbox", "update_database reports added mbox messages", "update_database() can report no change although mbox messages were added at %s" % mb[0].where)
        else:
            r.require(got == {0}, "overreported", "update_database reports no change when there is none", "update_database() reports a change although there is none")
