"""The lock covers every use of the database and is released on every exit."""
from build import AnalysisBroken
from locks import Lock, SIGS, REMOVE, masked
import sym
from prog import Typestate, phi_edge_atoms
LEVEL = "other"
FLOOR = 8
EXITS = {"exit", "_exit", "_Exit", "quick_exit"}
ABORTS = {"abort", "__assert_fail", "__assert_perror_fail", "__assert"}
SIGNAL = ("signal", "bsd_signal", "sysv_signal", "__sysv_signal")
FILEOPS = {"open", "open64", "fopen", "fopen64", "mmap", "mmap64", "munmap", "mkdir", "symlink", "link", "opendir", "rename", "ftruncate", "msync", "fsync"}
ABRT = 6


def run(r, tier):
    L = Lock()
    p, X = L.p, L.X
    G = "@" + X
    r.rule("typestate unlocked/held/released over the interprocedural CFG from main: lock_database() takes, unlink(%s) releases" % X)
    r.rule("while held: no exit()/_exit() and no return from main; an assertion can fail only with a SIGABRT handler that releases; no default disposition is put back")
    r.rule("while not held: no open of the database file; after the release no file is opened, mapped or unmapped")
    r.rule("handlers for SIGHUP, SIGINT, SIGQUIT, SIGPIPE and SIGTERM are installed before the lock is taken and end in unlink+exit(non-zero)")
    r.rule("lock_database() removes its temporary on every way out, records the name to be released, and signals are held back while file and name are out of step")
    db_open = {}
    for f in p.defined():
        for c in f.calls("open", "open64", "fopen", "fopen64", "creat"):
            if "@database_path" in p.ipaths(c.args[0]):
                db_open[c] = c
    if len(db_open) < 2:
        raise AnalysisBroken("fewer than two database open sites found (%d)" % len(db_open))
    seen = {}

    def is_lock_unlink(i):
        return i.cname in REMOVE and G in p.s.paths(i.args[0])

    def signo(i):
        """signals named by the first argument (a constant, or elements of a constant table)"""
        a = i.args[0]
        if a.kind == "int":
            return {a.c}
        return table(p, a)

    def handler_of(i):
        """(known, function or None when default / ignored)"""
        if i.cname == "sigaction":
            b = p.s.gepsteps(i.args[1])[0]
            hs = []
            for j in i.bb.fn.insts():
                if j.opc == "store" and p.s.gepsteps(j.ops[1])[0] is b and j.ops[0].ty == "ptr":
                    hs.append(j.ops[0])
            if len(hs) != 1:
                return (False, None)
            h = hs[0]
        else:
            h = i.args[1]
        if h.kind == "func" and not h.fn.decl:
            return (True, h.fn)
        if h.kind in ("null", "int", "cexpr"):
            return (True, None)
        return (False, None)

    def step(i, s):
        lk, sg = s
        n = i.cname
        if n == "lock_database":
            return [("L", sg)]
        if is_lock_unlink(i):
            return [("R", sg)]
        if n in EXITS or n in ABORTS:
            return ()
        if n in SIGNAL or n == "sigaction":
            nos = signo(i)
            if nos is None:
                return [(lk, sg | frozenset(SIGS) | {ABRT})]     # unknown set: see the note
            nos = nos & (set(SIGS) | {ABRT})
            k, h = handler_of(i)
            if not k or h is not None or p.s.paths(i.args[1]) == {"#1"}:
                return [(lk, sg | nos)]
            return [(lk, sg - nos)]
        return None

    inst_loops = {}
    for g in p.defined():
        for c in g.calls("sigaction", *SIGNAL):
            if c.args[0].kind == "int":
                continue
            t = table(p, c.args[0])
            for h, body in sym.loops(g).items():
                if c.bb in body and t and handler_of(c)[1] is not None:
                    # a loop over a table of signals installs them all
                    for b in body:
                        for x in b.succs:
                            if x not in body:
                                inst_loops[(b, x)] = frozenset(t & (set(SIGS) | {ABRT}))

    def edge(b, s2, s):
        if (b, s2) in inst_loops:
            s = (s[0], s[1] | inst_loops[(b, s2)])
        for pred, x, y in phi_edge_atoms(b, s2):
            z = getattr(y, "kind", "") == "null"
            if z and p.s.paths(x) == {G}:
                if pred == "eq" and s[0] == "L" or pred == "ne" and s[0] in ("R", "U"):
                    return ()
            if pred == "eq" and getattr(y, "kind", "") == "int" and y.c == 0 and p.s.paths(x) == {"call:fork"}:
                return [("C", s[1])]
            if pred == "ne" and getattr(y, "kind", "") == "int" and y.c == 0 and p.s.paths(x) == {"call:fork"} and s[0] == "C":
                return ()
        return [s]

    handlers = {}
    cur = {"main": True}

    def visit(i, s, key):
        lk = s[0]
        if i.opc == "ret":
            if cur["main"] and key[0].name == "main":
                r.require(lk != "L", "ret:main", "return from main at %s in state %s" % (i.where, lk),
                          "main returns at %s while the lock is still held" % i.where)
            elif not cur["main"] and key[0].name == cur["h"]:
                if cur["sigs"] & set(SIGS):
                    r.bad("handler-returns:" + key[0].name, "signal handler %s can return to the interrupted run" % key[0].name)
                else:
                    r.require(lk != "L", "abort-handler:" + key[0].name, "the SIGABRT handler releases the lock", "the SIGABRT handler %s returns without releasing the lock" % key[0].name)
            return
        n = i.cname
        k = (i, lk, ABRT in s[1])
        if n in EXITS:
            if k in seen:
                return
            seen[k] = 1
            r.require(lk != "L", "exit-locked:%s:%s" % (key[0].name, n),
                      "%s() in %s at %s reached in state %s" % (n, key[0].name, i.where, lk),
                      "%s() in %s() at %s ends the run with the lock held (%s)" % (n, key[0].name, i.where, ts.chain(key)))
            if not cur["main"] and i.args[0].kind == "int":
                r.require(i.args[0].c != 0, "handler-exit0", "handler exit status %d" % i.args[0].c)
        elif n in ABORTS:
            if k in seen:
                return
            seen[k] = 1
            r.require(lk != "L" or ABRT in s[1], "abort-locked:%s" % key[0].name, "failing assertion in %s at %s releases the lock" % (key[0].name, i.where),
                      "%s() in %s() at %s ends the run with the lock held: SIGABRT is not handled (%s)" % (n, key[0].name, i.where, ts.chain(key)))
        elif i in db_open:
            if k in seen:
                return
            seen[k] = 1
            r.require(lk == "L", "db-open-unlocked:%s" % key[0].name,
                      "database opened in %s at %s in state %s" % (key[0].name, i.where, lk),
                      "database file opened in %s() at %s without holding the lock (%s)" % (key[0].name, i.where, ts.chain(key)))
        elif n == "lock_database":
            missing = sorted(SIGS[x] for x in SIGS if x not in s[1])
            if lk == "L":
                r.bad("relock", "lock_database called again at %s while the lock is held" % i.where)
            r.require(not missing, "sig-before-lock", "signal handlers installed before locking at %s" % i.where,
                      "lock taken at %s before a handler for %s is installed" % (i.where, ",".join(missing)))
        elif n in SIGNAL or n == "sigaction":
            nos = signo(i)
            k2, h = handler_of(i)
            if nos is None or not k2:
                r.notes.append("signal set-up at %s not recognised" % i.where)
            elif h is not None:
                handlers.setdefault(h.name, set()).update(nos)
            elif lk == "L" and p.s.paths(i.args[1]) != {"#1"} and nos & (set(SIGS) | {ABRT}):
                r.bad("sig-default", "%s() in %s() at %s puts back the default action of %s while the lock is held" %
                      (n, key[0].name, i.where, ",".join(sorted(SIGS.get(x, "SIGABRT") for x in nos))))
        elif lk == "R" and n in FILEOPS and cur["main"]:
            r.bad("used-after-release:%s" % key[0].name, "%s() in %s() at %s after the lock has been released (%s)" % (n, key[0].name, i.where, ts.chain(key)))

    ts = Typestate(p, step, edge, visit)
    ts.run("main", ("U", frozenset()))
    if not any(i.cname == "lock_database" for i in ts.at):
        raise AnalysisBroken("no call of lock_database is reachable from main")
    for h, sigs in sorted(handlers.items()):
        cur.clear()
        cur.update({"main": False, "h": h, "sigs": sigs})
        ts = Typestate(p, step, edge, visit)
        ts.run(h, ("L", frozenset(SIGS) | {ABRT}))
    if not handlers:
        r.notes.append("no signal handler recognised")
    inside(r, L)
    r.scope = {"units": len(p.built.units), "functions": len(p.defined()), "exit_sites_x_states": sum(1 for k in seen if k[0].cname in EXITS),
               "abort_sites_x_states": sum(1 for k in seen if k[0].cname in ABORTS),
               "database_open_sites": sorted(i.where for i in db_open), "handlers": sorted(handlers),
               "function_summaries": len(ts.summ)}


def table(p, a):
    """values of a load from a constant table"""
    from util import init_bytes
    x = a
    while x.kind == "inst" and x.opc in ("sext", "zext", "trunc", "freeze"):
        x = x.ops[0]
    if x.kind != "inst" or x.opc != "load":
        return None
    g = p.s.gepsteps(x.ops[0])[0]
    if g.kind == "inst" and g.opc == "alloca":
        # a local table copied from a constant
        src = [i.args[1] for i in x.bb.fn.insts() if i.opc == "call" and (i.cname or "").startswith("llvm.memcpy") and p.s.gepsteps(i.args[0])[0] is g]
        if len(src) != 1:
            return None
        g = p.s.gepsteps(src[0])[0]
    gl = p.m.globals.get(g.name) if g.kind == "global" else None
    b = init_bytes(gl._x.get("init"), p.m) if gl is not None else None
    if not b:
        return None
    n = p.m.sizeof(x.ty)
    return {int.from_bytes(b[k:k + n], "little") for k in range(0, len(b), n)}


def inside(r, L):
    """lock_database() itself: nothing left behind on its ways out"""
    p, f = L.p, L.f
    dom = p.dom(f)
    scen = [("the lock is obtained", dict(got=True)), ("the lock is refused", dict(got=False, stat=0, nlink=[1])),
            ("the temporary cannot be examined", dict(got=False, stat=-1)), ("the link count is 2", dict(got=False, stat=0, nlink=[2]))]
    acq = [a for a, _, _ in L.acq]
    for what, kw in scen:
        s = L.scenario(**kw)
        for c in f.calls("fopen", "fopen64", "open", "open64", "creat"):
            if not L.live(s, c) or p.s.expr(c.args[0]) not in L.tmpvals:
                continue
            e = p.s.expr(c.args[0])
            gone = [i for i in f.calls("unlink", "remove", "rename") if p.s.expr(i.args[0]) == e]
            x = L.escapes(s, c, lambda i: i in gone)
            r.require(x is None, "tmp-left", "the temporary made at %s is removed when %s" % (c.where, what),
                      "lock_database() ends at %s without removing the temporary lock file when %s" % (x.where if x else "", what))
    for kw in (dict(got=True),):
        s = L.scenario(**kw)
        names = [st for st in L.stores if L.live(s, st) and s.get(st.ops[0]) != frozenset([0])]
        for a in acq:
            if not L.live(s, a):
                continue
            rel = [i for i in f.calls(*REMOVE) if L.is_lock(i.args[0])]
            x = L.escapes(s, a, lambda i: i in names or i in rel)
            r.require(x is None, "name-unset", "the lock obtained at %s is recorded for release" % a.where,
                      "lock_database() ends at %s without having recorded the lock it obtained, so it is never released" % (x.where if x else ""))
            aft = [i for i in L.after(s, a) if i.opc == "call" and i.cname in EXITS | ABORTS]
            for i in aft:
                x = L.escapes(s, a, lambda j: j in rel, kinds=("exit",))
                r.require(x is None, "exit-acquired", "no exit with the lock just taken", "lock_database() exits at %s leaving the lock it has just obtained" % (x.where if x else ""))
            k = masked(p, f, a, dom)
            ks = [masked(p, f, st, dom) for st in names]
            if k is None or None in ks:
                r.notes.append("signal mask at %s not recognised" % a.where)
            elif k is False and masked_in_main(L):
                r.notes.append("signals are held back by the caller of lock_database()")
            else:
                r.require(k and all(ks), "signal-window", "signals held back between taking the lock at %s and recording its name" % a.where,
                          "a signal between %s and the recording of the lock name leaves the lock behind" % a.where)
                if k and names:
                    # and not released in between
                    un = [i for i in f.calls("sigprocmask", "pthread_sigmask") if i.args[0].kind == "int" and i.args[0].c in (1, 2) and i in L.after(s, a)]
                    x = L.escapes(s, a, lambda j: j in names or j in un, kinds=("ret", "exit"))
                    for i in un:
                        if not any(sdom(dom, st, i) for st in names):
                            r.bad("signal-window", "signals are let through again at %s before the lock name is recorded" % i.where)


def sdom(dom, a, b):
    import sym
    return sym.inst_dominates(dom, a, b)


def masked_in_main(L):
    return any(True for c in L.callers for _ in c.bb.fn.calls("sigprocmask", "pthread_sigmask"))
