"""Mutual exclusion: the run goes on only with a lock that it created itself."""
import re
from build import AnalysisBroken
from locks import Lock, EXITS, REMOVE, masked
from prog import Typestate
LEVEL = "other"
FLOOR = 8


def run(r, tier):
    L = Lock()
    p, f, X = L.p, L.f, L.X
    r.rule("lock_database() is run abstractly under every outcome of link(), stat() and the link count: it returns only if link(tmp,lock) succeeded or the link count of the private temporary became 2")
    r.rule("a failed acquisition exits non-zero; the lock file is removed there only under --unlock; it is only ever opened for reading")
    r.rule("the name that fatal exits and signal handlers release is set only once the lock is acquired, and forgotten once the lock is released")
    r.rule("the temporary that is linked is private to the process (name contains getpid() and the host name)")
    rets = [b.term for b in f.blocks if b.term.opc == "ret"]
    if not L.acq:
        over = [c for c in f.calls("rename", "fopen", "open", "creat", "fopen64", "open64") if L.is_lock(c.args[1 if c.cname == "rename" else 0])]
        over = [c for c in over if not (c.cname.startswith("fopen") and all(q.strip('"').startswith("r") for q in p.s.paths(c.args[1])))]
        if over:
            r.bad("not-exclusive", "lock_database() takes the lock at %s with %s(), which also succeeds when another run holds it" % (over[0].where, over[0].cname))
        elif any(True for _ in f.calls()):
            r.bad("no-acquire", "lock_database() never creates the lock file exclusively (no link(), symlink(), mkdir() or open with O_EXCL of the lock name)")
        return
    # ---- names
    for c, v, kind in L.acq:
        lits, oth = L.parts(v)
        if not oth and not lits or "?" in oth:
            r.notes.append("construction of the lock name at %s not recognised" % c.where)
        else:
            r.require(lits == ".lock" and oth == {"@database_path"}, "lock-name", "lock name at %s is <database path>.lock" % c.where,
                      "the lock name at %s is built from %s + '%s', not <database path>.lock" % (c.where, sorted(oth), lits))
        if kind != "link":
            continue
        t = c.args[0]
        lits, oth = L.parts(t)
        r.require(p.s.expr(t) != p.s.expr(v), "tmp-ne-lock", "link source and target differ at %s" % c.where)
        if "?" in oth:
            r.notes.append("construction of the temporary name at %s not recognised" % c.where)
            continue
        pid = any("call:getpid" in p.s.paths(a) for k in f.calls("sprintf", "snprintf") for a in k.args) or any(k.cname in ("mkstemp", "mkostemp") for k in f.calls())
        r.require(pid and any(x.startswith("%") for x in oth) or any(k.cname == "mkstemp" for k in f.calls()), "tmp-pid", "temporary lock name contains the process id",
                  "the temporary lock name at %s does not contain the process id (%s)" % (c.where, sorted(oth)))
        r.require(any("nodename" in x for x in oth) or any(k.cname == "gethostname" for k in f.calls()), "tmp-host", "temporary lock name contains the host name",
                  "the temporary lock name at %s does not contain the host name" % c.where)
    # ---- outcomes
    fail = [("link() fails and the temporary cannot be examined", dict(got=False, stat=-1)),
            ("link() fails and the link count is 1", dict(got=False, stat=0, nlink=[1])),
            ("link() fails and the link count is 3", dict(got=False, stat=0, nlink=[3]))]
    for what, kw in fail:
        s = L.scenario(**kw)
        live = [t for t in rets if L.live(s, t)]
        r.require(not live, "ret-unacquired", "no return when %s" % what, "lock_database() can return at %s when %s: the run goes on without the lock" % (live[0].where if live else "", what))
        for i in (x for b in s.blocks for x in b.insts):
            if i.opc != "call" or not L.live(s, i):
                continue
            n = i.cname
            if n in ("exit", "_exit", "_Exit", "unlock_and_exit"):
                v = s.get(i.args[0])
                if v is not None:
                    r.require(0 not in v, "exit-zero", "failure status at %s" % i.where, "lock_database() exits with status zero at %s although the lock was not obtained" % i.where)
        for st in L.stores:
            if L.live(s, st) and s.get(st.ops[0]) != frozenset([0]):
                r.bad("name-early", "the name that fatal exits and signal handlers release is set at %s although the lock may not be acquired (%s): they would remove another run's lock" % (st.where, what))
        rem = [i for a, _, _ in L.acq for i in L.after(s, a) if i.opc == "call" and i.cname in REMOVE + ("rename",) and any(L.is_lock(x) for x in i.args[:2] if x.ty == "ptr")]
        r.require(not rem, "unlink-foreign", "no removal of the lock when %s" % what, "lock_database() removes the lock file of another run at %s (%s)" % (rem[0].where if rem else "", what))
    for kw in (dict(got=False, tmp=0), dict(got=False, tmp=0, stat=-1)):
        s = L.scenario(**kw)
        e = L.escapes(s, None, lambda i: any(i is a for a, _, _ in L.acq), kinds=("ret",))
        r.require(e is None, "ret-untried", "no return without an attempt to take the lock", "lock_database() can return at %s without having tried to take the lock" % (e.where if e else ""))
    for what, kw in [("link() succeeds", dict(got=True)), ("link() reports failure but the link count is 2", dict(got=False, stat=0, nlink=[2]))]:
        s = L.scenario(**kw)
        live = [t for t in rets if L.live(s, t)]
        if kw["got"]:
            r.require(live, "ret-acquired", "returns when %s" % what, "lock_database() never returns even when %s" % what)
        names = [st for st in L.stores if L.live(s, st) and s.get(st.ops[0]) != frozenset([0])]
        if live:
            e = L.escapes(s, None, lambda i: i in names, kinds=("ret",))
            r.require(e is None, "name-never-set", "release name is set when %s" % what, "lock_database() can return at %s without recording the lock name, so it is never released" % (e.where if e else ""))
        for st in names:
            ok = L.is_lock(st.ops[0])
            lits, oth = L.parts(st.ops[0])
            if ok or oth and "?" not in oth:
                r.require(ok, "name-same", "released name is the lock name (%s)" % st.where, "the name stored for release at %s is not the lock name" % st.where)
    # ---- without --unlock nothing is removed
    if L.forcek is not None:
        s = L.scenario(True, force=[0])
        for kw in (dict(got=True), dict(got=False, stat=0, nlink=[1]), dict(got=False, stat=-1)):
            s = L.scenario(force=[0], **kw)
            for i in (x for b in s.blocks for x in b.insts):
                if i.opc == "call" and L.live(s, i) and i.cname in REMOVE and L.is_lock(i.args[0]) and not p.s.paths(i.args[0]) == {"@" + X}:
                    r.bad("unlink-unforced", "lock_database() removes an existing lock file at %s without --unlock" % i.where)
    for i in f.calls():
        n = i.cname
        if n in ("fopen", "fopen64", "open", "open64", "creat", "truncate") and L.is_lock(i.args[0]):
            if n in ("open", "open64"):
                ok = i.args[1].kind != "int" or i.args[1].c & 3 == 0 or any(i is a for a, _, _ in L.acq)
            elif n in ("creat", "truncate"):
                ok = False
            else:
                ok = all(q.strip('"')[:1] == "r" and "+" not in q for q in p.s.paths(i.args[1]) if q.startswith('"'))
            r.require(ok, "lock-open", "existing lock file only read at %s" % i.where, "lock_database() opens an existing lock file for writing at %s" % i.where)
        elif n in ("rename", "symlink") and not any(i is a for a, _, _ in L.acq):
            if L.is_lock(i.args[1]):
                r.bad("not-exclusive", "lock_database() replaces the lock file with %s() at %s" % (n, i.where))
        elif n in ("unlock_database", "unlock_and_exit"):
            s = L.scenario(False, stat=0, nlink=[1])
            early = [st for st in L.stores if L.live(s, st)]
            r.require(not early or not L.live(s, i), "unlock-in-lock", "release inside lock_database at %s harmless" % i.where,
                      "lock_database() calls %s() at %s before it holds the lock" % (n, i.where))
    # ---- nobody else sets the name
    for g in p.defined():
        for i in g.insts():
            if i.opc == "store" and g is not f and p.s.apath(i.ops[1], 8) == {"@" + X}:
                r.require(i.ops[0].kind == "null", "name-elsewhere:" + g.name, "%s only clears the lock name" % g.name,
                          "%s() at %s assigns the lock file name" % (g.name, i.where))
    release(r, L)
    # ---- nobody else removes the lock
    for g in p.defined():
        if g in (f, L.u):
            continue
        for i in g.calls("unlink", "remove", "rename", "truncate"):
            if any(L.is_lock(a) for a in i.args[:2] if a.ty == "ptr"):
                r.bad("removed-elsewhere:" + g.name, "%s() at %s removes the lock file without having created it" % (g.name, i.where))
    # ---- main: locked path and force flag
    from cli import Cli
    cli = Cli(p)
    for c in L.callers:
        if c.bb.fn is f:
            continue
        r.require(p.s.paths(c.args[L.pathk]) == {"@database_path"}, "lock-arg", "lock requested for database_path at %s" % c.where,
                  "lock at %s is not taken for the configured database path" % c.where)
        if L.forcek is None:
            continue
        a = c.args[L.forcek]
        fl = p.s.paths(a)
        r.require(fl <= {"#0", "#1"} and "#0" in fl, "force-flag", "forced unlock is a command-line flag at %s (%s)" % (c.where, sorted(fl)),
                  "the forced-unlock argument at %s is not a flag that defaults to off (%s)" % (c.where, sorted(fl)))
        if "--unlock" in cli.opts:
            r.require(cli.sets("--unlock", a, 1), "force-opt", "--unlock asks for the forced unlock", "--unlock does not reach lock_database() at %s" % c.where)
            for o in sorted(cli.opts):
                if o != "--unlock" and cli.sets(o, a, 1):
                    r.bad("force-by:" + o, "option %s removes an existing lock file although only --unlock asks for that" % o)
            # the flag is taken straight from the options
            flag_source(r, p, a, c, cli)
    r.scope = {"functions": ["lock_database", "unlock_database"] + sorted({c.bb.fn.name for c in L.callers}),
               "acquisition_sites": [c.where for c, _, _ in L.acq], "scenarios": 9, "units": len(p.built.units)}


def flag_source(r, p, a, call, cli):
    """constants that reach the flag other than through the option loop"""
    import sym
    f = call.bb.fn
    lp = sym.loops(f)
    seen, st = set(), [a]
    while st:
        x = st.pop()
        if x in seen or x.kind != "inst":
            continue
        seen.add(x)
        if x.opc == "phi":
            for v, b in x.inc:
                if v.kind == "int" and v.c and not any(b in body for body in lp.values()):
                    r.bad("force-set", "the forced-unlock flag is set at %s outside the option loop, so a run without --unlock removes another run's lock" % b.insts[-1].where)
                st.append(v)
        elif x.opc in ("zext", "sext", "trunc", "freeze", "or", "and", "xor", "select"):
            st += list(x.ops)


def release(r, L):
    """unlock_database(): removes the held lock, and forgets it"""
    p, u, X = L.p, L.u, L.X
    from sccp import Sccp, NZ
    G = "@" + X

    def cell(i):
        if i.opc in ("load", "store"):
            return X if p.s.apath(i.ops[0 if i.opc == "load" else 1], 8) == {G} else None
        return None
    s = Sccp(u, cell=cell, init={X: frozenset([NZ])}, cap=8)
    rem = [c for c in u.calls(*REMOVE) if p.s.paths(c.args[0]) == {G}]
    e = L.escapes.__func__(_F(u), s, None, lambda i: i in rem, ("ret",))
    r.require(e is None, "unlock-noop", "unlock_database removes a held lock on every path", "unlock_database() can return at %s without removing the held lock" % (e.where if e else ""))
    for c in rem:
        if c.bb in s.blocks:
            v = s.get(c.args[0])
            r.require(v is None or 0 not in v, "unlock-null", "the held name is removed at %s" % c.where, "unlock_database() has forgotten the lock name before it removes it at %s" % c.where)
    clr = [i for i in u.insts() if i.opc == "store" and i.ops[0].kind == "null" and p.s.apath(i.ops[1], 8) == {G}]
    e = L.escapes.__func__(_F(u), s, None, lambda i: i in clr, ("ret",))
    r.require(e is None, "unlock-keeps-name", "unlock_database forgets the released lock", "unlock_database() can return at %s still holding the name of the released lock: a later signal or fatal error removes the lock of another run" % (e.where if e else ""))
    dom = p.dom(u)
    for c in rem + clr:
        if c.bb in s.blocks and clr:
            k = masked(p, u, c, dom)
            if k is None:
                r.notes.append("signal mask at %s not recognised" % c.where)
            else:
                r.require(k, "unlock-window", "signals held back at %s" % c.where, "a signal between the removal of the lock and %s acts on the lock of another run or leaves the lock behind" % c.where)


class _F:
    def __init__(self, f):
        self.f = f
