"""The database lock: how lock_database() acquires and unlock_database() releases it,
decided by running the two functions abstractly under each outcome of the system calls."""
from build import AnalysisBroken
from prog import base_prog
from strs import Strs
from sccp import Sccp, NZ
import sym

EXITS = {"exit", "_exit", "_Exit", "unlock_and_exit", "abort", "__assert_fail", "out_of_mem", "quick_exit"}
REMOVE = ("unlink", "remove")
BLOCKS = ("sigprocmask", "pthread_sigmask")
SIGS = {1: "SIGHUP", 2: "SIGINT", 3: "SIGQUIT", 13: "SIGPIPE", 15: "SIGTERM"}


def lock_global(p):
    """the global that names the lock to be released: what unlock_database() removes, else what it
    looks at, else what lock_database() stores its lock name in"""
    u = p.fn("unlock_database")
    gs = {x[1:] for c in u.calls(*REMOVE) for x in p.s.paths(c.args[0]) if x.startswith("@")}
    if len(gs) == 1:
        return gs.pop()
    gs = {x[1:] for i in u.insts() if i.opc in ("load", "store") and (i.ty if i.opc == "load" else i.ops[0].ty) == "ptr"
          for x in p.s.apath(i.ops[0 if i.opc == "load" else 1], 8) if x.startswith("@")}
    if len(gs) == 1:
        return gs.pop()
    gs = {x[1:] for i in p.fn("lock_database").insts() if i.opc == "store" and i.ops[0].ty == "ptr" for x in p.s.apath(i.ops[1], 8) if x.startswith("@")}
    if len(gs) == 1:
        return gs.pop()
    raise AnalysisBroken("cannot identify the lock file name held by unlock_database")


class Lock:
    def __init__(self, p=None):
        self.p = p or base_prog()
        p = self.p
        self.X = lock_global(p)
        self.S = Strs(p)
        self.f = f = p.fn("lock_database")
        self.u = p.fn("unlock_database")
        self.callers = p.callers().get(f, [])
        if not self.callers:
            raise AnalysisBroken("no call of lock_database is reachable from main")
        # which parameter is the path, which the force flag
        c = self.callers[0]
        self.pathk = next((k for k, a in enumerate(c.args) if a.ty == "ptr"), 0)
        self.forcek = next((k for k, a in enumerate(c.args) if a.ty != "ptr"), None)
        self.dom = p.dom(f)
        self.stores = [i for i in f.insts() if i.opc == "store" and p.s.apath(i.ops[1], 8) == {"@" + self.X}]
        self.acq = []       # (call, lock name value, kind)
        for c in f.calls():
            n = c.cname
            if n in ("link", "symlink"):
                self.acq.append((c, c.args[1], n))
            elif n in ("linkat",):
                self.acq.append((c, c.args[3], n))
            elif n == "mkdir" and self.is_lock(c.args[0]):
                self.acq.append((c, c.args[0], n))
            elif n in ("open", "open64") and c.args[1].kind == "int" and c.args[1].c & 0o300 == 0o300 and self.is_lock(c.args[0]):
                self.acq.append((c, c.args[0], n))
        self.lockvals = {p.s.expr(v) for _, v, _ in self.acq}
        self.tmpvals = {p.s.expr(c.args[0]) for c, _, k in self.acq if k == "link"}

    def parts(self, v):
        h, t = self.S.labels(v)
        lits = "".join(sorted(x[4:] for x in t | h if x.startswith("lit:")))
        oth = {x for x in h | t if not x.startswith("lit:")} - {"call:fopen"}
        return lits, oth

    def is_lock(self, v):
        """is this the text <database path>.lock ?"""
        p = self.p
        if p.s.paths(v) == {"@" + self.X}:
            return True
        if getattr(self, "lockvals", None) and p.s.expr(v) in self.lockvals:
            return True
        lits, oth = self.parts(v)
        return lits == ".lock" and oth == {"@database_path"}

    def own_tmp(self, v):
        lits, oth = self.parts(v)
        return ".lock" in lits and bool(oth - {"@database_path"})

    def st_fields(self, what):
        """loads of a stat field of the temporary: [(load, about_tmp)]"""
        p = self.p
        out = []
        stats = {}
        for c in self.f.calls("stat", "lstat", "fstat", "stat64", "lstat64", "fstat64"):
            b = p.s.gepsteps(c.args[1])[0]
            stats.setdefault(b, []).append(c)
        for i in self.f.insts():
            if i.opc == "load" and any(q.endswith(what) for q in p.s.apath(i.ops[0], p.m.sizeof(i.ty))):
                cs = stats.get(p.s.gepsteps(i.ops[0])[0], [])
                out.append((i, bool(cs) and all(p.s.expr(c.args[0]) in self.tmpvals for c in cs if not c.cname.startswith("fstat"))))
        return out

    def scenario(self, got, stat=None, nlink=None, force=None, tmp=NZ):
        p = self.p
        acq = {c: k for c, _, k in self.acq}
        nl = {i for i, about in self.st_fields("st_nlink") if about}

        def pin(i):
            if i.opc == "call":
                if i in acq:
                    if acq[i].startswith("open"):
                        return [5] if got else [-1]
                    return [0] if got else [-1]
                n = i.cname
                if n in ("fopen", "fopen64") and self.p.s.expr(i.args[0]) in self.tmpvals:
                    return [tmp]
                if n in ("stat", "lstat", "stat64", "lstat64") and stat is not None and p.s.expr(i.args[0]) in self.tmpvals:
                    return [stat]
                if n in ("uname", "pthread_sigmask", "sigprocmask"):
                    return [0]
                if n in ("malloc", "safe_malloc", "getpwuid"):
                    return [NZ]
            elif i in nl and nlink is not None:
                return nlink
            return None
        args = {}
        if force is not None and self.forcek is not None and self.forcek < len(self.f.params):
            args[self.f.params[self.forcek]] = frozenset(force)
        return Sccp(self.f, pin=pin, stop=lambda i: i.cname in EXITS, args=args, cap=16, prog=p)

    def live(self, s, i):
        """is the instruction executed in the scenario (no exit before it in its block)?"""
        if i.bb not in s.blocks:
            return False
        for j in i.bb.insts:
            if j is i:
                return True
            if j.opc == "call" and j.cname in EXITS:
                return False
        return False

    def after(self, s, c, f=None):
        """instructions that may execute after c in the scenario"""
        out, seen, wl = [], set(), []

        def body(insts):
            for i in insts:
                out.append(i)
                if i.opc == "call" and i.cname in EXITS:
                    return False
            return True
        k = c.bb.insts.index(c)
        if body(c.bb.insts[k + 1:]):
            wl += [y for (x, y) in s.edges if x is c.bb]
        while wl:
            b = wl.pop()
            if b in seen:
                continue
            seen.add(b)
            if body(b.insts):
                wl += [y for (x, y) in s.edges if x is b]
        return out

    def escapes(self, s, c, done, kinds=("ret", "exit")):
        """an end of the function reached from c without passing one of `done`"""
        seen, wl = set(), []

        def body(insts):
            for i in insts:
                if done(i):
                    return None
                if i.opc == "ret" and "ret" in kinds:
                    return i
                if i.opc == "call" and i.cname in EXITS:
                    return i if "exit" in kinds else None
            return True
        st = c.bb.insts[c.bb.insts.index(c) + 1:] if c is not None else self.f.blocks[0].insts
        b0 = c.bb if c is not None else self.f.blocks[0]
        todo = [(b0, st)]
        while todo:
            b, ins = todo.pop()
            r = body(ins)
            if r is None:
                continue
            if r is not True:
                return r
            for (x, y) in s.edges:
                if x is b and y not in seen:
                    seen.add(y)
                    todo.append((y, y.insts))
        return None


def masked(p, f, at, dom):
    """Are the ending signals held back when instruction `at` of f executes?  True / False / None (unknown)"""
    state = {f.blocks[0]: frozenset("o")}
    wl = [f.blocks[0]]

    def eff(i, st):
        if i.opc == "call" and i.cname in BLOCKS and i.args[0].kind == "int":
            how = i.args[0].c
            if how == 1:
                return frozenset("o")
            k = full(p, f, i)
            if how == 0:
                return st if k is False else frozenset("b" if k else "?")
            return frozenset("b" if k else "o")
        return st
    while wl:
        b = wl.pop()
        st = state[b]
        for i in b.insts:
            st = eff(i, st)
        for s in b.succs:
            n = state.get(s, frozenset()) | st
            if n != state.get(s):
                state[s] = n
                wl.append(s)
    st = state.get(at.bb, frozenset())
    for i in at.bb.insts:
        if i is at:
            break
        st = eff(i, st)
    return True if st == {"b"} else None if "?" in st else False


def full(p, f, call):
    """does the set passed to sigprocmask(SIG_BLOCK / SIG_SETMASK) contain the five ending signals?"""
    b = p.s.gepsteps(call.args[1])[0]
    got = set()
    for g in [f]:
        for c in g.calls("sigfillset", "sigaddset", "sigdelset", "sigemptyset"):
            if p.s.gepsteps(c.args[0])[0] is b:
                if c.cname == "sigfillset":
                    return True
                if c.cname == "sigaddset":
                    if c.args[1].kind != "int":
                        return None
                    got.add(c.args[1].c)
    if not b or (b.kind == "inst" and b.opc != "alloca"):
        return None
    return set(SIGS) <= got
