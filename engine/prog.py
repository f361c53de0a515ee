"""Whole-program services: call graph, interprocedural value origins, typestate."""
from collections import defaultdict
import inline, sym
from build import AnalysisBroken

_types = {}


class Prog:
    def __init__(self, keep=None, only=None, passes=inline.PASSES):
        self.m = inline.load(keep, only, passes)
        b = self.m.built
        if b.bc not in _types:
            _types[b.bc] = sym.Types(b.bc)
        self.t = _types[b.bc]
        self.s = sym.Sym(self.m, self.t)
        self.built = b
        self._callers = None
        self._dom = {}
        self._ip = {}

    def fn(self, name):
        f = self.m.funcs.get(name)
        if f is None or f.decl:
            raise AnalysisBroken("anchor function %s() is not defined in the program" % name)
        return f

    def has(self, name):
        f = self.m.funcs.get(name)
        return f is not None and not f.decl

    def defined(self):
        return [f for f in self.m.funcs.values() if not f.decl]

    def dom(self, f):
        if f not in self._dom:
            self._dom[f] = sym.dominators(f)
        return self._dom[f]

    def enum(self, name):
        if name not in self.t.enums:
            raise AnalysisBroken("enumerator %s not found" % name)
        return self.t.enums[name]

    # possible targets of a call
    def targets(self, call):
        c = call.callee
        if c.kind == "func":
            return [c.fn]
        ty = call.gty
        return [f for f in self.defined() if f.addr_taken_any and f.val.ty == ty]

    def finish_addr(self):
        """address-taken including global initialisers"""
        if hasattr(self, "_fa"):
            return
        self._fa = True
        for f in self.m.funcs.values():
            f.addr_taken_any = f.addr_taken

        def walk(v, d=0):
            if v is None or d > 6:
                return
            if v.kind == "func":
                v.fn.addr_taken_any = True
            for o in v.ops:
                walk(o, d + 1)
        for g in self.m.globals.values():
            walk(g._x.get("init"))

    def callers(self):
        if self._callers is None:
            self.finish_addr()
            self._callers = defaultdict(list)
            for f in self.defined():
                for c in f.calls():
                    for t in self.targets(c):
                        self._callers[t].append(c)
        return self._callers

    def reachable_from(self, name):
        self.finish_addr()
        seen, st = set(), [self.fn(name)]
        while st:
            f = st.pop()
            if f in seen:
                continue
            seen.add(f)
            for c in f.calls():
                for t in self.targets(c):
                    if not t.decl:
                        st.append(t)
                # callbacks passed as arguments (qsort, signal)
                for a in c.args:
                    if a.kind == "func" and not a.fn.decl:
                        st.append(a.fn)
        return seen

    def may_reach(self, names):
        """Set of defined functions from which a call to one of `names` is reachable."""
        self.finish_addr()
        names = set(names)
        hit = set()
        ch = True
        while ch:
            ch = False
            for f in self.defined():
                if f in hit:
                    continue
                for c in f.calls():
                    if any(t.name in names or t in hit for t in self.targets(c)) or \
                            any(a.kind == "func" and a.fn in hit for a in c.args):
                        hit.add(f)
                        ch = True
                        break
        return hit

    # interprocedural origins: expand argN through the callers
    def ipaths(self, v, fn=None, _stk=()):
        import re
        out = set()
        for p in self.s.paths(v):
            m = re.match(r"(&?)arg(\d+)(.*)$", p)
            if not m:
                out.add(p)
                continue
            f = fn
            if f is None:
                f = v.fn if v.kind == "arg" else (v.bb.fn if v.kind == "inst" else None)
            if f is None:
                out.add(p)
                continue
            k = int(m.group(2))
            if (f.name, k) in _stk:
                continue
            cs = self.callers().get(f, [])
            if not cs:
                out.add("%s:%s" % (f.name, p))
                continue
            for c in cs:
                if k < len(c.args):
                    for q in self.ipaths(c.args[k], c.bb.fn, _stk + ((f.name, k),)):
                        out.add(m.group(1) + q + m.group(3) if m.group(3) else q)
        return out


# ------------------------------------------------------------------ branch edges

def edge_conds(b, s):
    """List of (cond Val, truth) or (switch Val, value | ('not', [values])) labels for edge b->s."""
    t = b.term
    if t.opc == "br" and len(t.succ) == 2:
        if t.succ[0] is t.succ[1]:
            return []
        return [("br", t.ops[0], t.succ[0] is s)]
    if t.opc == "switch":
        vals = [c for c, x in t.cases if x is s]
        if t.succ[0] is s:
            oth = [c for c, x in t.cases if x is not s]
            return [("swdef", t.ops[0], oth)]
        return [("sw", t.ops[0], vals)]
    return []


def atoms(v, truth, depth=0):
    """Expand a branch condition into implied atomic facts [(pred, a, b)] (Vals).

    Handles icmp, the zext/icmp-ne-0 chains clang emits, xor-not, and and/or where
    the truth value implies both operands."""
    if depth > 12 or v.kind != "inst":
        return []
    from ir import NEG
    if v.opc == "icmp":
        a, b = v.ops
        pred = v.pred if truth else NEG[v.pred]
        out = [(pred, a, b)]
        # (zext i1 x) != 0
        if b.kind in ("int", "null") and (b.c or 0) == 0 and pred in ("eq", "ne") and a.kind == "inst":
            x = a
            while x.kind == "inst" and x.opc in ("zext", "sext", "trunc", "freeze"):
                x = x.ops[0]
            if x.kind == "inst" and x.ty == "i1":
                out += atoms(x, pred == "ne", depth + 1)
        return out
    if v.opc == "xor" and v.ty == "i1" and v.ops[1].kind == "int" and v.ops[1].c & 1:
        return atoms(v.ops[0], not truth, depth + 1)
    if v.opc == "and" and v.ty == "i1" and truth:
        return atoms(v.ops[0], True, depth + 1) + atoms(v.ops[1], True, depth + 1)
    if v.opc == "or" and v.ty == "i1" and not truth:
        return atoms(v.ops[0], False, depth + 1) + atoms(v.ops[1], False, depth + 1)
    if v.opc in ("freeze", "zext", "trunc"):
        return atoms(v.ops[0], truth, depth + 1)
    return []


def phi_edge_atoms(b, s):
    """Facts on edge b->s, looking through i1 phis in b (short-circuit code) when
    every incoming constant is decided: returns list of (pred,a,b)."""
    out = []
    for kind, v, x in edge_conds(b, s):
        if kind == "br":
            out += atoms(v, x)
        elif kind == "sw" and len(x) == 1:
            out.append(("eq", v, x[0]))
        elif kind == "sw":
            out.append(("in", v, tuple(x)))
        else:
            out.append(("notin", v, tuple(x)))
    return out


def cv(y):
    """integer value of an atom operand (int, constant or null), else None"""
    if isinstance(y, int):
        return y
    k = getattr(y, "kind", "")
    if k == "int":
        return y.c
    if k in ("null", "zero"):
        return 0
    return None


def cvs(y):
    """integer values of an in/notin operand"""
    return {cv(v) for v in y}


# ------------------------------------------------------------------ interprocedural typestate

class Typestate:
    """Finite-state interprocedural analysis with function summaries.

    step(inst, state)  -> None (default) or iterable of successor states (the call's
                          effect; () means the path ends here)
    edge(b, s, state)  -> iterable of states for the CFG edge (default: unchanged)
    Default for a call to a defined function: its summary; to a declaration: identity.
    visit(inst, state, chain) is called for every (inst,state) reached.
    """

    def __init__(self, prog, step, edge=None, visit=None):
        self.p, self.step, self.edge, self.visit = prog, step, edge, visit
        prog.finish_addr()
        self.summ = {}      # (fn,state) -> set(out states)
        self.in_prog = set()
        self.entry_from = {}
        self.at = {}        # (inst) -> set(states) for visited instructions
        self._fl = {}
        self.other, self.other_ops = None, ()
        self.track_extra = ()

    def run(self, fname, state):
        f = self.p.fn(fname)
        self.work = [(f, state)]
        self.deps = defaultdict(set)
        self.entry_from[(f, state)] = None
        done = set()
        queue = [(f, state)]
        self.summ.setdefault((f, state), set())
        while queue:
            key = queue.pop()
            before = set(self.summ[key])
            new = self._func(key, queue)
            if new != before:
                self.summ[key] = new
                queue.extend(self.deps[key])
        return self.summ[(f, state)]

    # flag variables: phis with constant inputs that steer a branch, and branch
    # conditions tested more than once, are tracked along paths.
    def _flags(self, f):
        if f in self._fl:
            return self._fl[f]
        tracked, conds = set(), {}
        for b in f.blocks:
            t = b.term
            if (t.opc in ("br", "switch") or (t.opc == "ret" and t.ops and t.ops[0].ty != "ptr")) and t.ops:
                v = t.ops[0]
                if t.opc != "ret":
                    conds[v] = conds.get(v, 0) + 1
                st, seen = [v], set()
                while st:
                    x = st.pop()
                    if x in seen or x.kind != "inst":
                        continue
                    seen.add(x)
                    if x.opc in ("icmp", "zext", "sext", "trunc", "freeze", "xor", "and", "or"):
                        st.extend(x.ops)
                    elif x.opc == "phi" and (any(y.kind in ("int", "null") for y, _ in x.inc) or self._constphi(x)):
                        tracked.add(x)
                        st.extend(y for y, _ in x.inc)
        for v in self.track_extra:
            st, seen = [v], set()
            while st:
                x = st.pop()
                if x in seen or x.kind != "inst" or x.bb.fn is not f:
                    continue
                seen.add(x)
                if x.opc in ("zext", "sext", "trunc", "freeze"):
                    st.extend(x.ops)
                elif x.opc == "phi":
                    tracked.add(x)
                    st.extend(y for y, _ in x.inc)
        multi = {v for v, n in conds.items() if n > 1 and v.kind == "inst" and v.opc != "phi"}
        self._fl[f] = (tracked, multi)
        return self._fl[f]

    @staticmethod
    def _constphi(x):
        """all inputs, through phis, are constants"""
        seen, st = set(), [x]
        while st:
            y = st.pop()
            if y in seen or y.kind in ("int", "null"):
                continue
            if y.kind != "inst" or y.opc != "phi" or len(seen) > 30:
                return False
            seen.add(y)
            st += [v for v, _ in y.inc]
        return True

    def _eval(self, v, env):
        if v.kind == "int":
            return v.c
        if v.kind == "null":
            return 0
        if v in env:
            return env[v]
        if v.kind != "inst":
            return None
        o = v.opc
        if o in ("zext", "freeze", "trunc"):
            x = self._eval(v.ops[0], env)
            return x
        if o == "sext":
            x = self._eval(v.ops[0], env)
            return x if x is None or v.ops[0].ty != "i1" else -x
        if o == "icmp":
            a, b = self._eval(v.ops[0], env), self._eval(v.ops[1], env)
            if a is None and b == 0 and v.pred in ("eq", "ne") and v.ops[0].kind == "inst" and v.ops[0].opc == "or":
                # a|b is non-zero as soon as one of them is
                if any(self._eval(x, env) for x in v.ops[0].ops):
                    return int(v.pred == "ne")
            if a is None or b is None:
                return None
            return int({"eq": a == b, "ne": a != b, "sgt": a > b, "sge": a >= b, "slt": a < b, "sle": a <= b,
                        "ugt": a > b, "uge": a >= b, "ult": a < b, "ule": a <= b}[v.pred])
        if o == "xor" and v.ty == "i1":
            a, b = self._eval(v.ops[0], env), self._eval(v.ops[1], env)
            return None if a is None or b is None else (a ^ b) & 1
        if o == "or" and v.ty != "i1":
            a, b = self._eval(v.ops[0], env), self._eval(v.ops[1], env)
            return None if a is None or b is None else a | b
        if o in ("and", "or") and v.ty == "i1":
            a, b = self._eval(v.ops[0], env), self._eval(v.ops[1], env)
            if o == "and" and (a == 0 or b == 0):
                return 0
            if o == "or" and (a == 1 or b == 1):
                return 1
            return a & b if o == "and" and a is not None and b is not None else (
                a | b if o == "or" and a is not None and b is not None else None)
        return None

    CAP = 6000

    def _func(self, key, queue):
        f, st0 = key
        out = set()
        tracked, multi = self._flags(f)
        start = (f.blocks[0], st0, frozenset())
        seen = {start}
        wl = [start]
        nenv = 0
        while wl:
            b, st, envf = wl.pop()
            env = dict(envf)
            self.env = env
            states = {st}
            for i in b.insts:
                if not states:
                    break
                for s in states:
                    self.at.setdefault(i, set()).add(s)
                if i.opc == "call":
                    ns = set()
                    for s in states:
                        if self.visit:
                            self.visit(i, s, key)
                        r = self.step(i, s)
                        if r is not None:
                            ns.update(r)
                            continue
                        for t in self.p.targets(i) or [None]:
                            if t is None or t.decl:
                                ns.add(s)
                                continue
                            k = (t, s)
                            self.deps[k].add(key)
                            if k not in self.summ:
                                self.summ[k] = set()
                                self.entry_from[k] = (i, key)
                                queue.append(k)
                            ns |= self.summ[k]
                    states = ns
                elif i.opc == "ret":
                    for s in states:
                        if self.visit:
                            self.visit(i, s, key)
                    out |= states
                elif self.other is not None and i.opc in self.other_ops:
                    ns = set()
                    for s in states:
                        ns.update(self.other(i, s, key))
                    states = ns
            if not states:
                continue
            t = b.term
            live = b.succs
            dec = None
            if t.opc == "br" and len(t.succ) == 2:
                dec = self._eval(t.ops[0], env)
                if dec is not None:
                    live = [t.succ[0] if dec & 1 else t.succ[1]]
            elif t.opc == "switch":
                dec = self._eval(t.ops[0], env)
                if dec is not None:
                    live = [next((x for c, x in t.cases if c == dec), t.succ[0])]
            for s2 in live:
                e2 = dict(env)
                if nenv < self.CAP:
                    if t.opc == "br" and len(t.succ) == 2 and t.succ[0] is not t.succ[1] and t.ops[0] in multi:
                        e2[t.ops[0]] = int(t.succ[0] is s2)
                    new = {}
                    for i in s2.insts:
                        if i.opc != "phi":
                            break
                        if i in tracked:
                            for v, pb in i.inc:
                                if pb is b:
                                    c = self._eval(v, env)
                                    if c is not None:
                                        new[i] = c
                                    break
                    for i in s2.insts:
                        e2.pop(i, None)
                    e2.update(new)
                else:
                    e2 = {}
                ef = frozenset(e2.items())
                for s in states:
                    for x in (self.edge(b, s2, s) if self.edge else (s,)):
                        n = (s2, x, ef)
                        if n not in seen:
                            seen.add(n)
                            nenv += 1
                            wl.append(n)
        return out

    def chain(self, key):
        """Call chain main -> ... -> function for diagnostics."""
        out = []
        while key is not None:
            fr = self.entry_from.get(key)
            out.append(key[0].name + ("" if fr is None else " (called at %s)" % fr[0].where))
            key = fr[1] if fr else None
        return " <- ".join(out)


# ------------------------------------------------------------------ program views
import os as _os

_BASE = set(open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "basefuncs.txt")).read().split())


def base_prog():
    """The program at its original granularity: helper functions that the reviewed
    tree did not have are folded into their callers."""
    m = inline.load()
    new = {f.name for f in m.funcs.values() if not f.decl and sym.gname(f.name) not in _BASE}
    if not new:
        return Prog()
    return Prog(only=new)


# leaf utilities that stay calls in the inlined views
LEAF = {"out_of_mem", "report_error", "unlock_and_exit", "unlock_database", "lock_database", "print_copyright",
        "print_version", "usage", "emit_int", "MD5Init", "MD5Update", "MD5Final", "compute_checksum", "hashfn",
        "format_msg_src"}


def inlined_prog(keep=()):
    """Everything folded into its callers except recursion, LEAF and `keep`."""
    return Prog(keep=LEAF | set(keep))
