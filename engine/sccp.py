"""Set-valued conditional constant propagation over one function.

A value is a frozenset of integers (at most CAP) or None (= any value).  `pin(inst)`
may fix the possible results of an instruction.  Pointers: null is 0, NZ is some
non-null pointer.  Computes the blocks that can be executed under the pinned facts.
"""
NZ = 1 << 40
CAP = 12


def _mask(ty):
    try:
        return (1 << int(ty[1:])) - 1 if ty.startswith("i") else None
    except ValueError:
        return None


def _sx(x, ty):
    try:
        w = int(ty[1:])
    except ValueError:
        return x
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


_BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "and": lambda a, b: a & b,
        "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "shl": lambda a, b: a << b if 0 <= b < 64 else 0,
        "sdiv": lambda a, b: _tdiv(a, b), "srem": lambda a, b: a - b * _tdiv(a, b), "lshr": None, "ashr": lambda a, b: a >> b if 0 <= b < 64 else 0}


def _tdiv(a, b):
    q = abs(a) // abs(b) if b else 0
    return q if (a < 0) == (b < 0) else -q


class Sccp:
    def __init__(self, f, pin=lambda i: None, stop=lambda i: False, avoid=(), cell=None, init=None, reset=(), cap=CAP, entry=None, args=None, once=None, effect=None, prog=None):
        """cell(inst) -> key: loads/stores of a tracked memory cell; init {key: set}: its contents at entry and
        on every entry to a block in `reset` (loop headers: a new element is meant from there on)
        once: {header: body} loops over all elements, taken exactly once (for the element the cells stand for)
        effect(inst, state): other effects on the cells"""
        self.once, self.effect = once or {}, effect
        self.prog = prog       # given: loads from arrays of constants are evaluated
        self.f, self.pin, self.stop = f, pin, stop
        self.cell, self.init, self.reset = cell, dict(init or {}), set(reset)
        self.cap = cap
        self.entry, self.args = entry or f.blocks[0], args or {}
        self.mem = {}          # block -> {key: frozenset | None} at entry
        self.memout = {}       # (block, succ) -> {key: ...}
        self.val = {}          # inst -> frozenset | None ; missing = unreached
        self.edges = set()
        self.blocks = set()
        self.avoid = set(avoid)  # blocks never entered
        self._run()

    def get(self, v):
        k = v.kind
        if k == "int":
            return frozenset([_sx(v.c, v.ty)])
        if k in ("null", "zero"):
            return frozenset([0])
        if k in ("global", "func"):
            return frozenset([NZ])
        if k == "cexpr" and v.opc == "inttoptr" and v.ops[0].kind == "int":
            return frozenset([_sx(v.ops[0].c, "i64")])
        if k == "inst":
            if v not in self.val and self.entry is not self.f.blocks[0] and v.bb not in self.blocks:
                x = self.pin(v)     # defined before the region
                if x is None and (v.opc in _BIN or v.opc in ("zext", "sext", "trunc", "freeze")):
                    return self._eval(v)
                return None if x is None else frozenset(x)
            return self.val.get(v, frozenset())
        return self.args.get(v)

    def _nonzero(self, v, d=0):
        """v is never zero although its value is unknown: an `or` with something non-zero"""
        x = self.get(v)
        if x:
            return 0 not in x
        if d > 6 or v.kind != "inst" or v.bb not in self.blocks:
            return False
        if v.opc == "or":
            return any(self._nonzero(o, d + 1) for o in v.ops)
        if v.opc in ("zext", "sext", "freeze"):
            return self._nonzero(v.ops[0], d + 1)
        if v.opc == "phi" and v.bb is not self.entry:
            inc = [a for a, b in v.inc if (b, v.bb) in self.edges]
            return bool(inc) and all(self._nonzero(a, d + 1) for a in inc)
        return False

    def _eval(self, i):
        p = self.pin(i)
        if p is not None:
            return frozenset(p)
        o = i.opc
        if o == "phi":
            if i.bb is self.entry:
                return None         # any value from before the region
            out = frozenset()
            for v, b in i.inc:
                if (b, i.bb) not in self.edges:
                    continue
                if v.kind in ("undef", "poison") and len(i.inc) > 1:
                    continue        # the variable has no value on this way
                x = self.get(v)
                if x is None:
                    return None
                out |= x
            return out if len(out) <= self.cap else None
        ops = [self.get(x) for x in i.ops] if o not in ("call", "alloca") else []
        if o in ("zext", "sext", "trunc", "freeze", "ptrtoint", "inttoptr", "bitcast"):
            x = ops[0]
            if x is None:
                return None
            if o == "zext":
                m = _mask(i.ops[0].ty)
                return frozenset(v & m for v in x)
            if o == "trunc":
                return frozenset(_sx(v, i.ty) for v in x)
            if o == "sext" and i.ops[0].ty == "i1":
                return frozenset(-(v & 1) for v in x)
            return x
        if o == "icmp":
            a, b = ops
            if a is not None and b is not None and a and b:
                if NZ in a | b and not (a <= {0, NZ} and b == {0} or b <= {0, NZ} and a == {0}):
                    return None
                r = set()
                m = _mask(i.ops[0].ty) or (1 << 64) - 1
                for x in a:
                    for y in b:
                        if i.pred[0] == "u":
                            x_, y_ = x & m, y & m
                        else:
                            x_, y_ = x, y
                        r.add(int({"eq": x_ == y_, "ne": x_ != y_, "gt": x_ > y_, "ge": x_ >= y_, "lt": x_ < y_,
                                   "le": x_ <= y_}[i.pred if i.pred in ("eq", "ne") else i.pred[1:]]))
                return frozenset(r)
            if a == frozenset() or b == frozenset():
                return frozenset()
            if i.pred in ("eq", "ne") and a is None and b == frozenset([0]) and self._nonzero(i.ops[0]):
                self._orcmp.add(i)
                return frozenset([int(i.pred == "ne")])
            return None
        if o in _BIN and len(ops) == 2:
            a, b = ops
            if a == frozenset() or b == frozenset():
                return frozenset()
            if o == "and" and (a == {0} or b == {0}):
                return frozenset([0])
            if o == "or" and i.ty == "i1" and (a and all(v & 1 for v in a) or b and all(v & 1 for v in b)):
                return frozenset([1])
            if a is None or b is None:
                if o == "and":
                    k = a if a is not None else b
                    if k is not None and len(k) == 1 and 0 < bin(next(iter(k)) & 0xffffffff).count("1") <= 2 and next(iter(k)) >= 0:
                        k = next(iter(k))
                        bits = [1 << j for j in range(40) if k >> j & 1]
                        s = {0}
                        for t in bits:
                            s |= {x | t for x in s}
                        return frozenset(s)
                return None
            if i.ty == "i1":
                r = frozenset(_BIN[o](x & 1, y & 1) & 1 for x in a for y in b)
            elif o == "lshr":
                m = _mask(i.ty) or 0
                r = frozenset(_sx((x & m) >> y, i.ty) for x in a for y in b if 0 <= y < 64)
            else:
                r = frozenset(_sx(_BIN[o](x, y), i.ty) for x in a for y in b)
            return r if len(r) <= self.cap else None
        if o == "gep" and ops and ops[0] == {NZ}:
            return ops[0]
        if o == "load" and self.prog is not None:
            t = self._table(i)
            if t is not None:
                return t
        if o == "select":
            c = ops[0]
            out = frozenset()
            for k, want in ((1, 1), (2, 0)):
                if c is None or want in {v & 1 for v in c}:
                    if ops[k] is None:
                        return None
                    out |= ops[k]
            return out if len(out) <= self.cap else None
        return None

    def _table(self, i):
        b, st = self.prog.s.gepsteps(i.ops[0])
        if b.kind != "global" or len(st) != 1 or st[0][0] != "[]" or st[0][2] != self.prog.m.sizeof(i.ty):
            return None
        ini = b._x.get("init")
        if ini is None or ini.kind != "data":
            return None
        if not b._x.get("const"):
            def rd(v, d=0):
                return d < 4 and all((u.kind in ("inst", "cexpr")) and (u.opc == "load" or u.opc in ("gep", "bitcast") and rd(u, d + 1)) for u in v.users)
            if not rd(b):
                return None
        ix = self.get(st[0][1])
        if ix is None:
            return None
        if ini.s is not None:
            vals = list(ini.s)
        else:
            vals = [o.c if o.kind == "int" else 0 if o.kind == "zero" else None for o in ini.ops]
        out = set()
        for k in ix:
            if not 0 <= k < len(vals) or vals[k] is None:
                return None
            out.add(_sx(vals[k], i.ty))
        return frozenset(out) if len(out) <= self.cap else None

    def _run(self):
        e = self.entry
        self.blocks.add(e)
        self.mem[e] = dict(self.init)
        wl = [e]
        self._orcmp = set()
        while True:
            if not wl:      # comparisons that depend on more than their operands' values
                wl = [i.bb for i in self._orcmp if self.val.get(i) is not None and not (self._eval(i) or frozenset([0, 1])) <= self.val[i]]
                if not wl:
                    break
            b = wl.pop()
            if b in self.avoid:
                continue
            changed = set()
            dead = False
            st = dict(self.init) if b in self.reset else dict(self.mem.get(b, {}))
            for i in b.insts:
                if self.stop(i):
                    dead = True
                    break
                if self.effect:
                    if getattr(self.effect, "valued", False):
                        self.effect(i, st, self.get)
                    else:
                        self.effect(i, st)
                k = self.cell(i) if self.cell and i.opc in ("load", "store") else None
                if k is not None and i.opc == "store":
                    st[k] = self._store(st.get(k), self.get(i.ops[0]), i.ops[0].ty)
                    continue
                if k is not None:
                    n = self.pin(i)
                    n = frozenset(n) if n is not None else st.get(k)
                    if n is not None:
                        n = frozenset(_sx(x, i.ty) for x in n)
                    old = self.val.get(i, frozenset())
                    n = None if n is None or old is None and i in self.val else n | old
                    if i not in self.val or n != old:
                        self.val[i] = n
                        changed.add(i)
                    continue
                if i.ty == "void" or i.opc in ("store", "br", "ret", "unreachable", "switch"):
                    continue
                old = self.val.get(i, frozenset())
                if old is None and i in self.val:
                    continue
                n = self._eval(i)
                if n is not None and old is not None:
                    n = n | old
                    if len(n) > self.cap:
                        n = None
                if i not in self.val or n != old:
                    self.val[i] = n
                    changed.add(i)
            if dead:
                continue
            t = b.term
            live = list(t.succ) if t.succ else []
            if t.opc == "br" and len(t.succ) == 2:
                c = self.get(t.ops[0])
                if c is not None:
                    live = [t.succ[k] for k, w in ((0, 1), (1, 0)) if w in {x & 1 for x in c}]
            elif t.opc == "switch":
                c = self.get(t.ops[0])
                if c is not None:
                    live = []
                    for x in c:
                        live.append(next((s for cvl, s in t.cases if _sx(cvl, t.ops[0].ty) == x), t.succ[0]))
            if b in self.once:
                live = [s for s in live if s in self.once[b]] or live
            src = b
            redirected = []
            for s in live:
                if s in self.once and b in self.once[s]:
                    # once round: leave the loop through its header's way out (or drop the back edge)
                    out = [x for x in s.succs if x not in self.once[s]]
                    redirected += [(s, x) for x in out]
                else:
                    redirected.append((b, s))
            for b, s in redirected:
                if self.cell:
                    self.memout[(b, s)] = st
                    cur = self.mem.get(s)
                    new = dict(st) if cur is None else {k: (None if cur.get(k) is None or st.get(k) is None else cur[k] | st[k]) for k in set(cur) | set(st)}
                    new = {k: (v if v is None or len(v) <= 4 * self.cap else None) for k, v in new.items()}
                    if new != cur:
                        self.mem[s] = new
                        if (b, s) in self.edges and s not in self.reset:
                            wl.append(s)
                if (b, s) not in self.edges:
                    self.edges.add((b, s))
                    self.blocks.add(s)
                    wl.append(s)
            for i in changed:
                for u in i.users:
                    if u.kind == "inst" and u.bb in self.blocks and u.bb is not src:
                        wl.append(u.bb)
                    elif u.kind == "inst" and u.bb is src and u.opc == "phi":
                        wl.append(src)

    def _store(self, old, new, ty):
        if new is None:
            return None
        m = _mask(ty)
        if m is None or m >= 0xffffffff:
            return frozenset(new)
        # a partial overwrite of the low bytes
        if old is None:
            return frozenset(x & m for x in new)
        return frozenset((o & ~m) | (n & m) for o in old for n in new)

    def reaches(self, inst):
        return inst.bb in self.blocks and inst.bb not in self.avoid
