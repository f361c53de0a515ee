"""Model of the database file: what the writer puts where, what the reader takes from where,
and what the importer does with it.  All extracted from the inlined program."""
import re
from build import AnalysisBroken
from prog import inlined_prog
from lin import Lins, Lin
from facts import value_sets
import sym

KEEP = {"write_database", "new_database_from_file", "open_db", "do_search", "dump_database", "check_database_integrity",
        "close_db", "update_database", "cull_dead_messages", "search_top"}
TABLES = ("to", "cc", "from", "subject", "body", "attachment_name", "msg_ids")
COPY = {"memcpy": (0, 1), "llvm.memcpy.p0.p0.i64": (0, 1), "strcpy": (0, 1), "memmove": (0, 1), "llvm.memmove.p0.p0.i64": (0, 1),
        "strncpy": (0, 1), "stpcpy": (0, 1), "mempcpy": (0, 1)}


def canon(path):
    p = path.lstrip("&")
    p = re.sub(r"^database\.msgs\[\]\.?", "msgpath.", p)
    p = re.sub(r"^database\.mboxen\[\]\.?", "mbox.", p)
    p = p.replace("msgpath.src.mbox", "msgpath.src.mpf.path") if p == "msgpath.src.mbox" else p
    p = re.sub(r"^database\.msg_ids\[\]", "database.msg_ids.tokens[]", p)
    return p


def cpaths(p, v):
    return frozenset(canon(x) for x in p.s.paths(v))


def view():
    return inlined_prog(keep=KEEP)


def token_of(p, v, d=0):
    """table T for a value that is (part of) a token of table T, looking through the
    temporary array of token pointers"""
    if d > 8:
        return None
    base, steps = p.s.gepsteps(v)
    for x in ([v, base] if base is not v else [v]):
        for q in cpaths(p, x):
            m = re.match(r"database\.(\w+)\.tokens\[\]", q)
            if m:
                return m.group(1)
    b = base
    if b.kind == "inst" and b.opc == "load":
        bb, st = p.s.gepsteps(b.ops[0])
        if bb.kind == "inst" and bb.opc == "call" and bb.cname in ("malloc", "calloc", "realloc"):
            out = set()
            for u in bb.users:
                for st_ in _stores_through(u, bb):
                    t = token_of(p, st_.ops[0], d + 1)
                    if t:
                        out.add(t)
            if len(out) == 1:
                return out.pop()
        elif bb.kind == "inst" and bb.opc in ("load", "phi"):
            return token_of(p, bb, d + 1)
    elif b.kind == "inst" and b.opc == "phi":
        out = {token_of(p, y, d + 1) for y, _ in b.inc if y is not b and p.s.gepsteps(y)[0] is not b}
        if len(out) == 1:
            return out.pop()
    return None


def _stores_through(u, base, d=0):
    if u.opc == "store" and u.ops[1] is base:
        yield u
    elif u.opc == "gep" and u.ops[0] is base and d < 4:
        for w in u.users:
            yield from _stores_through(w, u, d + 1)


class Writer:
    def __init__(self, p):
        self.p = p
        f = self.f = p.fn("write_database")
        mm = list(f.calls("mmap", "mmap64"))
        if len(mm) != 1:
            raise AnalysisBroken("write_database does not map exactly one file")
        self.mm = mm[0]
        self.L = Lins(p)
        self.atom = ("v", self.mm)
        self.MTY = {k: v for k, v in p.t.enums.items() if k.startswith("MTY_")}
        self.types = value_sets(f, lambda x: p.s.paths(x) == {"database.type[]"}, self.MTY.values())
        self.copies = [(c,) + tuple(c.args[k] for k in COPY[c.cname]) for c in f.calls() if c.cname in COPY]
        self._walkers()
        self.header, self.cells, self.bytes_ = {}, [], []
        for i in f.insts():
            if i.opc != "store":
                continue
            a = self.addr(i.ops[1])
            if a is None:
                continue
            rem, idx = a
            sz = p.m.sizeof(i.ops[0].ty)
            if not idx and not rem.atoms():
                if sz == 4 and rem.const % 4 == 0:
                    self.header.setdefault(rem.const // 4, []).append(i)
                else:
                    self.bytes_.append((rem.const, i))
            else:
                self.cells.append((rem, idx, sz, i))
        self.slot_lin = {}
        for k, ss in self.header.items():
            for i in ss:
                l = self.L(i.ops[0])
                # a difference of two pointers into the file
                if l.get(self.atom) is not None:
                    l = l.add(Lin({self.atom: 1}), -l[self.atom])
                self.slot_lin.setdefault(k, []).append(l)

    def _walkers(self):
        """pointer phis that walk the mapping with a constant step: treat as start + index"""
        self.walk = {}
        for b in self.f.blocks:
            for i in b.insts:
                if i.opc != "phi":
                    break
                if i.ty != "ptr":
                    continue
                ini, ok = [], True
                for v, pb in i.inc:
                    base, st = self.p.s.gepsteps(v)
                    if base is i and all(x[0] == "[]" and x[1].kind == "int" for x in st):
                        continue
                    ini.append(v)
                if len(ini) == 1 and len(i.inc) == 2 and ini[0] is not i:
                    l = self.L(ini[0])
                    if l.get(self.atom) == 1:
                        self.walk[i] = l

    def addr(self, ptr):
        """(offset lin without loop indices, {index atom: coef}) for a pointer into the mapping, else None"""
        a = self.L(ptr)
        idx = {}
        for x in list(a.atoms()):
            if x[0] == "v" and x[1] in self.walk and a[x] == 1:
                a = a.add(Lin({x: 1}), -1).add(self.walk[x[1]])
                idx[x] = 4
        if a.get(self.atom) != 1:
            return None
        a = a.add(Lin({self.atom: 1}), -1)
        for x in list(a.atoms()):
            if x[0] == "v" and x[1].kind == "inst" and x[1].opc == "phi":
                idx[x] = a[x]
                a = a.add(Lin({x: a[x]}), -1)
        return a, idx

    def slot_of(self, rem, idx):
        """header slot whose value announces the table a cell store falls into"""
        out = []
        for k, ls in self.slot_lin.items():
            for l in ls:
                if l.scale(4).key() == rem.key() and (rem.atoms() or l.const >= 1) and 4 in idx.values():
                    out.append(k)
                elif l.key() == rem.key() and 1 in idx.values() and 4 not in idx.values():
                    out.append(k)
        return out

    def source(self, i, v):
        """what a stored cell value is: set of ('field', path) / ('chars', path|token) / ('enc', (paths)) / ('const', c)"""
        p = self.p
        if v.kind == "int":
            return {("const", v.c)}
        l = self.L(v)
        if l.get(self.atom) == -1:
            X = l.add(Lin({self.atom: 1}))
            out = set()
            dom = p.dom(self.f)
            for c, d, s in self.copies:
                if self.L(d).key() != X.key() and not self._starts(d, X):
                    continue
                if not (c.bb is i.bb or sym.dominates(dom, c.bb, i.bb) or sym.dominates(dom, i.bb, c.bb)):
                    continue
                out |= self.csource(c, s)
            return out or {("chars", "?")}
        t = token_of(p, v)
        return {("field", q) for q in cpaths(p, v)}

    def _starts(self, d, X):
        """d is a loop-carried pointer whose first value is X"""
        return d.kind == "inst" and d.opc == "phi" and any(self.L(y).key() == X.key() for y, _ in d.inc)

    def csource(self, c, s):
        p = self.p
        base, st = p.s.gepsteps(s)
        if base.kind == "inst" and base.opc == "alloca":
            parts = {}
            for i in self.f.insts():
                if i.opc == "store":
                    b2, st2 = p.s.gepsteps(i.ops[1])
                    if b2 is base:
                        off = sum(x[1] for x in st2 if x[0] != "[]")
                        parts.setdefault(off, set()).update(cpaths(p, i.ops[0]))
            return {("enc", tuple(sorted((k, tuple(sorted(v))) for k, v in parts.items())))}
        t = token_of(p, s)
        if t:
            q = cpaths(p, s)
            fld = {x.split(".")[-2] + "." + x.split(".")[-1] for x in q if ".match" in x}
            return {("tok", t, fld.pop() if len(fld) == 1 else "text")}
        return {("chars", q) for q in cpaths(p, s)}


class Reader:
    """read_db field -> (kind, slot): kind 'count', 'table' (word offset), 'bytes' (byte offset)"""

    def __init__(self, p):
        self.p = p
        f = self.f = p.fn("open_db")
        mm = list(f.calls("mmap", "mmap64"))
        if len(mm) != 1:
            raise AnalysisBroken("open_db does not map exactly one file")
        self.mm = mm[0]
        self.L = Lins(p)
        self.atom = ("v", self.mm)
        self.fields = {}
        for i in f.insts():
            if i.opc != "store":
                continue
            for q in p.s.apath(i.ops[1], p.m.sizeof(i.ops[0].ty)):
                if q.startswith("read_db."):
                    d = self.describe(i.ops[0])
                    if d:
                        self.fields.setdefault(q[8:], set()).add(d)

    def slot(self, a):
        if a[0] != "x":
            return None
        v = self.L.val(a)
        if v.opc != "load":
            return None
        l = self.L(v.ops[0])
        if l.get(self.atom) == 1 and len(l.atoms()) == 1 and l.const % 4 == 0:
            return l.const // 4
        return None

    def describe(self, v):
        l = self.L(v)
        at = l.atoms()
        if len(at) == 1 and l.const == 0 and l[at[0]] == 1:
            k = self.slot(at[0])
            return ("count", k) if k is not None else None
        if len(at) == 2 and l.get(self.atom) == 1 and l.const == 0:
            o = [x for x in at if x != self.atom][0]
            k = self.slot(o)
            if k is not None:
                return ({4: "table", 1: "bytes"}.get(l[o], "scaled%d" % l[o]), k)
        return None


class Importer:
    def __init__(self, p, fname="new_database_from_file"):
        self.p = p
        f = self.f = p.fn(fname)
        self.L = Lins(p)
        # named type field: low bits of the per-message byte
        self.types = value_sets(f, self.is_type, range(8))
        self.stores = {}    # canonical destination -> [(store, types, source)]
        self.copies = [(c,) + tuple(c.args[k] for k in COPY[c.cname]) for c in f.calls() if c.cname in COPY]
        for i in f.insts():
            if i.opc != "store":
                continue
            for q in p.s.apath(i.ops[1], p.m.sizeof(i.ops[0].ty)):
                self.stores.setdefault(canon(q), []).append(i)

    def is_type(self, x):
        q = self.p.s.paths(x)
        return bool(q) and all(re.match(r"and\(#7,(arg0|read_db)\.msg_type_and_flags\[\]\)$", y) for y in q)

    def tabs(self, v):
        """read_db tables a pointer/offset value refers to (through data + table[i])"""
        out = set()
        for a in self.L(v).atoms():
            x = self.L.val(a)
            if x.kind == "inst" and x.opc == "phi":
                for y, _ in x.inc:
                    if y is not x and y.kind == "inst":
                        for a2 in self.L(y).atoms():
                            out |= self._t(self.L.val(a2))
            out |= self._t(x)
        return out

    def _t(self, x):
        return {m.group(1) for q in self.p.s.paths(x) for m in [re.match(r"read_db\.([\w.]+)\[\]$", q)] if m and m.group(1) != "data"}

    def source(self, v, d=0):
        """('cell', F) value of table F | ('chars', F) text at data+F[] | ('enc', F, off) | ('count', F) | ('const', c)"""
        p = self.p
        if d > 6:
            return set()
        if v.kind in ("int", "null"):
            return {("const", v.c or 0)}
        out = set()
        x = v
        while x.kind == "inst" and x.opc in sym.CASTS:
            x = x.ops[0]
        if x.kind == "inst" and x.opc == "phi":
            for y, _ in x.inc:
                if y is not x:
                    out |= self.source(y, d + 1)
            return out
        if x.kind == "inst" and x.opc == "select":
            return self.source(x.ops[1], d + 1) | self.source(x.ops[2], d + 1)
        if x.kind == "inst" and x.opc == "call":
            if x.cname in ("strcpy", "memcpy", "stpcpy"):
                return {("chars", t) for t in self.tabs(x.args[1])}
            if x.cname in ("strdup", "__strdup"):
                return {("chars", t) for t in self.tabs(x.args[0])}
            if x.cname in ("malloc", "calloc"):
                for c, d, s in self.copies:
                    if p.s.gepsteps(d)[0] is x:
                        out |= {("chars", t) for t in self.tabs(s)}
                return out
        if x.kind == "inst" and x.opc == "load":
            b, st = p.s.gepsteps(x.ops[0])
            if b.kind == "inst" and b.opc == "alloca":
                off = sum(y[1] for y in st if y[0] != "[]")
                for c, d, s in self.copies:
                    if p.s.gepsteps(d)[0] is b:
                        out |= {("enc", t, off) for t in self.tabs(s)}
                return out
            for q in p.s.paths(x):
                m = re.match(r"read_db\.([\w.]+)\[\]$", q)
                if m:
                    out.add(("cell", m.group(1)))
                    continue
                m = re.match(r"read_db\.([\w.]+)$", q)
                if m:
                    out.add(("count", m.group(1)))
                else:
                    out.add(("field", canon(q)))
        return out
