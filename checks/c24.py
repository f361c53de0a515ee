"""Only a complete database of this format and machine is opened."""
from build import AnalysisBroken
from prog import inlined_prog
from sccp import Sccp, NZ
from util import strip, init_bytes
LEVEL = "other"
FLOOR = 30
EXITS = {"exit", "_exit", "_Exit", "abort", "unlock_and_exit", "__assert_fail", "out_of_mem"}
BASE = 1 << 40
LEN = 8192
W = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "ptr": 64}
FAIL = {"open": -1, "open64": -1, "fstat": -1, "fstat64": -1, "mmap": -1, "mmap64": -1}


def live(s, i):
    if i.bb not in s.blocks:
        return False
    for j in i.bb.insts:
        if j is i:
            return True
        if j.opc == "call" and j.cname in EXITS:
            return False
    return False


class Header:
    """open_db() under a concrete database header"""

    def __init__(self, p, f):
        self.p, self.f = p, f
        self.maps = [c for c in f.calls("mmap", "mmap64")]
        self.fields = {}
        for i in f.insts():
            if i.opc == "store":
                for q in p.s.apath(i.ops[1], p.m.sizeof(i.ops[0].ty)):
                    if q.startswith("read_db."):
                        self.fields.setdefault(q, []).append(i.ops[0])

    def word(self, ptr):
        """byte offset in the file a pointer stands for, if constant"""
        base, steps = self.p.s.gepsteps(ptr)
        if base not in self.maps:
            return None
        n = 0
        for st in steps:
            if st[0] == "[]":
                if st[1].kind != "int":
                    return None
                n += st[1].c * st[2]
            else:
                n += st[1] or 0
        return n

    def num(self, v, w, d=0):
        """value under the world w: {byte offset of a word: value, 'len': file length}"""
        if d > 40:
            return None
        m = (1 << W.get(v.ty, 64)) - 1
        if v.kind == "int":
            return v.c & m
        if v.kind in ("null", "zero"):
            return 0
        if v in self.maps:
            return BASE
        if v.kind not in ("inst", "cexpr"):
            return None
        o = v.opc
        if o == "load":
            k = self.word(v.ops[0])
            if k is not None:
                x = w.get(k & ~3, 0)
                if v.ty == "i8":
                    return x >> 8 * (k & 3) & 0xff
                return x & m
            q = self.p.s.apath(v.ops[0], self.p.m.sizeof(v.ty))
            if any(x.endswith("st_size") for x in q):
                return w["len"]
            if len(q) == 1 and next(iter(q)) in self.fields and len(self.fields[next(iter(q))]) == 1:
                return self.num(self.fields[next(iter(q))][0], w, d + 1)
            return None
        if o in ("zext", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            return self.num(v.ops[0], w, d + 1)
        if o == "trunc":
            x = self.num(v.ops[0], w, d + 1)
            return None if x is None else x & m
        if o == "sext":
            x = self.num(v.ops[0], w, d + 1)
            b = W.get(v.ops[0].ty, 64)
            return None if x is None else (x - (1 << b) if x >> (b - 1) & 1 else x) & m
        if o in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "udiv", "urem"):
            x, y = self.num(v.ops[0], w, d + 1), self.num(v.ops[1], w, d + 1)
            if x is None or y is None or o in ("udiv", "urem") and y == 0:
                return None
            return {"add": x + y, "sub": x - y, "mul": x * y, "and": x & y, "or": x | y, "xor": x ^ y, "shl": x << (y & 63), "lshr": x >> (y & 63),
                    "udiv": x // (y or 1), "urem": x % (y or 1)}[o] & m
        if o == "gep":
            base, steps = self.p.s.gepsteps(v)
            x = self.num(base, w, d + 1)
            for st in steps:
                if x is None:
                    return None
                if st[0] == "[]":
                    y = self.num(st[1], w, d + 1)
                    if y is None:
                        return None
                    b = W.get(st[1].ty, 64)
                    y = y - (1 << b) if y >> (b - 1) & 1 else y
                    x += y * st[2]
                else:
                    x += st[1] or 0
            return None if x is None else x & m
        return None

    def mem(self, ptr, n, w):
        k = self.word(ptr)
        if k is not None:
            return bytes(w.get((k + j) & ~3, 0) >> 8 * ((k + j) & 3) & 0xff for j in range(n))
        v = ptr
        if v.kind == "global":
            x = v.s.encode("latin-1") if isinstance(v.s, str) else v.s
            if x is None:
                x = init_bytes(v._x.get("init"), self.p.m)
            return None if x is None else (x + bytes(n))[:n]
        return None

    def cmp(self, i, w):
        x, y = self.num(i.ops[0], w), self.num(i.ops[1], w)
        if x is None or y is None:
            return None
        if i.pred[0] == "s":
            b = W.get(i.ops[0].ty, 64)
            x, y = [k - (1 << b) if k >> (b - 1) & 1 else k for k in (x, y)]
        q = i.pred if i.pred in ("eq", "ne") else i.pred[1:]
        return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[q])

    def run(self, w, fail=None):
        f = self.f

        def pin(i):
            if i.opc == "icmp" and (fail is None or not any(strip(o) is fail for o in i.ops)):
                x = self.cmp(i, w)
                return None if x is None else [x]
            if i.opc == "call":
                if i is fail:
                    return [FAIL[i.cname]]
                if i.cname in ("open", "open64"):
                    return [5]
                if i.cname in ("memcmp", "bcmp", "strncmp") and i.args[2].kind == "int":
                    x = [self.mem(a, i.args[2].c, w) for a in i.args[:2]]
                    return None if None in x else [(x[0] > x[1]) - (x[0] < x[1])]
                if i.cname in ("fstat", "fstat64", "close"):
                    return [0]
                if i.cname in ("mmap", "mmap64", "malloc", "safe_malloc"):
                    return [NZ]
            if i.opc == "load" and i.ty in ("i8", "i16", "i32", "i64"):
                x = self.num(i, w)
                b = W[i.ty]
                return None if x is None else [x - (1 << b) if x >> (b - 1) & 1 and b > 8 else x - 256 if b == 8 and x > 127 else x]
            return None
        return Sccp(f, pin=pin, stop=lambda i: i.cname in EXITS, cap=8)


def run(r, tier):
    r.rule("open_db() is run abstractly for concrete headers: a complete database is opened; one with a wrong mark, version or byte order, or with any table that does not lie in the file, is refused with a failure status")
    r.rule("numbers and offsets in the header are judged over their whole range, including those that wrap around")
    p = inlined_prog(keep={"open_db"})
    f = p.fn("open_db")
    H = Header(p, f)
    if not H.maps:
        r.notes.append("mapping of the database not recognised")
        r.floor_waived = True
        return
    # roles of the header words: what is kept of them
    counts, tables = {}, {}
    for q, vs in H.fields.items():
        for v in vs:
            v = strip(v)
            if v.kind != "inst":
                continue
            if v.opc == "load" and v.ty == "i32":
                k = H.word(v.ops[0])
                if k is not None:
                    counts[q] = k
            elif v.opc == "gep":
                base, steps = p.s.gepsteps(v)
                if base in H.maps and len(steps) == 1 and steps[0][0] == "[]":
                    x = strip(steps[0][1])
                    if x.kind == "inst" and x.opc == "load" and H.word(x.ops[0]) is not None:
                        tables[q] = (H.word(x.ops[0]), steps[0][2])
    size = {}
    for q in tables:
        pre, last = q.rsplit(".", 1)
        c = pre + ".n" if pre != "read_db" else "read_db.n_mboxen" if last.startswith("mbox_") else "read_db.n_msgs"
        if c in counts:
            size[q] = c
        else:
            r.notes.append("number of entries of %s not recognised" % q)
    if len(size) < 15:
        r.notes.append("only %d tables of the database recognised" % len(size))
        r.floor_waived = True
        return
    # the writer's marks
    wr = inlined_prog(keep={"write_header"})
    marks = {}
    if wr.has("write_header"):
        g = wr.fn("write_header")
        for i in g.insts():
            if i.opc == "store" and i.ops[0].kind == "int":
                base, steps = wr.s.gepsteps(i.ops[1])
                n, ok = 0, base.kind == "arg" or (base.kind == "inst" and base.opc == "call")
                for st in steps:
                    if st[0] == "[]" and st[1].kind == "int":
                        n += st[1].c * st[2]
                    elif st[0] == "[]":
                        ok = False
                    else:
                        n += st[1] or 0
                if ok and n < 8:
                    for b in range(wr.m.sizeof(i.ops[0].ty)):
                        marks[n + b] = i.ops[0].c >> 8 * b & 0xff
    if not all(k in marks for k in range(8)):
        r.notes.append("marks of the file format not recognised")
        r.floor_waived = True
        return

    def good(**kw):
        w = {"len": LEN}
        for k in (0, 4):
            w[k] = sum(marks[k + b] << 8 * b for b in range(4))
        for k in counts.values():
            if k >= 8:
                w[k] = 10
        for k, e in tables.values():
            w[k] = 100 if e > 1 else 400
        w.update({int(k[1:]) if k[0] == "w" else k: v for k, v in kw.items()})
        return w
    rets = [b.term for b in f.blocks if b.term.opc == "ret"]
    n = [0]

    def accepted(w, fail=None):
        n[0] += 1
        s = H.run(w, fail)
        return [t for t in rets if live(s, t) and s.get(t.ops[0]) != frozenset([0])], s

    def accept(key, what, w):
        got, s = accepted(w)
        ex = [i for b in s.blocks for i in b.insts if i.opc == "call" and i.cname in EXITS and live(s, i)]
        if got and ex and any(i.cname != "__assert_fail" for i in ex):
            r.notes.append("not decided whether %s is accepted" % what)
            return
        r.require(got, key, "%s is opened" % what, "open_db() refuses %s" % what)

    def refuse(key, what, w, fail=None):
        got, s = accepted(w, fail)
        if not r.require(not got, key, "%s is refused" % what, "open_db() opens %s" % what):
            return
        for b in s.blocks:
            for i in b.insts:
                if i.opc == "call" and i.cname in ("exit", "unlock_and_exit", "_exit") and live(s, i):
                    v = s.get(i.args[0])
                    r.require(v is None or 0 not in v, "status", "refused with a failure status at %s" % i.where, "open_db() ends the run with status zero at %s when it refuses %s" % (i.where, what))
    accept("accept", "a complete database", good())
    empty = good()
    for k in counts.values():
        if k >= 8:
            empty[k] = 0
    for k, e in tables.values():
        empty[k] = LEN // e
    accept("accept-empty", "an empty database", empty)
    for q, c in sorted(size.items()):
        k, e = tables[q]
        nm = q[8:]
        accept("accept-fit:" + nm, "a database whose %s ends where the file ends" % nm, dict(good(), **{"x": 0}, **{}) | {k: LEN // e - 10})
        refuse("past:" + nm, "a database whose %s ends one entry past the end of the file" % nm, good() | {k: LEN // e - 9})
        refuse("beyond:" + nm, "a database whose %s starts past the end of the file" % nm, good() | {k: LEN // e + 1000})
        refuse("wrap:" + nm, "a database whose %s is said to start at %#x" % (nm, 0xfffffffc), good() | {k: 0xfffffffc})
    for c in sorted(set(size.values())):
        for x in (LEN, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff):
            refuse("count:" + c[8:], "a database said to have %d entries in %s" % (x, c[8:]), good() | {counts[c]: x})
    for b in range(3):
        for v in (0, marks[b] ^ 1, marks[(b + 1) % 3]):
            w = good()
            w[0] = w[0] & ~(0xff << 8 * b) | v << 8 * b
            if w[0] != good()[0]:
                refuse("mark:%d" % b, "a file whose byte %d is not that of a database" % b, w)
    w = good()
    for v in (0, marks[3] - 1, marks[3] + 1, 0xff):
        refuse("version", "a database of format version %d" % v, good() | {0: w[0] & 0xffffff | v << 24})
    refuse("none", "a file of another kind", good() | {0: 0x20202020})
    x = w[4]
    rev = int.from_bytes(x.to_bytes(4, "little"), "big")
    refuse("endian-reversed", "a database of the other byte order", good() | {4: rev})
    for v in (0, x ^ 1, x ^ 0x10000000):
        refuse("endian", "a database with a damaged byte order mark", good() | {4: v})
    hdr = max([k for k, _ in tables.values()] + list(counts.values())) + 4
    for v in (0, 3, 8, 40, hdr - 1):
        refuse("short", "a file of %d bytes" % v, good() | {"len": v})
        if v:
            refuse("short", "a file of %d bytes followed by nothing" % v, good() | {k: 0 for k in counts.values() if k >= 8} | {k: 0 for k, _ in tables.values()} | {"len": v})
    for c in f.calls(*FAIL):
        refuse("fail:" + c.cname, "the database although %s() failed at %s" % (c.cname, c.where), good(), c)
    # what is mapped
    for m in H.maps:
        x = H.num(m.args[1], good())
        if x is None:
            r.notes.append("length mapped not recognised at %s" % m.where)
        else:
            r.require(x == LEN, "map-len", "the whole file is mapped at %s" % m.where, "open_db() maps %d bytes of a file of %d at %s" % (x, LEN, m.where))
    # every table used by readers is one that was checked
    kept = {q for q, vs in H.fields.items() if any(strip(v).kind == "inst" and strip(v).ty == "ptr" and strip(v) not in H.maps and q != "read_db.data" for v in vs)}
    for q in sorted(kept - set(size)):
        r.notes.append("%s not judged" % q)
    r.scope = {"tables": len(size), "counts": len(set(size.values())), "scenarios": n[0]}
