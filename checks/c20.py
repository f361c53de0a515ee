"""What is opened is closed on every way out; mapped text is released once, by the right means."""
from prog import Prog, base_prog, _BASE
import inline, sym
from sccp import Sccp, NZ
from util import strip
LEVEL = "other"
FLOOR = 20
EXITS = {"exit", "_exit", "_Exit", "abort", "unlock_and_exit", "__assert_fail", "out_of_mem"}
OPEN = {"open": "close", "open64": "close", "creat": "close", "socket": "close", "dup": "close", "mkstemp": "close",
        "fopen": "fclose", "fopen64": "fclose", "fdopen": "fclose", "tmpfile": "fclose", "tmpfile64": "fclose", "opendir": "closedir", "fdopendir": "closedir",
        "popen": "pclose", "gzopen": "gzclose", "gzopen64": "gzclose", "BZ2_bzopen": "BZ2_bzclose", "xzopen": "xzclose", "xx_zopen": "xx_zclose",
        "open_db": "close_db"}
CLOSE = set(OPEN.values())
TAKES = {"fdopen", "fdopendir"}
MAPS = {"create_ro_mapping": "free_ro_mapping"}


def bad(r, key, at, fn, msg, trace):
    r.bad(key, "%s(): %s%s" % (fn, msg, " (%s)" % "; ".join(trace) if trace else " at %s" % at if at else ""))


def dead(i):
    return i.opc == "call" and i.cname in EXITS


def edges_to(f, dom, b):
    """branches that must have gone one way for b to be executed: [(condition, truth)]"""
    out = []
    d = b
    while dom.get(d) is not None and dom[d] is not d:
        d = dom[d]
        if d.term.opc != "br" or len(d.term.succ) != 2:
            continue
        for k, s in enumerate(d.term.succ):
            o = d.term.succ[1 - k]
            seen, wl = set(), [o]
            while wl:
                x = wl.pop()
                if x in seen or x is d:
                    continue
                seen.add(x)
                wl += x.succs
            if b not in seen and s is not o:
                out.append((d.term.ops[0], 1 - k))
    return out


def walk(s, start, stop, track=frozenset(), val=NZ, facts=None):
    """instructions that can be executed after `start` (an instruction) until stop(inst) says True.
    `track`: values that are `start`'s result or another one: which of them they are is followed along the way"""
    seen = set()
    loops = sym.loops(s.f) if facts else {}

    def res(v, env):
        if v is start:
            return val
        if v in env:
            return env[v]
        if v.kind in ("null", "zero"):
            return 0
        if v.kind == "int":
            return v.c
        if v.kind == "inst" and v in track and v.opc in ("bitcast", "freeze", "zext", "sext", "trunc", "ptrtoint", "inttoptr"):
            return res(v.ops[0], env)
        return None
    wl = [(start.bb, start.bb.insts.index(start) + 1, {}, dict(facts or {}))]
    while wl:
        b, k, env, act = wl.pop()
        ended = False
        for i in b.insts[k:]:
            if dead(i):
                ended = True
                break
            yield i
            if stop(i):
                ended = True
                break
        if ended:
            continue
        succ = b.succs
        t = b.term
        if t.opc == "br" and len(t.succ) == 2 and t.ops[0] in act:
            succ = [t.succ[0 if act[t.ops[0]] else 1]]
        if t.opc == "br" and len(t.succ) == 2 and t.ops[0].kind == "inst" and t.ops[0].opc == "icmp" and t.ops[0].pred in ("eq", "ne"):
            c = t.ops[0]
            for x, y in (c.ops, c.ops[::-1]):
                if x in track or x is start:
                    k, z = res(x, env), (0 if y.kind in ("null", "zero") else y.c if y.kind == "int" else None)
                    if k is not None and z is not None:
                        succ = [t.succ[0 if (k == z) == (c.pred == "eq") else 1]]
                    break
        for y in succ:
            if (b, y) not in s.edges:
                continue
            new = dict(env)
            for i in y.insts:
                if i.opc != "phi":
                    break
                if i in track:
                    v = next((o for o, q in i.inc if q is b), None)
                    k = None if v is None else res(v, env)
                    if k is None:
                        new.pop(i, None)
                    else:
                        new[i] = k
            nact = act
            if y in loops and act:      # a new round: what was computed in the loop is computed again
                nact = {v: t for v, t in act.items() if v.bb not in loops[y]}
            key = (y, frozenset(new.items()), frozenset(nact))
            if key not in seen:
                seen.add(key)
                wl.append((y, 0, new, nact))


def derived(c, also=()):
    """SSA values that are the handle c itself (through casts, phis and selects)"""
    h, wl = {c}, [c]
    while wl:
        v = wl.pop()
        for u in v.users:
            if u.kind != "inst" or u in h:
                continue
            if u.opc in ("bitcast", "phi", "select", "freeze", "ptrtoint", "inttoptr", "zext", "sext", "trunc") and not (u.opc == "select" and u.ops[0] is v):
                h.add(u)
                wl.append(u)
    return h


class Releases:
    def __init__(self, p):
        self.p, self.memo = p, {}

    def fate(self, name, k, close, d=0):
        """what a function of the program may do with its argument k: subset of {'close', 'keep'}"""
        f = self.p.m.funcs.get(name)
        if f is None or f.decl or k >= len(f.params) or d > 4:
            return set()
        key = (name, k, close)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        out = set()
        hs = derived(f.params[k])
        for v in hs:
            for u in v.users:
                if u.kind != "inst":
                    continue
                if u.opc == "store" and u.ops[0] is v or u.opc == "ret":
                    out.add("keep")
                elif u.opc == "call":
                    for j, a in enumerate(u.args):
                        if a is v:
                            if u.cname == close:
                                out.add("close")
                            elif u.cname is None:
                                pass
                            else:
                                out |= self.fate(u.cname, j, close, d + 1)
        self.memo[key] = out
        return out


def handles(r, p, f, c, rel):
    """one place where something is opened"""
    close = OPEN[c.cname]
    h = derived(c)
    what = "what %s() opened" % c.cname
    users = {u for v in h for u in v.users if u.kind == "inst"}
    for u in users:
        if u.opc == "ret":
            return "handed to the caller"
        if u.opc == "store" and u.ops[0] in h:
            return "kept in a structure"
        if u.opc == "call" and u.cname in TAKES:
            return "taken over"
    closers, kept = set(), False
    for u in users:
        if u.opc != "call":
            continue
        for j, a in enumerate(u.args):
            if a in h:
                if u.cname == close:
                    closers.add(u)
                elif u.cname and p.has(u.cname):
                    w = rel.fate(u.cname, j, close)
                    if "close" in w:
                        closers.add(u)
                    if "keep" in w:
                        kept = True
    if kept:
        return "kept in a structure"
    dom = p.dom(f)
    pins = {v: t for v, t in edges_to(f, dom, c.bb) if v.kind == "inst" and not set(v.ops) & h}
    ptr = c.ty == "ptr"

    def world(val):
        def pin(i):
            if i is c:
                return [val]
            return None
        return Sccp(f, pin=pin, stop=dead)
    ok = world(NZ if ptr else 7)
    r.ok("%s(): %s at %s and every way out" % (f.name, c.cname, c.where))
    if c.bb not in ok.blocks:
        r.notes.append("%s: %s() cannot be reached under the facts around it" % (f.name, c.cname))
        return None
    for i in walk(ok, c, lambda i: i in closers or i is c, h, NZ if ptr else 7, pins):
        if i.opc == "ret" or i is c:
            bad(r, "open:%s:%s" % (f.name, c.cname), c.where, f.name, "%s is not closed on a way %s" % (what, "out of the function" if i.opc == "ret" else "back to opening the next one"),
                  ["%s() at %s" % (c.cname, c.where), "reached at %s without %s()" % (i.where or f.name, close)])
            break
    for u in closers:
        if u.bb not in ok.blocks or u.cname != close:
            continue
        r.ok("%s(): nothing closed at %s is used again" % (f.name, u.where))
        for i in walk(ok, u, lambda i: i is c, facts=pins):
            if i is c:
                continue
            if i.opc == "call" and any(a in h and now(ok, a, c) for a in i.args) and not str(i.cname).startswith("llvm."):
                bad(r, "closed:%s:%s" % (f.name, c.cname), i.where, f.name, "%s() is given what %s() has closed already" % (i.cname, close),
                      ["%s() at %s" % (close, u.where), "used at %s" % i.where])
                break
    if ptr and not p.has(c.cname):
        nul = world(0)
        r.ok("%s(): %s at %s failing" % (f.name, c.cname, c.where))
        for i in walk(nul, c, lambda i: i is c, h, 0, pins):
            if i.opc == "call" and i.cname and i.cname not in ("free", "safe_free") and not i.cname.startswith("llvm."):
                for j, a in enumerate(i.args):
                    if a in h and nul.get(a) == frozenset([0]) and a is not None and (a is c or now(nul, a, c)) and (i.cname == close or i.cname in DEREF):
                        bad(r, "failed:%s:%s" % (f.name, c.cname), i.where, f.name, "%s() is given the result of a %s() that failed" % (i.cname, c.cname), ["%s() at %s" % (c.cname, c.where)])
    return None


DEREF = {"readdir", "readdir64", "fgets", "fread", "fwrite", "fprintf", "fputs", "fputc", "fputs_unlocked", "fileno", "fflush", "getc", "fgetc", "_IO_getc", "putc", "_IO_putc",
         "ferror", "feof", "fseek", "ftell", "rewind", "fscanf", "getline", "dirfd", "rewinddir", "vfprintf", "xzread", "gzread", "BZ2_bzread"}


def now(s, a, c):
    """the value a can be nothing but what c returned (a phi may also be something else)"""
    if a is c:
        return True
    if a.kind != "inst":
        return False
    if a.opc == "phi":
        inc = [v for v, b in a.inc if (b, a.bb) in s.edges and v is not a]
        return bool(inc) and all(strip(v) is c for v in inc)
    if a.opc == "select":
        return all(strip(v) is c for v in a.ops[1:])
    return strip(a) is c


def cell_of(p, v):
    """the local cell a pointer argument names (offset 0 of an alloca), or None"""
    b, st = p.s.gepsteps(v)
    if b.kind == "inst" and b.opc == "alloca" and not any(x[0] == "[]" or (x[1] or 0) for x in st):
        return b
    return None


def mappings(r, p, f, m, release):
    """one create_ro_mapping(path, &data, &len, ...)"""
    data, ln = cell_of(p, m.args[1]), cell_of(p, m.args[2])
    if data is None or ln is None:
        return "into a structure"

    def is_load(i, cell):
        return i.opc == "load" and cell_of(p, i.ops[0]) is cell
    dl = {i for i in f.insts() if is_load(i, data)}
    ds = {i for i in f.insts() if i.opc == "store" and cell_of(p, i.ops[1]) is data}
    ls = {i for i in f.insts() if i.opc == "store" and cell_of(p, i.ops[1]) is ln}
    frees = [c for c in f.calls(release)]

    def origin(v):
        """(is it the mapped text, is it its very start)"""
        b, st = p.s.gepsteps(v)
        b0 = strip(b)
        if b0 in dl:
            return True, not any(x[0] == "[]" or (x[1] or 0) for x in st) and b0 is b or b0 is strip(v)
        if b0.kind == "inst" and b0.opc in ("phi", "select"):
            src = [o for o, _ in b0.inc] if b0.opc == "phi" else b0.ops[1:]
            k = [o for o in src if o.kind not in ("null", "undef", "poison") and o is not b0]
            if k and all(strip(p.s.gepsteps(o)[0]) in dl for o in k):
                return True, all(strip(o) in dl for o in k) and not st
        return False, False
    mine = {c for c in frees if origin(c.args[0])[0]}
    pins = {v: t for v, t in edges_to(f, p.dom(f), m.bb) if v.kind == "inst" and not any(strip(o) in dl for o in v.ops)}

    def world(val, entry=None):
        def pin(i):
            if i in dl:
                return [val]
            return None
        return Sccp(f, pin=pin, stop=dead, entry=m.bb)
    lost = lambda i: i.opc == "ret" or i is m or i in ds
    site = "%s:%s" % (f.name, nth(f, m))
    ok = world(NZ)
    r.ok("%s(): mapping at %s and every way out" % (f.name, m.where))
    for i in walk(ok, m, lambda i: i in mine or lost(i), facts=pins):
        if lost(i):
            bad(r, "map:%s" % site, m.where, f.name, "the text of a mailbox or message that was mapped is not released on a way %s" % (
                "out of the function" if i.opc == "ret" else "to the next mapping"), ["mapped at %s" % m.where, "reached at %s without %s()" % (i.where or f.name, release)])
            break
    for c in sorted(mine, key=lambda c: c.bb.idx):
        if c.bb not in ok.blocks:
            continue
        r.ok("%s(): release at %s and what follows it" % (f.name, c.where))
        if not origin(c.args[0])[1]:
            bad(r, "start:%s" % site, c.where, f.name, "a mapping is released by another address than the one it was made at", ["mapped at %s" % m.where, "released at %s" % c.where])
        if wrong_length(p, f, c.args[1], ln, is_load):
            bad(r, "length:%s" % site, c.where, f.name, "a mapping is released with another length than the one it was made with", ["mapped at %s" % m.where, "released at %s" % c.where])
        for i in walk(ok, m, lambda i: i is c or lost(i), facts=pins):
            if i in ls:
                bad(r, "length:%s" % site, i.where, f.name, "the length of a mapping is changed before the mapping is released", ["mapped at %s" % m.where, "released at %s" % c.where])
                break
        for i in walk(ok, c, lambda i: lost(i), facts=pins):
            if i.opc == "call" and i in mine:
                bad(r, "twice:%s" % site, i.where, f.name, "a mapping is released twice", ["first released at %s" % c.where, "again at %s" % i.where])
                break
            if i.opc == "load" and i not in dl and text(p, i.ops[0], origin) or i.opc == "call" and i is not m and not str(i.cname).startswith("llvm.lifetime") and \
                    any(a.ty == "ptr" and text(p, a, origin) for a in i.args):
                bad(r, "after:%s" % site, i.where, f.name, "mapped text is used after its release", ["released at %s" % c.where, "used at %s" % i.where])
                break
    none = world(0)
    r.ok("%s(): nothing mapped at %s" % (f.name, m.where))
    for i in walk(none, m, lost, facts=pins):
        if i in mine:
            bad(r, "none:%s" % site, i.where, f.name, "%s() is called although nothing was mapped" % release, ["mapping attempted at %s" % m.where])
            break
        if i.opc == "load" and i not in dl and origin(i.ops[0])[0]:
            bad(r, "nulltext:%s" % site, i.where, f.name, "text is read although nothing was mapped", ["mapping attempted at %s" % m.where])
            break
    return None


def wrong_length(p, f, v, ln, is_load, d=0):
    """v is surely not what the length cell holds"""
    l = strip(v)
    if l.kind == "int":
        return True
    if l.kind != "inst" or d > 4:
        return False
    if l.opc == "load":
        if is_load(l, ln):
            return False
        o = cell_of(p, l.ops[0])
        if o is None:
            return False
        st = [i.ops[0] for i in f.insts() if i.opc == "store" and cell_of(p, i.ops[1]) is o]
        return bool(st) and all(wrong_length(p, f, x, ln, is_load, d + 1) for x in st)
    if l.opc in ("phi", "select"):
        src = [o for o, _ in l.inc] if l.opc == "phi" else l.ops[1:]
        return any(o is not l and o.kind not in ("undef", "poison") and not (o.kind == "int" and o.c == 0) and wrong_length(p, f, o, ln, is_load, d + 1) for o in src)
    return l.opc in ("add", "sub", "mul", "lshr", "shl", "and")


def text(p, v, origin):
    if v.kind not in ("inst", "cexpr"):
        return False
    if v.opc in ("phi", "select"):
        return False
    return origin(v)[0]


def nth(f, c):
    return sum(1 for x in f.calls(c.cname) if (x.bb.idx, x.bb.insts.index(x)) <= (c.bb.idx, c.bb.insts.index(c)))


# ---- how the text was obtained decides how it is released
def alloc_kinds(r, p, mk, rl):
    f, g = p.fn(mk), p.fn(rl)
    # the cell that remembers it: a global read by the release and written by the making
    def gl(fn, op):
        out = {}
        for i in fn.insts():
            if i.opc == op:
                v = i.ops[1] if op == "store" else i.ops[0]
                if v.kind == "global":
                    out.setdefault(v, []).append(i)
        return out
    cells = [v for v in gl(g, "load") if v in gl(f, "store")]
    if len(cells) != 1:
        r.notes.append("%d variables remember how text was obtained" % len(cells))
        return
    cell = cells[0]
    rd = gl(g, "load")[cell]
    consts = {i.ops[0].c for i in gl(f, "store")[cell] if i.ops[0].kind == "int"} | {0}

    def frees(k):
        s = Sccp(g, pin=lambda i: [k] if i in rd else None, stop=dead)
        out = set()
        for c in g.calls("munmap", "free"):
            if c.bb in s.blocks:
                out.add(c.cname)
        return out
    for c in g.calls("munmap"):
        r.ok("release by address and length")
        if strip(c.args[0]) is not g.params[0] or strip(c.args[1]) is not g.params[1]:
            a = [strip(x) for x in c.args[:2]]
            if all(x.kind in ("inst", "arg", "int", "null") for x in a):
                bad(r, "munmap", c.where, g.name, "the mapping is not released by the address and length given", ["munmap at %s" % c.where])
    acts = {k: frees(k) for k in consts}
    outp = f.params[1]
    touch = {fn.name for fn in p.defined() if fn is not f and any(i.opc == "store" and i.ops[1] is cell for i in fn.insts())} | {mk}
    mod = p.may_reach(touch)

    def kind(v):
        v = strip(v)
        if v.kind in ("null",):
            return frozenset(["none"])
        if v.kind == "inst" and v.opc in ("phi", "select"):
            out = frozenset()
            for o in ([x for x, _ in v.inc] if v.opc == "phi" else v.ops[1:]):
                out |= kind(o) if o is not v else frozenset()
            return out
        if v.kind == "inst" and v.opc == "call" and v.cname in ("mmap", "mmap64"):
            own = any(u.kind == "inst" and u.opc == "store" and u.ops[0] is v and u.ops[1] is not outp and strip(p.s.gepsteps(u.ops[1])[0]).opc != "alloca"
                      for u in v.users)
            return frozenset(["cache" if own else "mmap"])
        if v.kind == "inst" and v.opc == "call" and v.cname in ("malloc", "safe_malloc", "calloc", "realloc"):
            return frozenset(["malloc"])
        if v.kind == "inst" and v.opc == "load":
            q = p.s.apath(v.ops[0], 8)
            if any(x.endswith(".map") or "cache" in x for x in q):
                return frozenset(["cache"])
        return frozenset(["?"])
    live = Sccp(f, stop=dead).edges
    IN = {f.blocks[0]: frozenset([("unset", None)])}
    wl = [f.blocks[0]]
    rets = {}
    while wl:
        b = wl.pop()
        st = IN[b]
        ended = False
        for i in b.insts:
            if dead(i):
                ended = True
                break
            if i.opc == "store" and i.ops[1] is outp:
                st = frozenset((k, t, i) for k in kind(i.ops[0]) for _, t in {x[:2] for x in st})
            elif i.opc == "store" and i.ops[1] is cell:
                t = i.ops[0].c if i.ops[0].kind == "int" else None
                st = frozenset((x[0], t) + x[2:] for x in st)
            elif i.opc == "call" and i.cname in mod:
                st = frozenset((x[0], None) + x[2:] for x in st)
            elif i.opc == "ret":
                for x in st:
                    rets.setdefault(x, i)
        if ended:
            continue
        for y in b.succs:
            if (b, y) not in live:
                continue
            n = IN.get(y, frozenset()) | st
            if n != IN.get(y):
                IN[y] = n
                wl.append(y)
    want = {"mmap": {"munmap"}, "cache": set(), "malloc": {"free"}}
    name = {"mmap": "text mapped for this one use", "cache": "text that belongs to the cache of decompressed files", "malloc": "text in allocated memory"}
    for x in rets:
        if x[0] == "unset":
            r.ok("the caller learns that there is no text")
            bad(r, "unset", "", f.name, "a way out leaves the caller without knowing whether there is text", [])
        if x[0] not in want:
            continue
        r.ok("text of kind %s handed out with mark %s" % x[:2])
        got = acts.get(x[1]) if x[1] is not None else None
        at = x[2].where if len(x) > 2 else ""
        if got is None:
            k = {frozenset(a) for a in acts.values()}
            if k != {frozenset(want[x[0]])}:
                bad(r, "kind:%s" % x[0], at, f.name, "%s is handed out without recording how it is to be released: what was recorded for an earlier text decides" % name[x[0]],
                      ["handed out at %s" % at])
        elif got != want[x[0]]:
            bad(r, "kind:%s" % x[0], at, f.name, "%s is recorded so that the release %s it" % (name[x[0]], "unmaps" if "munmap" in got else "frees" if got else "keeps"), ["handed out at %s" % at])


def run(r, tier):
    r.rule("from every place where a file, directory or stream is opened, every way out closes it (or hands it on) with the matching call; nothing closed is used again, nothing whose opening failed is used")
    r.rule("from every mapping of text: exactly one release, by the same address and length, no use afterwards, none when nothing was mapped")
    r.rule("what is recorded about how text was obtained makes the release unmap fresh mappings and leave the cache of decompressed files alone")
    p = base_prog()
    rel = Releases(p)
    n = 0
    for f in p.defined():
        for c in f.insts():
            if c.opc == "call" and c.cname in OPEN:
                n += 1
                w = handles(r, p, f, c, rel)
                if w:
                    r.ok("%s(): what %s opens at %s is %s" % (f.name, c.cname, c.where, w))
    r.scope["opened"] = n
    new = {f.name for f in inline.load().funcs.values() if not f.decl and sym.gname(f.name) not in _BASE}
    q = Prog(only=new | {"get_validated_mbox_msg"})
    k = 0
    for f in q.defined():
        if f.name == "get_validated_mbox_msg":
            continue
        for m in f.calls(*MAPS):
            k += 1
            w = mappings(r, q, f, m, MAPS[m.cname])
            if w:
                r.ok("%s(): the mapping at %s is put %s" % (f.name, m.where, w))
    r.scope["mappings"] = k
    q = Prog(only=new | {"find_ro_cache", "add_ro_cache"})
    if q.has("create_ro_mapping") and q.has("free_ro_mapping"):
        alloc_kinds(r, q, "create_ro_mapping", "free_ro_mapping")
    else:
        r.notes.append("create_ro_mapping/free_ro_mapping not found")
    cache(r, "find_ro_cache", "add_ro_cache")


# ---- the cache of decompressed files
def cache(r, find, add):
    q = Prog(only={find})
    if q.has(add):
        f = q.fn(add)
        ml = [i for i in f.insts() if i.opc == "load" and i.ty == "ptr" and any(x.endswith(".map") for x in q.s.apath(i.ops[0], 8))]
        ms = [i for i in f.insts() if i.opc == "store" and any(x.endswith(".map") for x in q.s.apath(i.ops[1], 8))]
        maps = list(f.calls("mmap", "mmap64"))
        if not ml or not maps:
            r.notes.append("cache entries not recognised")
            return

        def world(held, mapped):
            def pin(i):
                if i in ml:
                    return [NZ if held else 0]
                if i.opc == "call" and i.cname in ("strcmp", "strcasecmp"):
                    return [1]
                if i in maps:
                    return [-1 if not mapped else NZ]
                return None
            return Sccp(f, pin=pin, stop=dead)
        s = world(True, True)
        un = list(f.calls("munmap"))
        r.ok("an entry of the cache is unmapped before its place is taken")
        for m in maps:
            if m.bb not in s.blocks:
                continue
            # can the new mapping be made without releasing the old one?
            seen, wl = set(), [f.blocks[0]]
            hit = False
            while wl:
                b = wl.pop()
                if b in seen:
                    continue
                seen.add(b)
                k = b.insts.index(m) if m.bb is b else len(b.insts)
                if any(i in un for i in b.insts[:k]):
                    continue
                if m.bb is b:
                    hit = True
                    break
                wl += [y for y in b.succs if (b, y) in s.edges]
            after = m.bb in s.blocks and any(i in un for i in walk(s, m, lambda i: i.opc == "ret"))
            if hit and not after:
                bad(r, "evict", m.where, f.name, "the place of a decompressed file in the cache is taken without releasing its text", [])
        for u in un:
            if u.bb in s.blocks and strip(u.args[0]) in ml:
                l = strip(u.args[1])
                if l.kind in ("int", "arg") or l.kind == "inst" and l.opc in ("add", "sub", "mul"):
                    bad(r, "evict-len", u.where, f.name, "text of the cache is released with another length than its own", [])
        s = world(False, False)
        r.ok("a mapping that failed is not put into the cache")
        for t in [b.term for b in f.blocks if b.term.opc == "ret" and b in s.blocks]:
            if maps[0].bb in s.blocks and t.ops and s.get(t.ops[0]) is not None and 0 not in s.get(t.ops[0]):
                bad(r, "failed-map", maps[0].where, f.name, "a mapping that failed is handed out of the cache", [])
        if maps[0].bb in s.blocks and maps[0] in {strip(i.ops[0]) for i in ms}:
            good = False
            for i in ms:
                if i.bb in s.blocks and strip(i.ops[0]) is maps[0]:
                    for j in walk(s, i, lambda j: j.opc == "ret" or j in ms):
                        if j.opc == "ret":
                            bad(r, "failed-kept", i.where, f.name, "the result of a failed mmap() stays in the cache as if it were text", [])
    p = base_prog()
    if p.has(find):
        f = p.fn(find)
        cmp = [c for c in f.calls("strcmp")]
        flds = [i for i in f.insts() if i.opc == "load"]
        if cmp:
            s = Sccp(f, pin=lambda i: [1, -1] if i in cmp else None, stop=dead)
            r.ok("only the text of the file asked for is taken from the cache")
            for t in [b.term for b in f.blocks if b.term.opc == "ret" and b in s.blocks]:
                if s.get(t.ops[0]) != frozenset([0]):
                    bad(r, "other-file", t.where, f.name, "the cache hands out the text of another file", [])
        else:
            r.notes.append("comparison of names in the cache not recognised")
            for c in f.calls("strncmp", "strcasecmp", "strncasecmp", "memcmp"):
                bad(r, "name", c.where, f.name, "file names in the cache are compared by %s()" % c.cname, [])
