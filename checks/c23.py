"""C23: every message of every configured folder is found, and nothing else."""
import sym, loopinfo
from prog import inlined_prog, base_prog
from rounds import B, NZ, Sccp
from text import Text, CMP
from util import strip

FLOOR = 60
DIR, REG, LNK, FIFO = 0o040755, 0o100644, 0o120777, 0o010644
STAT = ("stat", "stat64", "lstat", "lstat64")
READDIR = ("readdir", "readdir64")


def run(r, tier):
    r.rule("each configured path is expanded (base, '...', wildcards) to every folder of its kind that is not omitted, and every message of each such folder is listed once under its full name")
    listing(r)
    expand(r)
    shallow(r)
    deep(r)
    methods(r)
    mhnames(r)
    mboxes(r)
    globs(r)
    tail(r)


KEEP = {"build_message_list", "split_on_colons", "glob_and_expand_paths", "free_string_array", "valid_mh_filename_p", "append_shallow", "append_deep", "is_globber_array_match",
        "make_globber", "is_glob_match", "string_list_to_array", "has_child_file", "has_child_dir", "colon_sep_string_to_globber_array"}
_prog = []


def T(name):
    if not _prog:
        _prog.append(inlined_prog(keep=KEEP))
    return Text(_prog[0], name)


def anyconst(p, *names):
    for n in names:
        try:
            return p.enum(n)
        except Exception:
            continue
    return None


def dirloops(v, s=None):
    """loops over the entries of a directory: {header: (readdir call)}"""
    out = {}
    for c in v.f.calls(*READDIR):
        h = v.inner(c.bb)
        if h is not None and (s is None or c.bb in s.blocks):
            out[h] = c
    return out


def entry(v, h, rd, name, more=None):
    """one round of a directory loop for an entry of the given name"""
    def pin(i):
        if i.opc == "call":
            if i is rd:
                return B(NZ) if name is not None else B(0)
            if i.cname in CMP and i.bb in v.loops[h]:
                return v.comp(i, name or "")
            if i.cname in ("malloc", "realloc", "strdup", "opendir"):
                return B(NZ)
        if i.opc == "load" and i.ty == "i8" and name is not None:
            q = v.ap(i)
            if q and all("d_name" in x for x in q):
                k = [x[1].c for x in v.p.s.gepsteps(i.ops[0])[1] if x[0] == "[]" and x[1].kind == "int"]
                k = k[-1] if k else 0
                return B(ord((name + "\0" * 9)[k]))
        return more(i) if more else None
    return v.round(h, pin)


def must(r, v, s, h, insts, key, what, msg):
    on = [i for i in insts if i.bb in s.blocks]
    r.require(bool(on) and not v.skips(s, h, on), key, what, msg)


def listing(r):
    v = T("build_message_list")
    f = v.f
    if len(f.params) < 4:
        r.notes.append("build_message_list not recognised")
        return
    seen = {}
    for ftn, kind in (("FT_MAILDIR", "Maildir"), ("FT_MH", "MH")):
        ft = v.p.enum(ftn)
        s0 = Sccp(f, pin=lambda i: B(NZ) if i.opc == "call" and i.cname in ("malloc", "realloc") else None, args={f.params[2]: B(ft)}, cap=24)
        ex = [c for c in f.calls("glob_and_expand_paths") if c.bb in s0.blocks]
        key = "C23:list:" + kind
        if len(ex) != 1:
            if not list(f.calls("glob_and_expand_paths")):
                r.notes.append("expansion of the folders not recognised")
            else:
                r.require(bool(ex), key + ":expand", "%s folders are expanded" % kind, "build_message_list: %s folders are not expanded" % kind)
            continue
        ex = ex[0]
        g = strip(ex.args[5])
        if g.kind == "global":
            seen[kind] = g
        # passed through: base, omit patterns
        for k, a, what in ((0, 0, "base folder"), (6, 4, "omit patterns")):
            x = strip(ex.args[k])
            if x.kind == "arg":
                r.require(x is f.params[a], key + ":" + what.replace(" ", "-"), "%s: %s used" % (kind, what), "%s (build_message_list): the %s is not used for %s folders" % (ex.where, what, kind))
            elif x.kind in ("null", "zero"):
                r.require(False, key + ":" + what.replace(" ", "-"), "", "%s (build_message_list): the %s is not used for %s folders" % (ex.where, what, kind))
        # all of the list given
        sp = [c for c in f.calls("split_on_colons") if sym.inst_dominates(v.dom, c, ex)]
        for c in sp:
            n = strip(ex.args[2])
            if n.kind == "inst" and n.opc == "load":
                r.require(strip(n.ops[0]) is strip(c.args[1]), key + ":all", "%s: all given paths are expanded" % kind, "%s (build_message_list): not all the %s paths given are expanded" % (ex.where, kind))
            if n.kind == "int":
                r.bad(key + ":all", "%s (build_message_list): only %d of the %s paths given is expanded" % (ex.where, n.c, kind))
            x = strip(c.args[0])
            if x.kind == "arg":
                r.require(x is f.params[1], key + ":paths", "%s: the given list is split" % kind, "%s (build_message_list): the wrong list of folders is split" % c.where)
        loops = dirloops(v, s0)
        if not loops:
            r.require(bool(dirloops(v)) is False, key + ":scan", "", "build_message_list: %s folders are not scanned" % kind)
            r.notes.append("scan of %s folders not recognised" % kind)
            continue
        subs = set()
        for h, rd in loops.items():
            subs |= scan(r, v, s0, h, rd, kind, ft, ex, key)
        if kind == "Maildir":
            if None not in subs:
                r.require(subs == {"new", "cur"}, key + ":subs", "Maildir: new and cur are scanned", "build_message_list: in a Maildir folder %s scanned instead of new and cur" % (", ".join(sorted(subs)) + " is/are" if subs else "nothing is"))
        elif None not in subs:
            r.require(subs == {""}, key + ":subs", "MH: the folder itself is scanned", "build_message_list: in an MH folder the subfolder %s is scanned" % ", ".join(sorted(subs)))
    v.seen = seen
    if len(seen) == 2:
        r.require(seen["Maildir"] is not seen["MH"], "C23:list:methods", "each kind of folder has its own rules", "build_message_list: MH and Maildir folders are recognised by the same rules")


def scan(r, v, s0, h, rd, kind, ft, ex, key):
    """one directory loop of build_message_list; returns the subfolders it reads (None: unknown)"""
    f, body = v.f, v.loops[h]
    w = rd.where
    p = v.p
    add = [i for i in v.stores("msgpath_array.n", within=body)]
    if not add:
        r.notes.append("list of messages built at %s not recognised" % w)
        return {None}
    vm = [c for c in f.calls("valid_mh_filename_p") if c.bb in body]
    fill = {".type": ("type", p.enum("MTY_FILE")), ".source_ft": ("source_ft", ft)}
    names = ["msg", ".hidden", "x.", "..x", "1234:2,S", "new"] if kind == "Maildir" else ["1", "123", "1.", "77"]
    for n in names:
        s = entry(v, h, rd, n, lambda i: B(1) if i in vm else None)
        must(r, v, s, h, add, key + ":add", "%s: '%s' is listed" % (kind, n), "%s (build_message_list): the message file '%s' of a %s folder is not listed" % (w, n, kind))
        r.require(not v.leaves(s, h), key + ":stop", "%s: the scan goes on after '%s'" % (kind, n), "%s (build_message_list): the scan of a %s folder stops before its last entry" % (w, kind))
        paths = [i for i in v.stores(".src.mpf.path", ".src.mbox", ".src.mpf", within=body)]
        if not paths:
            r.notes.append("name of listed message at %s not recognised" % w)
        else:
            must(r, v, s, h, paths, key + ":name", "%s: name noted" % kind, "%s (build_message_list): the name of a %s message is not noted" % (w, kind))
        for fld, (nm, val) in fill.items():
            st = [i for i in v.stores("msgpath_array.paths[]" + fld, within=body)]
            on = [i for i in st if i.bb in s.blocks]
            must(r, v, s, h, st, key + ":" + nm, "%s: %s noted" % (kind, nm), "%s (build_message_list): the %s of a %s message is not noted" % (w, nm, kind))
            for i in on:
                x = s.get(i.ops[0])
                if strip(i.ops[0]) is f.params[2]:
                    x = B(ft)
                if x is not None:
                    r.require(x == B(val), key + ":" + nm, "%s: %s noted" % (kind, nm), "%s (build_message_list): the %s of a %s message is noted as %s" % (i.where, nm, kind, sorted(x)))
    for i in add:
        g = v.lin(i.ops[0])
        if len(g.atoms()) == 1:
            r.require(g.const == 1, key + ":count", "%s: counted once" % kind, "%s (build_message_list): a listed message is counted %d times" % (i.where, g.const))
    for n in (".", ".."):
        s = entry(v, h, rd, n, lambda i: B(0) if i in vm else None)
        r.require(not [i for i in add if i.bb in s.blocks], key + ":dots", "%s: '%s' is no message" % (kind, n), "%s (build_message_list): the entry '%s' of a %s folder is listed as a message" % (w, n, kind))
        r.require(not v.leaves(s, h), key + ":stop", "%s: the scan goes on after '%s'" % (kind, n), "%s (build_message_list): the scan of a %s folder stops at the entry '%s'" % (w, kind, n))
    if kind == "MH":
        if vm:
            for n in ("abc", ".mh_sequences", "12a"):
                s = entry(v, h, rd, n, lambda i: B(0) if i in vm else None)
                r.require(not [i for i in add if i.bb in s.blocks], key + ":others", "MH: other names are no messages", "%s (build_message_list): a file of an MH folder whose name is not a number is listed" % w)
                r.require(not v.leaves(s, h), key + ":stop", "MH: the scan goes on after '%s'" % n, "%s (build_message_list): the scan of an MH folder stops at the entry '%s'" % (w, n))
            for c in vm:
                x = v.name(c.args[0])
                if "d_name" not in x:
                    r.require("d_name" in x, key + ":test", "", "%s (build_message_list): %s is tested instead of the name of the entry" % (c.where, x)) if "?" not in x else None
        else:
            r.notes.append("test for MH message names not recognised")
    # the directory read
    out = set()
    od = [c for c in f.calls("opendir") if sym.inst_dominates(v.dom, c, rd)]
    od = [c for c in od if strip(rd.args[0]) in v.roots(c) or strip(rd.args[0]) is c]
    folder = None
    if od:
        c = od[0]
        outer = [x for x in v.around(h) if x is not h]
        fl = v.flat(c.args[0], s0)
        # pieces: folder ["/" sub]
        rest = fl[1:]
        folder = fl[0]
        if rest == []:
            out.add("")
        elif len(rest) == 2 and rest[0] == '"/"':
            if rest[1].startswith('"'):
                out.add(rest[1].strip('"'))
            else:
                out |= table(r, v, c, rest[1], outer, key)
        elif len(rest) == 1 and rest[0].startswith('"/'):
            out.add(rest[0].strip('"')[1:])
        else:
            out.add(None)
            r.notes.append("directory read at %s not recognised: %s" % (c.where, fl))
        # a folder that cannot be read does not end the scan
        for ho in outer:
            s = v.round(ho, lambda i: B(0) if i is c else B(NZ) if i.opc == "call" and i.cname in ("malloc", "realloc") else None)
            L = v.counted(ho)
            oth = v.leaves(s, ho)
            if L is not None and L.bound_exit:
                oth = [e for e in oth if e[0] is not L.bound_exit[0]]
            r.require(not oth, key + ":unreadable", "%s: an unreadable directory does not end the scan" % kind, "%s (build_message_list): a directory that cannot be opened ends the scan of %s folders" % (c.where, kind))
            if ho is not outer[0]:
                continue
            s = v.round(ho, lambda i: B(NZ) if i.opc == "call" and i.cname in ("malloc", "realloc", "opendir") else None)
            r.require(h in s.blocks and (ho is h or not v.skips(s, ho, [rd])), key + ":read", "%s: every directory is read" % kind, "%s (build_message_list): a directory of %s folders is opened but not always read" % (c.where, kind))
        # all expanded folders
        hp = outer[-1] if outer else None
        if hp is not None:
            L = v.counted(hp)
            cz = L and L.phi is not None and loopinfo.covers_from_zero(L)
            nout = strip(ex.args[4])
            bounds = limits(v, hp)
            if cz and bounds and nout not in bounds and all(x.kind == "inst" and x.opc == "alloca" for x in bounds):
                r.bad(key + ":every", "%s (build_message_list): the loop over the %s folders does not end at their number" % (hp.insts[-1].where, kind))
            elif cz and nout in bounds:
                r.require(cz[0] == 0 and cz[2] == 0 and not L.other_exits, key + ":every", "%s: every folder is scanned" % kind, "%s (build_message_list): only folders [%s, n%+d) of the %s folders are scanned" % (hp.insts[-1].where, cz[0], cz[2], kind))
            else:
                r.notes.append("range of the loop over %s folders not recognised" % kind)
    else:
        r.notes.append("opening of the directory read at %s not recognised" % w)
        out.add(None)
    # the name listed is the directory read plus the name of the entry
    s = entry(v, h, rd, names[0], lambda i: B(1) if i in vm else None)
    for i in v.stores(".src.mpf.path", ".src.mbox", ".src.mpf", within=body):
        x = v.flat(i.ops[0], None)
        if not od or any("?" in y for y in x):
            r.notes.append("name listed at %s not recognised: %s" % (i.where, x))
            continue
        want = v.flat(od[0].args[0], s0)
        ok = x[:len(want)] == want and len(x) == len(want) + 2 and x[-2] == '"/"' and "d_name" in x[-1]
        r.require(ok, key + ":full", "%s: listed under its full name" % kind, "%s (build_message_list): a %s message is listed as %s" % (i.where, kind, " ".join(x)))
    return out


def limits(v, h):
    """where the bounds a loop's exit tests compare with are loaded from"""
    out = set()
    for b in v.loops[h]:
        t = b.term
        if t.opc == "br" and len(b.succs) == 2 and any(x not in v.loops[h] for x in b.succs):
            c = strip(t.ops[0])
            if c.kind == "inst" and c.opc == "icmp":
                for o in c.ops:
                    o = strip(o)
                    if o.kind == "inst" and o.opc == "load":
                        out.add(strip(o.ops[0]))
    return out


def table(r, v, c, path, outer, key):
    """subfolder names taken from a constant table by a loop over it"""
    for b in v.f.blocks:
        for i in b.insts:
            if i.opc == "load" and i.ty == "ptr" and v.ap(i) == {path}:
                base, st = v.p.s.gepsteps(i.ops[0])
                ini = base._x.get("init") if base.kind == "global" else None
                if ini is None or ini.kind != "agg":
                    continue
                el = [x.s for x in ini.ops if x.kind == "global"]
                for h in outer:
                    L = v.counted(h)
                    if L is not None and L.phi is not None and v.idx(i.ops[0]) is L.phi and L.lo[0] == ("int", 0) and L.hi[0] == ("int", 0) and not L.other_exits:
                        return set(el[L.lo[1]:L.hi[1]])
    return {None}


def expand(r):
    """glob_and_expand_paths"""
    v = T("glob_and_expand_paths")
    f = v.f
    A = f.params
    if len(A) < 7:
        r.notes.append("glob_and_expand_paths not recognised")
        return
    app = list(f.calls("append_shallow", "append_deep"))
    if not app:
        r.notes.append("expansion of folder paths not recognised")
        return
    tops = {v.outer(c.bb) for c in app}
    if len(tops) != 1 or None in tops:
        r.notes.append("loop over folder paths not recognised")
        return
    top = tops.pop()
    L = v.counted(top)
    c = L and L.phi is not None and loopinfo.covers_from_zero(L)
    if c:
        r.require(c[0] == 0 and c[2] == 0 and not L.other_exits, "C23:expand:every", "every configured path is expanded", "%s (glob_and_expand_paths): only paths [%s, n%+d) of the configured paths are expanded" % (top.insts[-1].where, c[0], c[2]))
    paths = {i for b in v.loops[top] for i in b.insts if i.opc == "load" and i.ty == "ptr" and v.base(i.ops[0]) is A[1]}
    ch0 = {i for b in v.loops[top] for i in b.insts if i.opc == "load" and i.ty == "i8" and v.base(i.ops[0]) in paths and not [x for x in v.p.s.gepsteps(i.ops[0])[1] if x[0] == "[]" and not (x[1].kind == "int" and x[1].c == 0)]}
    dots = [x for x in f.calls(*CMP) if any(v.lit(a) == "..." for a in x.args[:2])]
    loops = dirloops(v)
    # loops that look for wildcard characters
    wild = {}
    for h, body in v.loops.items():
        if h is top or h in loops or any(x in body for x in loops):
            continue
        k = set()
        for b in body:
            t = b.term
            if t.opc == "switch":
                k |= {cv for cv, _ in t.cases}
            for i in b.insts:
                if i.opc == "icmp":
                    k |= {o.c for o in i.ops if o.kind == "int"}
        if 42 in k:
            wild[h] = {i for b in body for i in b.insts if i.opc == "load" and i.ty == "i8"}
    wc = {x for y in wild.values() for x in y}
    pb = [x for x in f.calls("strpbrk", "strcspn")]
    if not wc and not pb:
        r.notes.append("search for wildcard characters not recognised")

    first = ["m"]

    def go(abs_, dd, ch=None, st=0, opened=NZ, strlen=10):
        def pin(i):
            if i in ch0:
                return B(ord("/") if abs_ else ord(first[0]))
            if i in dots:
                return B(0 if dd else 1)
            if i in wc and ch is not None:
                return ch
            if i.opc == "call":
                if i in pb and ch is not None and i.cname == "strpbrk":
                    return B(NZ) if any(chr(y) in (v.lit(i.args[1]) or "") for y in ch if y) else B(0)
                if i.cname in STAT:
                    return B(st)
                if i.cname == "strlen":
                    return B(strlen)
                if i.cname in ("malloc", "make_globber"):
                    return B(NZ)
                if i.cname == "opendir":
                    return B(opened)
            return None
        return v.round(top, pin)
    w = top.insts[-1].where
    rds = list(loops.values())
    for dd in (0, 1):
        want, other = ("append_deep", "append_shallow") if dd else ("append_shallow", "append_deep")
        s = go(0, dd)
        on = [x for x in app if x.bb in s.blocks]
        nm = "path...'" if dd else "path'"
        if dots:
            r.require(bool(on) and all(x.cname == want for x in on), "C23:expand:deep:%d" % dd, "'%s is handled by %s" % (nm, want), "%s (glob_and_expand_paths): a path %s '...' is %s" % (w, "with" if dd else "without", "not searched in full" if dd else "searched for subfolders too"))
        if wc or pb:
            for chs in ("*", "?", "["):
                s = go(0, dd, B(ord(chs)))
                lo = [x for x in rds if x.bb in s.blocks]
                r.require(bool(lo) and not v.skips(s, top, [x for x in f.calls("opendir") if x.bb in s.blocks]), "C23:expand:wild:%s" % chs, "'%s' is a wildcard" % chs, "%s (glob_and_expand_paths): a path with the wildcard %s is not matched against folder names" % (w, chs))
            s = go(0, dd, B(ord("a"), 0))
            lo = [x for x in rds if x.bb in s.blocks]
            sg = [x for x in app if x.bb in s.blocks]
            must(r, v, s, top, sg, "C23:expand:single:%d" % dd, "a plain path is used", "%s (glob_and_expand_paths): a plain path %s is not used" % (w, "with '...'" if dd else ""))
            r.require(not lo, "C23:expand:plain", "a plain path is not matched", "%s (glob_and_expand_paths): a path without wildcards is matched against folder names" % w)
            s = go(0, dd, B(ord("a"), 0), st=-1)
            r.require(not [x for x in app if x.bb in s.blocks], "C23:expand:missing", "a missing folder is left out", "%s (glob_and_expand_paths): a folder that does not exist is used" % w)
            r.require(v.back(s, L.phi) != frozenset() if L and L.phi is not None else True, "C23:expand:next", "a missing folder does not end the scan", "%s (glob_and_expand_paths): a folder that does not exist ends the scan" % w)
            s = go(0, dd, B(ord("*")), opened=0)
            r.require(v.back(s, L.phi) != frozenset() if L and L.phi is not None else True, "C23:expand:next", "a missing folder does not end the scan", "%s (glob_and_expand_paths): a folder that does not exist ends the scan" % w)
    # absolute and relative paths; offset for the omit patterns
    for ab, c0 in ((0, "m"), (0, "."), (0, "~"), (0, "7"), (1, "/")):
        first[0] = c0
        s = go(ab, 0, B(ord("*")))
        for x in app:
            if x.bb in s.blocks and s.get(x.args[1]) is not None:
                b = s.get(x.args[1])
                r.require(b == B(0 if ab else 11), "C23:expand:base", "omit patterns are matched below base", "%s (glob_and_expand_paths): omit patterns are matched against the wrong part of %s path" % (x.where, "an absolute" if ab else "a relative"))
        s = go(ab, 1, B(ord("a"), 0))
        cut = [i for b in s.blocks if b in v.loops[top] and v.inner(b) is top for i in b.insts if i.opc == "store" and i.ops[0].ty == "i8" and s.get(i.ops[0]) == B(0)]
        cut = [i for i in cut if any(v.obj(i.ops[1], s) & v.obj(x.args[0], s) for x in app if x.bb in s.blocks)]
        for i in cut:
            st = [x for x in v.p.s.gepsteps(i.ops[1])[1] if x[0] == "[]"]
            k = s.get(st[-1][1]) if st else None
            if k is not None:
                r.require(k == B(7), "C23:expand:cut", "'...' is cut off", "%s (glob_and_expand_paths): '...' is not cut off properly at the end of a path" % i.where)
        if cut:
            r.require(not v.skips(s, top, cut), "C23:expand:cut", "'...' is cut off", "%s (glob_and_expand_paths): '...' is not always cut off at the end of a path" % cut[0].where)
        elif dots:
            r.notes.append("cutting off '...' not recognised")
        s = go(ab, 0, B(ord("a"), 0))
        for x in app:
            if x.bb not in s.blocks or v.inner(x.bb) is not top:
                continue
            rt = set(v.obj(x.args[0], s))
            if len(rt) != 1:
                continue
            fl = v.flat(x.args[0], s)
            if any("?" in y for y in fl):
                r.notes.append("path expanded at %s not recognised: %s" % (x.where, fl))
                continue
            want = ["arg1[]"] if ab else ["arg0", '"/"', "arg1[]"]
            r.require(fl == want, "C23:expand:full:%d" % ab, "%s path: %s" % ("absolute" if ab else "relative", " ".join(want)), "%s (glob_and_expand_paths): %s path becomes %s" % (x.where, "an absolute" if ab else "a relative", " ".join(fl)))
            b = s.get(x.args[1])
            if b is not None:
                r.require(b == B(0 if ab else 11), "C23:expand:base", "omit patterns are matched below base", "%s (glob_and_expand_paths): omit patterns are matched against the wrong part of %s path" % (x.where, "an absolute" if ab else "a relative"))
    for x in app:
        for k, a, what in ((4, 5, "kind of folder"), (5, 6, "omit patterns")):
            y = strip(x.args[k])
            if y.kind in ("arg", "null", "zero"):
                r.require(y is A[a], "C23:expand:arg%d" % k, "%s passed on at %s" % (what, x.where), "%s (glob_and_expand_paths): the %s is not passed on" % (x.where, what))
        st = [c for c in f.calls(*STAT) if sym.inst_dominates(v.dom, c, x) and strip(c.args[1]) is strip(x.args[2])]
        if st:
            c = [c for c in st if not any(d is not c and sym.inst_dominates(v.dom, c, d) for d in st)][0]
            r.require(v.obj(c.args[0]) & v.obj(x.args[0]) != set(), "C23:expand:stat", "the folder itself is examined", "%s (glob_and_expand_paths): another file is examined than the folder used" % c.where)
            r.require("l" != c.cname[0], "C23:expand:link", "links are followed", "%s (glob_and_expand_paths): folders behind symbolic links are not found" % c.where)
    lastslash(r, v, top)
    for h, rd in loops.items():
        parent(r, v, rd)
        wildloop(r, v, h, rd, [x for x in app if x.bb in v.loops[h]], A)


def lastslash(r, v, top):
    """loops that note where a '/' is: the last one"""
    f = v.f
    for h, body in v.loops.items():
        if h is top:
            continue
        ch = [i for b in body for i in b.insts if i.opc == "load" and i.ty == "i8"]
        cmp = {o.c for b in body for i in b.insts if i.opc == "icmp" for o in i.ops if o.kind == "int"}
        if not ch or ord("/") not in cmp or len({strip(c.ops[0]) for c in ch}) != 1:
            continue
        at = strip(ch[0].ops[0])
        res = [i for i in h.insts if i.opc == "phi" and i.ty == "ptr" and i is not at and any(strip(x).kind in ("null", "zero") for x, b in i.inc if b not in body)]
        for q in res:
            for nz in (0, NZ):
                s = v.round(h, lambda i: B(ord("/")) if i in ch else B(nz) if i is q else None)
                got = {y for x, b in q.inc if b in body and (b, h) in s.edges for y in v.roots(x, s)}
                r.require(got == {at}, "C23:expand:last", "the last '/' of the path is found", "%s (glob_and_expand_paths): the last component of a path is not found" % ch[0].where)
            s = v.round(h, lambda i: B(ord("a")) if i in ch else None)
            got = {y for x, b in q.inc if b in body and (b, h) in s.edges for y in v.roots(x, s)}
            r.require(got == {q}, "C23:expand:last", "the last '/' of the path is found", "%s (glob_and_expand_paths): the last component of a path is not found" % ch[0].where)
    for c in f.calls("make_globber"):
        if c.bb in v.loops[top]:
            rt = v.roots(c.args[0])
            r.require(not all(strip(v.p.s.gepsteps(x)[0]) is x for x in rt), "C23:wild:pattern", "the last component is the pattern", "%s (glob_and_expand_paths): the whole path instead of its last component is matched against folder names" % c.where)
            for x in rt:
                if x.kind == "inst" and x.opc == "call" and x.cname == "strchr":
                    r.bad("C23:expand:last", "%s (glob_and_expand_paths): the last component of a path is not found" % x.where)


def parent(r, v, rd):
    """the directory searched for a wildcard is the path up to its last component"""
    f = v.f
    mk = [c for c in f.calls("make_globber") if sym.inst_dominates(v.dom, c, rd)]
    od = [c for c in f.calls("opendir") if sym.inst_dominates(v.dom, c, rd)]
    if len(mk) != 1 or not od:
        r.notes.append("directory searched for a wildcard not recognised")
        return
    last = v.lin(mk[0].args[0])
    dirs = v.obj(od[-1].args[0])
    for c in f.insts():
        if c.opc != "call" or c.cname not in ("memcpy", "strncpy", "llvm.memcpy.p0.p0.i64") or not v.obj(c.args[0]) & dirs:
            continue
        n = v.lin(c.args[2])
        d = n.add(last, -1).add(v.lin(c.args[1]), 1)
        if not d.atoms():
            r.require(d.const == -1, "C23:wild:parent", "the directory is the path up to the last '/'", "%s (glob_and_expand_paths): the directory searched for a wildcard is cut off at the wrong place" % c.where)
            for i in f.insts():
                if i.opc == "store" and i.ops[0].ty == "i8" and strip(i.ops[0]).kind in ("int", "zero") and v.base(i.ops[1]) is strip(c.args[0]):
                    e = v.lin(i.ops[1]).add(v.lin(c.args[0]), -1).add(n, -1)
                    if not e.atoms():
                        r.require(e.const == 0, "C23:wild:parent", "and ends there", "%s (glob_and_expand_paths): the directory searched for a wildcard is not ended where it should be" % i.where)
        else:
            r.notes.append("directory searched for a wildcard not recognised")


def wildloop(r, v, h, rd, app, A):
    f, body = v.f, v.loops[h]
    w = rd.where
    gm = [c for c in f.calls("is_glob_match") if c.bb in body]
    om = [c for c in f.calls("is_globber_array_match") if c.bb in body]
    st = [c for c in f.calls(*STAT) if c.bb in body]
    if not gm or not app:
        r.notes.append("wildcard loop at %s not recognised" % w)
        return
    if not om:
        r.notes.append("omit patterns in the wildcard loop at %s not looked for" % w)
    key = "C23:wild:" + app[0].cname
    for n, g, o, ok in (("x", 1, 0, 0), ("..x", 1, 0, 0), (".x", 1, 0, 0), ("x", 0, 0, 0), ("x", 1, 1, 0), ("x", 1, 0, -1), (".", 1, 0, 0), ("..", 1, 0, 0)):
        s = entry(v, h, rd, n, lambda i: B(g) if i in gm else B(o) if i in om else B(ok) if i in st else None)
        want = g and not o and ok == 0 and n not in (".", "..")
        on = [i for i in app if i.bb in s.blocks]
        if want:
            must(r, v, s, h, app, key + ":match", "matching entry '%s' is used" % n, "%s (glob_and_expand_paths): a folder '%s' matching the wildcard is not used" % (w, n))
        else:
            why = "matches an omit pattern" if o else "does not match" if not g else "does not exist" if ok else "is " + n
            r.require(not on, key + ":no", "an entry that %s is left out" % why, "%s (glob_and_expand_paths): an entry that %s is used" % (w, why))
        r.require(not v.leaves(s, h), key + ":stop", "all entries are matched", "%s (glob_and_expand_paths): matching of a wildcard stops before the last entry" % w)
    for c in gm:
        x = v.name(c.args[1])
        if "?" not in x and "d_name" not in x:
            r.bad(key + ":name", "%s (glob_and_expand_paths): the wildcard is matched against %s instead of the name of the entry" % (c.where, x))
    for c in om:
        y = strip(c.args[0])
        if y.kind in ("arg", "null"):
            r.require(y is A[6], key + ":omit", "omit patterns used", "%s (glob_and_expand_paths): the omit patterns are not used" % c.where)
        omit_text(r, v, c, app[0].args[0], app[0].args[1], key)
    od = [c for c in f.calls("opendir") if sym.inst_dominates(v.dom, c, rd)]
    for c in app:
        fl = v.flat(c.args[0], None, body)
        ct = [v.content(x, None, body) for x in v.roots(c.args[0])]
        if od and len(ct) > 0 and all(ct) and not any(isinstance(x[0], str) for x in ct):
            a, b = set(), v.obj(od[-1].args[0])
            for x in ct:
                a |= v.obj(x[0])
            r.require(bool(a & b), key + ":dir", "matching folders are in the directory searched", "%s (glob_and_expand_paths): a matching folder is looked for in another directory than the one searched" % c.where)
        if any("?" in y for y in fl):
            continue
        r.require(len(fl) >= 2 and "d_name" in fl[-1] and fl[-2] == '"/"', key + ":full", "full name of a matching folder", "%s (glob_and_expand_paths): a matching folder is used as %s" % (c.where, " ".join(fl)))


def omit_text(r, v, c, path, base, key):
    """patterns are matched against the path below base"""
    g = v.lin(c.args[1]).add(v.lin(strip(path)), -1)
    b = v.lin(base)
    d = g.add(b, -1)
    if v.obj(c.args[1]) & v.obj(path):
        known = all(v.lin.val(a).kind in ("arg", "inst") for a in d.atoms())
        if not d.atoms():
            r.require(d.const == 0, key + ":below", "omit patterns are matched below base at %s" % c.where, "%s (%s): omit patterns are matched against a part of the path that is off by %+d" % (c.where, v.f.name, d.const))
        elif not g.atoms():
            r.require(False, key + ":below", "", "%s (%s): omit patterns are matched against the path including base" % (c.where, v.f.name))
    elif "d_name" in v.name(c.args[1]) and "|" not in v.name(c.args[1]):
        r.bad(key + ":below", "%s (%s): omit patterns are matched against the name of an entry alone" % (c.where, v.f.name))


def indirect(v, fld):
    """calls through a field of the traverse methods"""
    out = []
    for i in v.f.insts():
        if i.opc == "call" and not i.cname:
            x = strip(i.callee) if hasattr(i, "callee") else strip(i.ops[-1])
            if x.kind == "inst" and x.opc == "load" and any(q.endswith(fld) for q in v.ap(x)):
                out.append(i)
    return out


def shallow(r):
    if not base_prog().has("append_shallow"):
        r.notes.append("append_shallow not present")
        return
    v = T("append_shallow")
    f = v.f
    A = f.params
    fil = indirect(v, ".filter")
    om = list(f.calls("is_globber_array_match"))
    data = v.stores("string_list.data")
    head = [i for i in v.stores("string_list.prev") if v.base(i.ops[1]) is A[3]]
    if not fil or not data or not head:
        r.notes.append("append_shallow not recognised")
        return
    w = data[0].where
    if not om:
        r.bad("C23:add:omit", "%s (append_shallow): the omit patterns are not looked at" % w)
    for a in (0, 1):
        for o in (0, 1):
            s = Sccp(f, pin=lambda i: B(a) if i in fil else B(o) if i in om else B(NZ) if i.opc == "call" and i.cname == "malloc" else None, args={}, cap=24)
            on = [i for i in data + head if i.bb in s.blocks]
            res = v.result(s)
            if a and not o:
                r.require(all(i.bb in s.blocks and not v.avoidable(s, f.blocks[0], [i]) for i in data + head), "C23:add:yes", "a folder of the right kind is added", "%s (append_shallow): a folder of the right kind that is not omitted is not always added" % w)
                if res is not None:
                    r.require(0 not in res, "C23:add:result", "and that is reported", "%s (append_shallow): adding a folder is not reported" % w)
            else:
                r.require(not on, "C23:add:no", "a folder %s is not added" % ("that is omitted" if a else "of another kind"), "%s (append_shallow): a folder %s is added" % (w, "that matches an omit pattern" if a else "of another kind"))
                if res is not None:
                    r.require(res == B(0), "C23:add:result", "and that is reported", "%s (append_shallow): a folder that was not added is reported as added" % w)
    for i in data:
        x = v.flat(i.ops[0])
        if not any("?" in y for y in x):
            r.require(x == ["arg0"], "C23:add:path", "the folder's path is noted", "%s (append_shallow): %s is noted instead of the path" % (i.where, " ".join(x)))
    for c in fil:
        for k, a in ((0, 0), (1, 2)):
            y = strip(c.args[k])
            if y.kind == "arg":
                r.require(y is A[a], "C23:add:filter", "the folder itself is judged", "%s (append_shallow): the wrong thing is judged" % c.where)
    for c in om:
        y = strip(c.args[0])
        if y.kind in ("arg", "null"):
            r.require(y is A[5], "C23:add:omit", "omit patterns used", "%s (append_shallow): the omit patterns are not used" % c.where)
        omit_text(r, v, c, A[0], A[1], "C23:add")
    # linked in at the end of the list
    cell = strip(head[0].ops[0])
    nx = [i for i in v.stores(".next")]
    pv = [i for i in v.stores("string_list.prev") if i not in head]
    if cell.kind == "inst" and cell.opc == "call":
        own = [i for i in nx if v.base(i.ops[1]) is cell]
        back = [i for i in pv if v.base(i.ops[1]) is cell]
        last = [i for i in nx if v.base(i.ops[1]) is not cell]
        ok = bool(own) and bool(back) and bool(last)
        if ok:
            lp = strip(back[0].ops[0])
            ok = strip(own[0].ops[0]) is A[3] and strip(last[0].ops[0]) is cell and isprev(v, lp, A[3], head[0]) and isprev(v, v.base(last[0].ops[1]), A[3], head[0])
        r.require(ok, "C23:add:link", "the folder is linked in at the end of the list", "%s (append_shallow): a folder is not linked in properly at the end of the list, so folders get lost" % w)


def isprev(v, x, head, before):
    return x.kind == "inst" and x.opc == "load" and v.base(x.ops[0]) is head and all(q.endswith("string_list.prev") for q in v.ap(x)) and sym.inst_dominates(v.dom, x, before)


def deep(r):
    if not base_prog().has("append_deep"):
        r.notes.append("append_deep not present")
        return
    v = T("append_deep")
    f = v.f
    A = f.params
    loops = dirloops(v)
    app = list(f.calls("append_shallow", "append_deep"))
    scr = indirect(v, ".scrutinize")
    if len(loops) != 1 or not app:
        r.notes.append("append_deep not recognised")
        return
    (h, rd), = loops.items()
    body = v.loops[h]
    w = rd.where
    me = [c for c in app if c.bb not in body]
    om = [c for c in f.calls("is_globber_array_match") if c.bb in body]
    st = [c for c in f.calls(*STAT) if c.bb in body]
    md = {i for i in v.loads("stat.st_mode")}
    inner = {i for i in md if i.bb in body}
    own = md - inner
    P, I, F = (v.p.enum(x) for x in ("TRAV_PROCESS", "TRAV_IGNORE", "TRAV_FINISH"))
    r.require(bool(me) and not v.avoidable(Sccp(f, args={}, cap=4), f.blocks[0], me) and all(c.cname == "append_shallow" for c in me), "C23:deep:self", "the folder itself is considered", "%s (append_deep): the folder above '...' itself is not always considered" % w)
    od = list(f.calls("opendir"))
    for m, want in ((DIR, 1), (REG, 0)):
        s = Sccp(f, pin=lambda i: B(m) if i in own else B(NZ) if i.opc == "call" and i.cname in ("malloc", "opendir") else None, args={}, cap=24)
        if want:
            r.require(rd.bb in s.blocks and not v.avoidable(s, f.blocks[0], [rd]), "C23:deep:dir", "directories are searched", "%s (append_deep): a directory is not always searched" % w)
        else:
            r.require(rd.bb not in s.blocks, "C23:deep:file", "files are not searched", "%s (append_deep): a file is opened as a directory" % w)
    base = dict(n="x", scr=P, om=0, st=0, mode=REG)
    for ch in ({}, {"mode": DIR}, {"mode": FIFO}, {"n": ".x"}, {"n": "..x", "mode": DIR}, {"scr": I}, {"scr": I, "mode": DIR}, {"om": 1}, {"om": 1, "mode": DIR}, {"st": -1}, {"n": "."}, {"n": "..", "mode": DIR}, {"scr": F}):
        c = dict(base, **ch)
        s = entry(v, h, rd, c["n"], lambda i: B(c["scr"]) if i in scr else B(c["om"]) if i in om else B(c["st"]) if i in st else B(c["mode"]) if i in inner else None)
        on = [x for x in app if x.bb in s.blocks and x.bb in body]
        want = None
        if c["n"] not in (".", "..") and not c["om"] and c["scr"] == P and c["st"] == 0:
            want = {REG: "append_shallow", DIR: "append_deep"}.get(c["mode"])
        if want:
            r.require(bool(on) and all(x.cname == want for x in on) and not v.skips(s, h, on), "C23:deep:%s" % want, "%s '%s' below '...': %s" % ("directory" if c["mode"] == DIR else "file", c["n"], want),
                      "%s (append_deep): a %s ('%s') below a folder given with '...' is not %s" % (w, "directory" if c["mode"] == DIR else "file", c["n"], "searched" if c["mode"] == DIR else "considered"))
        else:
            why = "is '%s'" % c["n"] if c["n"] in (".", "..") else "matches an omit pattern" if c["om"] else "is to be ignored" if c["scr"] != P else "cannot be examined" if c["st"] else "is neither file nor directory"
            r.require(not on, "C23:deep:not", "an entry that %s is left out" % why, "%s (append_deep): an entry that %s is used" % (w, why))
        if c["scr"] != F:
            r.require(not v.leaves(s, h), "C23:deep:stop", "the search goes on after every entry", "%s (append_deep): the search below '...' ends at an entry that %s" % (w, "is used" if want else why))
    for c in scr:
        a, b = strip(c.args[0]), v.name(c.args[1])
        if "?" not in b:
            r.require("d_name" in b, "C23:deep:name", "the name of the entry is judged", "%s (append_deep): %s is judged instead of the name of the entry" % (c.where, b))
        if a.kind == "inst" and a.opc in ("call", "phi"):
            r.require(a in me, "C23:deep:parent", "whether the parent is a folder of that kind is passed on", "%s (append_deep): entries are judged by something else than whether their parent is a folder of that kind" % c.where)
    for c in app:
        for k, what in ((1, "length of base"), (3, "list"), (4, "kind of folder"), (5, "omit patterns")):
            y = strip(c.args[k])
            if y.kind in ("arg", "null", "int"):
                r.require(y is A[k], "C23:deep:arg%d" % k, "%s passed on at %s" % (what, c.where), "%s (append_deep): the %s is not passed on" % (c.where, what))
        if c.bb in body:
            fl = v.flat(c.args[0], None, body)
            if not any("?" in y for y in fl):
                r.require(fl == ["arg0", '"/"', fl[-1]] and "d_name" in fl[-1], "C23:deep:full", "full name of entries", "%s (append_deep): an entry is used as %s" % (c.where, " ".join(fl)))
    for c in om:
        if st:
            omit_text(r, v, c, [x for x in app if x.bb in body][0].args[0], A[1], "C23:deep")
    for c in st:
        r.require(c.cname[0] != "l", "C23:deep:link", "links are followed", "%s (append_deep): folders behind symbolic links are not found" % c.where)


def methods(r):
    """which folders are of which kind"""
    p = base_prog()
    G = {}
    for fn, kinds in (("build_message_list", {"FT_MAILDIR": "Maildir", "FT_MH": "MH"}),):
        f = p.fn(fn)
        for ftn, kind in kinds.items():
            s = Sccp(f, args={f.params[2]: B(p.enum(ftn))}, cap=8)
            for c in f.calls("glob_and_expand_paths"):
                if c.bb in s.blocks and strip(c.args[5]).kind == "global":
                    G[kind] = (strip(c.args[5]), c)
    if p.has("build_mbox_lists"):
        for c in p.fn("build_mbox_lists").calls("glob_and_expand_paths"):
            if strip(c.args[5]).kind == "global":
                G["mbox"] = (strip(c.args[5]), c)
    if p.has("member_of"):
        f = p.fn("member_of")
        for ftn, kind in (("FT_MAILDIR", "Maildir"), ("FT_MH", "MH"), ("FT_MBOX", "mbox")):
            s = Sccp(f, args={f.params[3]: B(p.enum(ftn)), f.params[2]: B(NZ)}, cap=8)
            for c in f.calls("glob_and_expand_paths"):
                if c.bb in s.blocks and kind in G and strip(c.args[5]).kind == "global":
                    r.require(strip(c.args[5]) is G[kind][0], "C23:kind:guard:" + kind, "results-folder check uses the %s rules" % kind, "%s (member_of): %s folders are expanded by other rules when checking the results folder than when indexing" % (c.where, kind))
    for kind, (g, c) in G.items():
        ini = g._x.get("init")
        if ini is None or ini.kind != "agg" or len(ini.ops) != 2 or any(x.kind != "func" for x in ini.ops):
            r.notes.append("rules for %s folders not recognised" % kind)
            continue
        names = [x.fn.name for x in ini.ops]
        try:
            off = p.s.types.offset("traverse_methods", "filter") if hasattr(p.s, "types") else 0
        except Exception:
            off = 0
        fil, scr = (names if not off else names[::-1])
        judge_filter(r, kind, fil)
        judge_scr(r, kind, scr)
    for kind in ("Maildir", "MH", "mbox"):
        if kind not in G:
            r.notes.append("rules for %s folders not found" % kind)


MARKS = [".xmhcache", ".mh_sequences", ".sylpheed_cache", ".sylpheed_mark", ".claws_cache", ".claws_mark", ".marks", ".overview", "cmeta", "summary", ".mew-summary", "index"]


def judge_filter(r, kind, name):
    v = T(name)
    f = v.f
    md = {i for i in v.loads("stat.st_mode")}
    kids = {c: v.lit(c.args[1]) for c in f.calls("has_child_file", "has_child_dir")}
    if kind != "mbox" and not kids:
        r.notes.append("%s: test for the contents of a folder not recognised" % name)
        return

    def ev(mode, have):
        s = Sccp(f, pin=lambda i: B(mode) if i in md else (B(1) if (kids[i], i.cname) in have else B(0)) if i in kids else None, args={}, cap=24)
        return v.result(s)

    def req(want, mode, have, what):
        x = ev(mode, have)
        if x is None or x == B(0, 1):
            r.notes.append("%s: not decided for %s" % (name, what))
            return
        r.require((0 not in x) if want else x == B(0), "C23:kind:%s:%s" % (kind, what.replace(" ", "-")), "%s folder: %s: %s" % (kind, what, "yes" if want else "no"),
                  "%s: %s is %s as a %s folder" % (name, what, "not recognised" if want else "taken", kind))
    if kind == "mbox":
        req(True, REG, (), "a file")
        req(False, DIR, (), "a directory")
        req(False, FIFO, (), "a fifo")
        return
    if kind == "Maildir":
        d = [(x, "has_child_dir") for x in ("new", "cur", "tmp")]
        req(True, DIR, d, "a directory with new cur and tmp")
        req(False, REG, d, "a file")
        for x in d:
            req(False, DIR, [y for y in d if y is not x], "a directory without " + x[0])
    else:
        req(False, DIR, (), "a directory without any MH mark")
        for x in MARKS:
            req(True, DIR, [(x, "has_child_file")], "a directory with " + x)
        req(False, REG, [(x, "has_child_file") for x in MARKS], "a file")
    for fn, mode in (("has_child_file", REG), ("has_child_dir", DIR)):
        if not base_prog().has(fn):
            continue
        w = T(fn)
        md2 = {i for i in w.loads("stat.st_mode")}
        st = list(w.f.calls(*STAT))
        if not st:
            continue
        for m, ok in ((REG, 0), (DIR, 0), (FIFO, 0), (mode, -1)):
            s = Sccp(w.f, pin=lambda i: B(m) if i in md2 else B(ok) if i in st else B(NZ) if i.opc == "call" and i.cname == "malloc" else None, args={}, cap=24)
            x = w.result(s)
            if x is not None and x != B(0, 1):
                want = m == mode and ok == 0
                r.require((0 not in x) if want else x == B(0), "C23:child:" + fn, "%s: mode %o, stat %d" % (fn, m, ok), "%s: wrong answer for mode %o (stat gives %d)" % (fn, m, ok))
        for c in st:
            fl = w.flat(c.args[0])
            if not any("?" in y for y in fl):
                r.require(fl == ["arg0", '"/"', "arg1"], "C23:child:path:" + fn, "%s examines folder/child" % fn, "%s (%s): %s is examined" % (c.where, fn, " ".join(fl)))


def char(v, i, txt):
    """a character of the text in the second argument"""
    if i.opc == "load" and i.ty == "i8" and v.base(i.ops[0]) is v.f.params[1]:
        k = [x[1].c for x in v.p.s.gepsteps(i.ops[0])[1] if x[0] == "[]" and x[1].kind == "int"]
        k = k[-1] if k else 0
        return B(ord((txt + "\0" * 9)[k]))
    return None


def judge_scr(r, kind, name):
    v = T(name)
    f = v.f
    vm = list(f.calls("valid_mh_filename_p"))
    P, I = v.p.enum("TRAV_PROCESS"), v.p.enum("TRAV_IGNORE")

    def ev(parent, txt, mh):
        s = Sccp(f, pin=lambda i: B(mh) if i in vm else v.comp(i, txt) if i.opc == "call" and i.cname in CMP else char(v, i, txt), args={f.params[0]: B(parent)}, cap=24)
        return v.result(s)
    cases = []
    for parent in (0, 1):
        for txt in ("new", "cur", "tmp", "newer", "x", ".cur", "New"):
            if kind == "Maildir":
                cases.append((parent, txt, 0, I if parent and txt in ("new", "cur", "tmp") else P))
            elif kind == "mbox":
                cases.append((parent, txt, 0, P))
        if kind == "MH":
            cases += [(parent, "12", 1, I), (parent, "x", 0, P)]
    for parent, txt, mh, want in cases:
        x = ev(parent, txt, mh)
        if x is None or len(x) != 1:
            r.notes.append("%s: not decided for '%s'" % (name, txt))
            continue
        r.require(x == B(want), "C23:search:%s:%s" % (kind, txt), "%s: '%s' (in a folder of the kind: %d): %s" % (kind, txt, parent, "looked into" if want == P else "passed over"),
                  "%s: when searching below '...' for %s folders, '%s' %s is %s" % (name, kind, txt, "in such a folder" if parent else "in another directory", "not looked into" if want == P else "looked into"))


def globs(r):
    p = base_prog()
    if p.has("is_globber_array_match"):
        v = T("is_globber_array_match")
        f = v.f
        gm = list(f.calls("is_glob_match"))
        s = Sccp(f, args={f.params[0]: B(0)}, cap=8)
        x = v.result(s)
        if x is not None:
            r.require(x == B(0), "C23:omit:none", "without omit patterns nothing is omitted", "is_globber_array_match: without patterns something matches")
        if len(gm) == 1 and v.inner(gm[0].bb) is not None:
            h = v.inner(gm[0].bb)
            c = gm[0]
            L = v.counted(h)
            cz = L and L.phi is not None and loopinfo.covers_from_zero(L)
            if cz:
                oth = [e for e in L.other_exits]
                r.require(cz[0] == 0 and cz[2] == 0, "C23:omit:all", "all omit patterns are tried", "%s (is_globber_array_match): only patterns [%s, n%+d) are tried" % (c.where, cz[0], cz[2]))
            for m in (0, 1):
                s = v.round(h, lambda i: B(m) if i is c else None)
                if m == 0:
                    inr = {}
                    for q in h.insts:
                        if q.opc == "phi" and q.ty != "ptr":
                            for b in v.loops[h]:
                                for i in b.insts:
                                    if i.opc == "icmp" and strip(i.ops[0]) is q and strip(i.ops[1]).kind != "int":
                                        inr[i] = B({"slt": 1, "ult": 1, "ne": 1}.get(i.pred, 0))
                    keep = {q: v.back(s, q) for q in h.insts if q.opc == "phi" and not (L and q is L.phi)}
                    keep = {q: x for q, x in keep.items() if x is not None and len(x) == 1}
                    if keep:
                        keep.update(inr)
                        s = v.round(h, lambda i: B(m) if i is c else keep.get(i))
                    lv = [e for e in v.leaves(s, h) if not (L and L.bound_exit and e[0] is L.bound_exit[0])]
                    r.require(not lv, "C23:omit:next", "the next pattern is tried", "%s (is_globber_array_match): only the first pattern is tried" % c.where)
                full = Sccp(f, pin=lambda i: B(m) if i is c else None, args={f.params[0]: B(NZ)}, cap=24)
                x = v.result(full)
                if x is not None:
                    r.require(x <= B(0, 1) and (1 in x) == bool(m) if m == 0 else 1 in x or any(y for y in x), "C23:omit:match", "a match is reported exactly if a pattern matches (%d)" % m,
                              "%s (is_globber_array_match): %s" % (c.where, "a matching pattern does not count" if m else "something is omitted although no pattern matches"))
                if m == 1:
                    # after a match the answer stays yes
                    seen, todo, bad = set(), [c.bb], False
                    s1 = Sccp(f, pin=lambda i: B(1) if i is c else None, entry=c.bb, args={f.params[0]: B(NZ)}, cap=24)
                    x = v.result(s1)
                    if x is not None:
                        r.require(0 not in x, "C23:omit:yes", "a match counts", "%s (is_globber_array_match): a matching pattern does not always count" % c.where)
            g = v.name(c.args[1])
            if g.startswith("arg"):
                r.require(g == "arg1", "C23:omit:text", "the path is matched", "%s (is_globber_array_match): the wrong text is matched" % c.where)
        else:
            r.notes.append("is_globber_array_match not recognised")
    if p.has("colon_sep_string_to_globber_array"):
        v = T("colon_sep_string_to_globber_array")
        f = v.f
        mk = list(f.calls("make_globber"))
        sp = list(f.calls("split_on_colons"))
        if len(mk) == 1 and len(sp) == 1 and v.inner(mk[0].bb) is not None:
            h = v.inner(mk[0].bb)
            L = v.counted(h)
            cz = L and L.phi is not None and loopinfo.covers_from_zero(L)
            if cz:
                r.require(cz[0] == 0 and cz[2] == 0 and not L.other_exits, "C23:omit:compiled", "every omit pattern is compiled", "%s (colon_sep_string_to_globber_array): only patterns [%s, n%+d) are compiled" % (mk[0].where, cz[0], cz[2]))
            ret = {x for b in f.blocks if b.term.opc == "ret" for x in v.roots(b.term.ops[0])}
            n = [i for i in f.insts() if i.opc == "store" and i.ops[0].ty == "i32" and v.base(i.ops[1]) in ret]
            for i in n:
                x = strip(i.ops[0])
                if x.kind == "inst" and x.opc == "load":
                    r.require(strip(x.ops[0]) is strip(sp[0].args[1]), "C23:omit:n", "all omit patterns are counted", "%s (colon_sep_string_to_globber_array): the number of patterns is wrong" % i.where)
                elif x.kind == "int" or x.kind == "inst" and x.opc in ("add", "sub"):
                    r.require(False, "C23:omit:n", "", "%s (colon_sep_string_to_globber_array): the number of patterns is wrong" % i.where)
            if not n and ret:
                r.bad("C23:omit:n", "colon_sep_string_to_globber_array: the number of patterns is not noted")


def tail(r):
    """the list of expanded folders becomes the array that is scanned"""
    if not base_prog().has("string_list_to_array"):
        r.notes.append("string_list_to_array not present")
        return
    v = T("string_list_to_array")
    f = v.f
    ld = v.loads(".data")
    st = [i for i in f.insts() if i.opc == "store" and set(v.roots(i.ops[0])) & set(ld)]
    if not st or v.inner(st[0].bb) is None:
        r.notes.append("string_list_to_array not recognised")
        return
    h = v.inner(st[0].bb)
    w = st[0].where
    for i in st:
        for x in v.roots(i.ops[0]):
            if x in ld and v.base(x.ops[0]) is f.params[0]:
                r.bad("C23:array:head", "%s (string_list_to_array): the head of the list, which is no folder, is put into the array" % i.where)
    counts(r, v, h)
    phis = [i for i in h.insts if i.opc == "phi" and i.ty != "ptr"]
    s = v.round(h, lambda i: B(3) if i in phis else None)
    r.require(not v.skips(s, h, st), "C23:array:all", "every folder is put into the array", "%s (string_list_to_array): some folders are left out" % w)
    for i in st:
        ix = v.idx(i.ops[1])
        if ix is not None and s.get(ix) is not None:
            x = s.get(ix)
            b = [v.back(s, q) for q in phis]
            r.require(x == B(3) and B(4) in b, "C23:array:place", "each in a place of its own", "%s (string_list_to_array): folders overwrite each other or leave gaps" % i.where)
    init = [strip(x) for q in phis for x, b in q.inc if b not in v.loops[h]]
    if init and all(x.kind == "int" for x in init):
        r.require(all(x.c == 0 for x in init), "C23:array:first", "starting at 0", "%s (string_list_to_array): the array does not start at 0" % w)
    # from the first to the last
    pp = [i for i in h.insts if i.opc == "phi" and i.ty == "ptr"]
    for q in pp:
        ini = [strip(x) for x, b in q.inc if b not in v.loops[h]]
        bk = [strip(x) for x, b in q.inc if b in v.loops[h]]
        for x in ini:
            if x.kind == "inst" and x.opc == "load":
                fld = {y.split(".")[-1] for y in v.ap(x)}
                for y in bk:
                    if y.kind == "inst" and y.opc == "load" and {z.split(".")[-1] for z in v.ap(y)} <= {"next", "prev"}:
                        r.require({z.split(".")[-1] for z in v.ap(y)} == fld, "C23:array:order", "all folders are visited", "%s (string_list_to_array): the list is not walked from one end to the other" % w)
            elif x.kind == "arg":
                r.bad("C23:array:start", "%s (string_list_to_array): the walk starts at the head of the list, which is no folder" % w)


def counts(r, v, fill):
    """the loop that counts the folders stops at the head of the list only"""
    for h, body in v.loops.items():
        if h is fill:
            continue
        n = [i for i in h.insts if i.opc == "phi" and i.ty != "ptr" and any(strip(x).kind == "int" and strip(x).c == 0 for x, b in i.inc if b not in body)]
        a = [i for i in h.insts if i.opc == "phi" and i.ty == "ptr"]
        if len(n) != 1 or len(a) != 1:
            continue
        t = h.term
        c = strip(t.ops[0]) if t.opc == "br" and len(h.succs) == 2 else None
        used = any(i.opc == "store" and strip(i.ops[0]) is n[0] for i in v.f.insts())
        if c is None or c.kind != "inst" or c.opc != "icmp" or v.f.params[0] not in [strip(o) for o in c.ops] or not used:
            continue
        o = [strip(o) for o in c.ops if strip(o) is not v.f.params[0]]
        if o and o[0].kind == "inst" and o[0].opc == "load" and v.base(o[0].ops[0]) is a[0]:
            ini = [strip(x) for x, b in a[0].inc if b not in body]
            r.require(all(x is v.f.params[0] for x in ini), "C23:array:count", "all folders are counted", "%s (string_list_to_array): the last folder is not counted" % t.where)
        elif o and o[0] is a[0]:
            ini = [strip(x) for x, b in a[0].inc if b not in body]
            r.require(not any(x is v.f.params[0] for x in ini), "C23:array:count", "all folders are counted", "%s (string_list_to_array): no folders are counted" % t.where)
            s = v.round(h, lambda i: B(3) if i is n[0] else None)
            b = v.back(s, n[0])
            if b is not None:
                r.require(b == B(4), "C23:array:count", "all folders are counted", "%s (string_list_to_array): folders are miscounted" % t.where)


def mhnames(r):
    """the test for MH message names takes every number, with one dot at the end or not"""
    if not base_prog().has("valid_mh_filename_p"):
        r.notes.append("valid_mh_filename_p not present")
        return
    v = T("valid_mh_filename_p")
    f = v.f
    if len(v.loops) != 1:
        r.notes.append("valid_mh_filename_p not recognised")
        return
    (h, body), = v.loops.items()
    w = h.insts[-1].where
    cl = {i for i in f.insts() if i.opc == "load" and i.ty == "i16"}
    ch = {i for i in f.insts() if i.opc == "load" and i.ty == "i8"}

    def at(i):
        k = [x[1].c for x in v.p.s.gepsteps(i.ops[0])[1] if x[0] == "[]" and x[1].kind == "int"]
        return sum(k)

    def pin(c0, c1):
        def go(i):
            if i in cl:
                return B(0x800 if c0.isdigit() else 4)
            if i in ch:
                k = at(i)
                return B(ord(c0)) if k == 0 else B(ord(c1)) if k == 1 else None
            if i.opc == "call" and i.cname == "isdigit":
                return B(NZ if c0.isdigit() else 0)
            return None
        return go
    outs = [x for b in body for x in b.succs if x not in body]
    for d in "0123456789":
        for n in ("\0", "5", "0", "."):
            s = Sccp(f, pin=pin(d, n), avoid=[h], args={}, cap=24)
            x = v.result(s)
            if x is not None:
                r.require(0 not in x, "C23:mh:first", "MH: a name starting with %s is tested" % d, "%s (valid_mh_filename_p): the name of an MH message starting with '%s%s' is refused" % (w, d, n.strip("\0")))
            s = Sccp(f, pin=pin(d, n), entry=h, args={}, cap=24)
            got = retvals(v, s, h)
            if got is None:
                r.notes.append("valid_mh_filename_p not decided for '%s'" % d)
            else:
                r.require(0 not in got, "C23:mh:digit", "MH: the digit %s is taken" % d, "%s (valid_mh_filename_p): an MH message whose name has the digit %s%s is not found" % (w, d, "" if n == "\0" else " before '%s'" % n))
    s = Sccp(f, pin=pin(".", "\0"), entry=h, args={}, cap=24)
    got = retvals(v, s, h)
    if got:
        r.require(0 not in got, "C23:mh:dot", "MH: a dot at the end is taken", "%s (valid_mh_filename_p): an MH message whose name ends with a dot is not found" % w)
    for c0, c1 in ((".", "5"), ("a", "\0"), ("a", "5"), (",", "5"), ("-", "5"), (" ", "5")):
        s = Sccp(f, pin=pin(c0, c1), entry=h, args={}, cap=24)
        got = retvals(v, s, h)
        if got is not None and len(got) == 1:
            r.require(got == B(0), "C23:mh:other", "MH: '%s' is not part of a number" % c0, "%s (valid_mh_filename_p): a file whose name has the character '%s' is taken as an MH message" % (w, c0))
    s = Sccp(f, pin=pin("\0", "x"), args={}, cap=24)
    got = v.result(s)
    if got is not None and len(got) == 1:
        r.require(got == B(0), "C23:mh:empty", "MH: the empty name is none", "%s (valid_mh_filename_p): an empty name is taken as an MH message" % w)


def retvals(v, s, h):
    """values returned on leaving the function before another round"""
    out = set()
    for b in s.blocks:
        if b.term.opc == "ret":
            x = s.get(b.term.ops[0])
            if x is None:
                return None
            out |= x
    return frozenset(out)


def mboxes(r):
    """the mboxes found: plain files always, links if they are to be followed"""
    if not base_prog().has("build_mbox_lists"):
        r.notes.append("build_mbox_lists not present")
        return
    v = T("build_mbox_lists")
    f = v.f
    A = f.params
    ex = list(f.calls("glob_and_expand_paths"))
    if len(ex) != 1 or len(A) != 5:
        r.notes.append("expansion of the mbox paths not recognised")
        return
    ex = ex[0]
    key = "C23:list:mbox"
    for k, a, what in ((0, 1, "base folder"), (6, 3, "omit patterns")):
        x = strip(ex.args[k])
        if x.kind in ("arg", "null", "zero"):
            r.require(x is A[a], key + ":" + what.replace(" ", "-"), "mbox: %s used" % what, "%s (build_mbox_lists): the %s is not used for mbox folders" % (ex.where, what))
    for c in f.calls("split_on_colons"):
        if not sym.inst_dominates(v.dom, c, ex):
            continue
        n, x = strip(ex.args[2]), strip(c.args[0])
        if n.kind == "inst" and n.opc == "load":
            r.require(strip(n.ops[0]) is strip(c.args[1]), key + ":all", "mbox: all given paths are expanded", "%s (build_mbox_lists): not all the mbox paths given are expanded" % ex.where)
        elif n.kind == "int":
            r.bad(key + ":all", "%s (build_mbox_lists): only %d of the mbox paths given is expanded" % (ex.where, n.c))
        if x.kind == "arg":
            r.require(x is A[2], key + ":paths", "mbox: the given list is split", "%s (build_mbox_lists): the wrong list of mboxes is split" % c.where)
    fp = [i for i in f.insts() if i.opc == "store" and i.ops[0].ty == "ptr" and v.inner(i.bb) is not None and any(q.endswith("extant_mbox.full_path") or q.endswith("extant_mbox[].full_path") for q in v.ap(i))]
    if not fp:
        fp = [i for i in f.insts() if i.opc == "store" and i.ops[0].ty == "ptr" and v.inner(i.bb) is not None and [c for c in f.calls(*STAT) if v.inner(c.bb) is v.inner(i.bb)] and not v.base(i.ops[1]).kind == "global"]
    hs = {v.inner(i.bb) for i in fp}
    if len(hs) != 1:
        r.notes.append("list of mboxes found not recognised")
        return
    h = hs.pop()
    body = v.loops[h]
    w = fp[0].where
    st = [c for c in f.calls(*STAT) if c.bb in body]
    md = {i for i in v.loads("stat.st_mode") if i.bb in body}
    ix = [v.idx(i.ops[1]) for i in fp]
    L = v.counted(h)
    n = [q for q in h.insts if q.opc == "phi" and q.ty != "ptr" and q in ix] or [q for q in h.insts if q.opc == "phi" and q.ty != "ptr" and not (L and q is L.phi)]
    if len(n) != 1 or not st or not md:
        r.notes.append("list of mboxes found not recognised")
        return
    n = n[0]
    for mode, follow, l, t, want, what in ((REG, 0, 0, 0, 1, "a file"), (REG, 1, 0, 0, 1, "a file"), (LNK, 0, 0, 0, 0, "a symbolic link (not to be followed)"), (LNK, 1, 0, 0, 1, "a symbolic link (to be followed)"), (LNK, 1, 0, -1, 0, "a dangling link"), (REG, 0, -1, -1, 0, "a file that cannot be examined")):
        s = v.round(h, lambda i: B(mode) if i in md else B(l if c_l(i) else t) if i in st else B(NZ) if i.opc == "call" and i.cname == "malloc" else B(3) if i is n else None, args={A[4]: B(NZ if follow else 0)})
        b = v.back(s, n)
        on = [i for i in fp if i.bb in s.blocks]
        if want:
            r.require(bool(on) and not v.skips(s, h, on), key + ":add", "%s is listed" % what, "%s (build_mbox_lists): an mbox that is %s is not always listed" % (w, what))
            for i in on:
                x = s.get(v.idx(i.ops[1])) if v.idx(i.ops[1]) is not None else None
                if x is not None:
                    r.require(x == B(3), key + ":place", "in the next place", "%s (build_mbox_lists): mboxes found are not put into the next place of the list" % i.where)
                elif v.idx(i.ops[1]) is not None and L and v.idx(i.ops[1]) is L.phi and n is not L.phi:
                    r.bad(key + ":place", "%s (build_mbox_lists): mboxes found are not put into the next place of the list" % i.where)
                fl = v.flat(i.ops[0], None)
                if not any("?" in y for y in fl) and len(fl) > 1:
                    r.bad(key + ":name", "%s (build_mbox_lists): an mbox is listed as %s" % (i.where, " ".join(fl)))
            if b is not None:
                r.require(b == B(4), key + ":count", "%s is counted" % what, "%s (build_mbox_lists): an mbox that is %s is not counted once" % (w, what))
        else:
            if b is not None and len(b) == 1:
                r.require(b == B(3), key + ":not", "%s is left out" % what, "%s (build_mbox_lists): %s is listed as an mbox" % (w, what))
        oth = [e for e in v.leaves(s, h) if not (L and L.bound_exit and e[0] is L.bound_exit[0])]
        r.require(not oth, key + ":stop", "the scan goes on after %s" % what, "%s (build_mbox_lists): the list of mboxes ends at %s" % (w, what))
    if L and L.phi is not None:
        cz = loopinfo.covers_from_zero(L)
        if cz:
            r.require(cz[0] == 0 and cz[2] == 0, key + ":every", "every mbox path is looked at", "%s (build_mbox_lists): only paths [%s, n%+d) of the mbox paths are looked at" % (w, cz[0], cz[2]))


def c_l(i):
    return i.cname.startswith("l")
