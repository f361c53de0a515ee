"""Source mail is never modified."""
from build import AnalysisBroken
from prog import base_prog
from strs import Strs
import sym
LEVEL = "other"
FLOOR = 8

# path-mutating calls: name -> indices of the path arguments that are created/changed/removed
MUT = {"unlink": [0], "remove": [0], "rmdir": [0], "mkdir": [0], "rename": [0, 1], "link": [1], "symlink": [1], "truncate": [0],
       "truncate64": [0], "chmod": [0], "chown": [0], "lchown": [0], "utime": [0], "utimes": [0], "mknod": [0], "mkfifo": [0],
       "creat": [0], "creat64": [0], "mkstemp": [0], "mkdtemp": [0], "unlinkat": [1], "renameat": [1, 3], "linkat": [3],
       "symlinkat": [2], "mkdirat": [1], "openat": [], "setxattr": [0], "removexattr": [0], "utimensat": [1], "fchmodat": [1],
       "lsetxattr": [0]}
# of these, the ones that follow a symbolic link at the end of the path and change the file behind it
FOLLOW = {"truncate", "truncate64", "chmod", "chown", "utime", "utimes", "utimensat", "fchmodat", "setxattr", "removexattr"}
EXEC = {"system", "popen", "execl", "execlp", "execle", "execv", "execvp", "execve", "posix_spawn", "posix_spawnp"}
FDMUT = {"ftruncate", "ftruncate64", "fchmod", "fchown", "write", "pwrite", "pwrite64", "futimens", "futimes", "fallocate", "posix_fallocate", "fdopen"}
OWN_HEADS = {"@database_path", "@lock_file_name", "@mfolder", "@folder_base"}


def own(h, t):
    """Is a path with these head/tail origins inside the database, its lock or the results folder?"""
    h = {x for x in h if x not in ("call:fopen", "lit:")}
    badh = sorted(x for x in h if x not in OWN_HEADS)
    if badh:
        return "starts with text from " + ", ".join(badh)
    if "@folder_base" in h and "@mfolder" not in t:
        return "is the folder base without the results folder name"
    for x in t:
        if x.startswith("lit:"):
            if ".." in x:
                return "contains .."
        elif x.startswith("%") or x == "@mfolder" or x.startswith(("dirent.", "utsname.")):
            pass
        else:
            return "contains text from " + x
    if not h:
        return "has no recognised origin"
    return None


def fd_roots(p, v, d=0, seen=None):
    """calls that may have produced a descriptor / stream value"""
    seen = set() if seen is None else seen
    if v in seen or d > 30:
        return set()
    seen.add(v)
    out = set()
    if v.kind == "arg":
        for c in p.callers().get(v.fn, []):
            if v.idx < len(c.args):
                out |= fd_roots(p, c.args[v.idx], d + 1, seen)
        return out
    if v.kind != "inst":
        return out
    if v.opc == "call":
        ts = [t for t in p.targets(v) if not t.decl]
        if not ts:
            return {v}
        for t in ts:
            for b in t.blocks:
                if b.term.opc == "ret" and b.term.ops:
                    out |= fd_roots(p, b.term.ops[0], d + 1, seen)
        return out
    if v.opc == "phi":
        for x, _ in v.inc:
            out |= fd_roots(p, x, d + 1, seen)
    elif v.opc in ("select",):
        out |= fd_roots(p, v.ops[1], d + 1, seen) | fd_roots(p, v.ops[2], d + 1, seen)
    elif v.opc in ("sext", "zext", "trunc", "freeze", "bitcast"):
        out |= fd_roots(p, v.ops[0], d + 1, seen)
    elif v.opc == "load":
        out.add(v)
    return out


def run(r, tier):
    p = base_prog()
    S = Strs(p)
    r.rule("every path argument of a call that creates, changes or removes a file is built from the database path, its lock name or the results folder only")
    r.rule("a file opened at any other path is opened read-only; a shared writable mapping or truncation only ever targets the database descriptor")
    r.rule("a results file is opened for overwriting only after the name has been unlinked (an old result may be a link to the mail itself)")
    r.rule("external commands run only for the configured IMAP pipe")
    n = dict(mutating=0, open=0, mmap=0, fd=0, exec=0)
    opens = {}
    for f in p.defined():
        for c in f.calls():
            nm = c.cname
            if nm is None:
                continue
            if nm in MUT:
                for k in MUT[nm]:
                    n["mutating"] += 1
                    h, t = S.labels(c.args[k])
                    why = own(h, t)
                    r.require(why is None, "mut:%s:%s:%d" % (f.name, nm, k),
                              "%s() in %s at %s acts on %s + %s" % (nm, f.name, c.where, sorted(h), sorted(t)[:8]),
                              "%s() in %s() at %s acts on a path that %s" % (nm, f.name, c.where, why))
                    if why is None and nm in FOLLOW and "@database_path" not in h and "@lock_file_name" not in h:
                        e = p.s.expr(c.args[k])
                        pre = [u for u in f.calls("unlink", "remove") if p.s.expr(u.args[0]) == e and sym.inst_dominates(p.dom(f), u, c)]
                        r.require(pre, "follows-link:%s:%s" % (f.name, nm), "%s() at %s acts on a file of the program's own" % (nm, c.where),
                                  "%s() in %s() at %s acts on the file behind a link left in place of a result" % (nm, f.name, c.where))
            if nm in ("fopen", "fopen64", "freopen", "gzopen", "gzopen64", "BZ2_bzopen", "xzopen"):
                n["open"] += 1
                modes = {q.strip('"') for q in p.ipaths(c.args[1])}
                rd = all(m.startswith("r") and "+" not in m for m in modes)
                if rd:
                    r.ok("%s() in %s at %s opens read-only %s" % (nm, f.name, c.where, sorted(modes)))
                else:
                    h, t = S.labels(c.args[0])
                    why = own(h, t)
                    ok = r.require(why is None, "open-write:%s:%s" % (f.name, nm),
                                   "%s(%s) in %s at %s only inside %s" % (nm, sorted(modes), f.name, c.where, sorted(h)),
                                   "%s() in %s() at %s opens for writing (mode %s) a path that %s" % (nm, f.name, c.where, sorted(modes), why))
                    entry = any(x.startswith("%") for x in t)      # a file in the results folder rather than the mbox results file itself
                    if ok and (entry or any(m.startswith("w") or "r+" in m for m in modes)) and "@database_path" not in h:
                        e = p.s.expr(c.args[0])
                        dom = p.dom(f)
                        pre = [u for u in f.calls("unlink", "remove") if p.s.expr(u.args[0]) == e and sym.inst_dominates(dom, u, c)]
                        r.require(pre, "overwrite-through-link:%s" % f.name,
                                  "results file opened for writing at %s only after unlink of the same name" % c.where,
                                  "%s() in %s() at %s can write through a link left in the results folder into the linked message" % (nm, f.name, c.where))
            if nm in ("open", "open64"):
                n["open"] += 1
                fl = c.args[1]
                h, t = S.labels(c.args[0])
                ro = fl.kind == "int" and (fl.c & 3) == 0 and (fl.c & 0o1100) == 0
                if ro:
                    r.ok("open() in %s at %s is read-only" % (f.name, c.where))
                else:
                    why = own(h, t)
                    excl = fl.kind == "int" and (fl.c & 0o200) and (fl.c & 0o100)
                    ok = r.require(why is None, "open-write:%s:open" % f.name, "open(flags %s) in %s at %s only on %s" % (fl, f.name, c.where, sorted(h)),
                                   "open() with write access in %s() at %s on a path that %s" % (f.name, c.where, why))
                    if ok and not (h <= {"@database_path"}) and not excl:
                        e = p.s.expr(c.args[0])
                        pre = [u for u in f.calls("unlink") if p.s.expr(u.args[0]) == e and sym.inst_dominates(p.dom(f), u, c)]
                        r.require(pre, "overwrite-through-link:%s" % f.name, "results file created at %s after unlink" % c.where,
                                  "open() in %s() at %s can write through a link left in the results folder" % (f.name, c.where))
                opens[c] = (ro, h, t)
            if nm == "openat":
                r.bad("openat:" + f.name, "openat() in %s() at %s is outside the recognised set" % (f.name, c.where))
            if nm in EXEC:
                n["exec"] += 1
                orig = set()
                for a in c.args:
                    if a.ty == "ptr":
                        h, t = S.labels(a)
                        orig |= {x for x in h | t if not x.startswith("lit:")}
                r.require(orig <= {"@imap_pipe", "environ", "@environ"}, "exec:%s:%s" % (f.name, nm), "%s() in %s at %s runs only %s" % (nm, f.name, c.where, sorted(orig)),
                          "%s() in %s() at %s runs a command built from %s" % (nm, f.name, c.where, sorted(orig) or "literals"))
    for f in p.defined():
        for c in f.calls():
            nm = c.cname
            if nm in ("mmap", "mmap64"):
                n["mmap"] += 1
                pr, fl = c.args[2], c.args[3]
                if pr.kind == "int" and not (pr.c & 2):
                    r.ok("mmap in %s at %s has no PROT_WRITE" % (f.name, c.where))
                    continue
                if fl.kind == "int" and (fl.c & 3) == 2:
                    r.ok("mmap in %s at %s is private" % (f.name, c.where))
                    continue
                src = fd_roots(p, c.args[4])
                bad = [o for o in src if not (o.opc == "call" and o in opens and opens[o][1] <= {"@database_path"})]
                r.require(src and not bad, "mmap-write:%s" % f.name, "writable shared mapping in %s at %s is of the database" % (f.name, c.where),
                          "writable shared mapping in %s() at %s of a file other than the database" % (f.name, c.where))
            elif nm in ("mprotect",):
                r.bad("mprotect:" + f.name, "mprotect() in %s() at %s can make mail mappings writable" % (f.name, c.where))
            elif nm in FDMUT:
                n["fd"] += 1
                if nm == "fdopen":
                    modes = {q.strip('"') for q in p.ipaths(c.args[1])}
                    if all(m.startswith("r") and "+" not in m for m in modes):
                        continue
                src = fd_roots(p, c.args[0])
                bad = [o for o in src if o.opc == "call" and o in opens and own(opens[o][1], opens[o][2]) is not None]
                r.require(not bad, "fdmut:%s:%s" % (f.name, nm), "%s() in %s at %s does not act on a mail descriptor" % (nm, f.name, c.where),
                          "%s() in %s() at %s changes a file opened from %s" % (nm, f.name, c.where, [sorted(opens[o][1]) for o in bad]))
    if n["mutating"] < 5 or n["open"] < 6:
        raise AnalysisBroken("too few file operations found: %s" % n)
    r.scope = dict(n, units=len(p.built.units), functions=len(p.defined()))
