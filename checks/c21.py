"""C21: every setting (rc file, environment, option) takes effect on what it names."""
import re
import sym
from prog import inlined_prog
from rounds import View, B, NZ, Sccp
from util import strip

FLOOR = 60
KEEP = {"expand_string", "build_message_list", "build_imap_message_list", "build_mbox_lists", "new_database_from_file", "new_database", "write_database", "dump_database",
        "search_top", "lock_database", "unlock_database", "unlock_and_exit", "update_database", "cull_dead_messages", "imap_start", "colon_sep_string_to_globber_array",
        "member_of", "classify_file", "free_database", "check_message_list_for_duplicates", "main"}
REPLACE = {"base": "base", "imap_pipe": "imap_pipe", "imap_server": "imap_server", "imap_username": "imap_username", "imap_password": "imap_password", "mfolder": "mfolder", "database": "database"}
APPEND = {"maildir": "maildir", "folders": "maildir", "mh": "mh", "mh_folders": "mh", "mbox": "mbox", "imap": "imap", "omit": "omit"}
FLAGS = {"follow_mbox_symlinks": "follow", "nochecks": "nochecks", "sort=date+": "sort"}
FORMATS = {"maildir": "FT_MAILDIR", "mh": "FT_MH", "mbox": "FT_MBOX", "raw": "FT_RAW", "excerpt": "FT_EXCERPT", "imap": "FT_IMAP"}
ENV = {"MAIRIX_FOLDER_BASE": "base", "MAIRIX_MAILDIR_FOLDERS": "maildir", "MAIRIX_MH_FOLDERS": "mh", "MAIRIX_MBOXEN": "mbox", "MAIRIX_MFOLDER": "mfolder", "MAIRIX_DATABASE": "database"}
# setting -> places it must arrive at: (function, argument, {argument: required constant})
SINK = {
    "base": [("build_message_list", 0, {}), ("build_mbox_lists", 1, {}), ("member_of", 1, {})],
    "maildir": [("build_message_list", 1, {2: "FT_MAILDIR"}), ("member_of", 2, {3: "FT_MAILDIR"})],
    "mh": [("build_message_list", 1, {2: "FT_MH"}), ("member_of", 2, {3: "FT_MH"})],
    "mbox": [("build_mbox_lists", 2, {}), ("member_of", 2, {3: "FT_MBOX"})],
    "imap": [("build_imap_message_list", 0, {})],
    "omit": [("colon_sep_string_to_globber_array", 0, {})],
    "database": [("lock_database", 0, {}), ("dump_database", 0, {}), ("search_top", 2, {}), ("new_database_from_file", 0, {}), ("write_database", 1, {}), ("classify_file", 0, {})],
    "imap_pipe": [("imap_start", 0, {}), ("search_top", 7, {})],
    "imap_server": [("imap_start", 1, {}), ("search_top", 8, {})],
    "imap_username": [("imap_start", 2, {}), ("search_top", 9, {})],
    "imap_password": [("imap_start", 3, {}), ("search_top", 10, {})],
    "mformat": [("search_top", 5, {})],
    "sort": [("search_top", 11, {})],
}
# options: what the value of these arguments becomes
ARGS = {"threads": ("search_top", 0), "augment": ("search_top", 1), "format": ("search_top", 5), "check-read": ("new_database_from_file", 1), "check-write": ("write_database", 2),
        "check-purge": ("cull_dead_messages", 1), "unlock": ("lock_database", 1), "fast": ("update_database", 3), "symlinks": ("build_mbox_lists", 4), "sorted": ("search_top", 11)}
DEFAULT = {"threads": 0, "augment": 0, "check-read": 1, "check-write": 1, "check-purge": 1, "unlock": 0, "fast": 0, "symlinks": 0, "sorted": 0}
OPTS = {("-t", "--threads"): ({"threads": 1}, "search_top"), ("-a", "--augment"): ({"augment": 1}, "search_top"), ("-d", "--dump"): ({}, "dump_database"),
        ("-r", "--raw-output"): ({"format": "FT_RAW"}, None), ("-x", "--excerpt-output"): ({"format": "FT_EXCERPT"}, None),
        ("-Q", "--no-integrity-checks"): ({"check-read": 0, "check-write": 0, "check-purge": 0}, None), ("--unlock",): ({"unlock": 1}, None),
        ("-F", "--fast-index"): ({"fast": 1}, None), ("-p", "--purge"): ({}, None), ("-H", "--force-hardlinks"): ({}, None), ("-v", "--verbose"): ({}, None)}
CMP = {"strcmp": (0, 0), "strcasecmp": (1, 0), "strncmp": (0, 1), "strncasecmp": (1, 1), "memcmp": (0, 1)}


def run(r, tier):
    r.rule("each keyword of the rc file, each environment variable and each command-line option changes the setting it names and no other; the setting reaches the code that acts on it; later sources override earlier ones")
    m = M()
    if m.problem:
        r.notes.append(m.problem)
        r.floor_waived = True
        return
    loc = sinks(r, m)
    if m.rc is not None:
        rcfile(r, m, loc)
    else:
        r.notes.append("loop over the lines of the rc file not recognised")
        r.floor_waived = True
    environment(r, m, loc)
    options(r, m, loc)
    flags(r, m, loc)
    folder(r, m, loc)
    scanned(r, m, loc)


class M(View):
    def __init__(self):
        View.__init__(self, inlined_prog(keep=KEEP), "main")
        self.problem = None
        self.cmps = [c for c in self.f.insts() if c.opc == "call" and c.cname in CMP]
        self.cli = self.best({"-f", "-t", "-a", "-o", "-p", "-d", "-r", "-x", "-Q", "-F", "-v"})
        self.rc = self.best({"base", "maildir=", "mh=", "mbox=", "imap=", "imap_pipe=", "mfolder=", "database=", "omit=", "nochecks"}, "imap_server=")
        if self.cli is None:
            self.problem = "loop over the command-line options not recognised"
            return
        a = self.f.params if hasattr(self.f, "params") else self.f.args
        self.argc = self.argv = None
        for i in self.cli.insts:
            if i.opc == "phi":
                ini = [strip(x) for x, b in i.inc if b not in self.loops[self.cli]]
                if len(ini) == 1 and ini[0] is a[0]:
                    self.argc = i
                if len(ini) == 1 and ini[0] is a[1]:
                    self.argv = i
        if self.argc is None or self.argv is None:
            self.problem = "loop over the command-line options not recognised"
            return
        self.init = {}
        for i in self.cli.insts:
            if i.opc == "phi" and i not in (self.argc, self.argv):
                ini = [strip(x) for x, b in i.inc if b not in self.loops[self.cli]]
                if len(ini) == 1 and ini[0].kind == "int":
                    self.init[i] = ini[0].c
                elif len(ini) == 1 and ini[0].kind in ("null", "zero"):
                    self.init[i] = 0
        self.getenvs = {}
        for c in self.f.calls("getenv", "secure_getenv"):
            g = c.args[0]
            if g.kind == "global" and g.s is not None:
                self.getenvs[c] = g.s
        self.first = {c.bb for c in self.f.calls("search_top", "dump_database", "update_database")}

    def best(self, words, *more):
        n = {}
        for c in self.cmps:
            for x in c.args[:2]:
                if x.kind == "global" and x.s is not None and x.s in words | set(more):
                    h = self.inner(c.bb)
                    while h is not None:
                        n.setdefault(h, set()).add(x.s)
                        o = [y for y in self.around(h) if y is not h]
                        h = o[0] if o else None
        c = [(len(self.loops[h]), k, h) for k, (h, w) in enumerate(n.items()) if len(w) >= 5]
        return min(c)[2] if c else None

    def cell(self, i):
        q = self.ap(i)
        if len(q) == 1:
            q, = q
            if q.startswith("@") and "[" not in q and "stderr" not in q:
                return q
        return None

    def cells_used(self):
        """global variables read anywhere in the program"""
        if not hasattr(self, "_used"):
            self._used = {q for f in self.p.defined() for i in f.insts() if i.opc == "load" and i.ops[0].kind == "global" for q in ("@" + sym.gname(i.ops[0].name) if hasattr(i.ops[0], "name") else "",)}
        return self._used

    def roots(self, v, s=None):
        """what a value can be, through phis and selects (feasible edges of s)"""
        out, seen, todo = [], set(), [v]
        while todo:
            x = strip(todo.pop())
            if x in seen:
                continue
            seen.add(x)
            if x.kind == "inst" and x.opc == "phi" and not (s is not None and x.bb is s.entry):
                todo += [y for y, b in x.inc if s is None or (b, x.bb) in s.edges]
            elif x.kind == "inst" and x.opc == "select":
                todo += x.ops[1:]
            else:
                out.append(x)
        return out

    def comp(self, c, text, value=None, inv=None):
        """result of comparing the text (or its value part) with a literal"""
        fold, lim = CMP[c.cname]
        lit = [(k, x.s) for k, x in enumerate(c.args[:2]) if x.kind == "global" and x.s is not None]
        if len(lit) != 1:
            return None
        k, l = lit[0]
        t = text
        if any(x.kind == "inst" and x.opc == "call" and x.cname == "expand_string" for x in self.roots(c.args[1 - k])):
            t = value
        if t is None:
            return None
        if lim:
            if c.args[2].kind != "int":
                n = len(l) if any(x.kind == "inst" and x.opc == "call" and x.cname == "strlen" for x in [strip(c.args[2])]) else None
                if n is None:
                    return None
            else:
                n = c.args[2].c
            # strings compare up to their end; memcmp past it
            t, l = (t + "\0")[:n], (l + "\0")[:n]
        if fold:
            t, l = t.lower(), l.lower()
        return B(0) if t == l else B(1)

    def content(self, m, dom=None, s=None):
        """the pieces a freshly built string is put together from, or None"""
        out = []
        m = strip(m)
        if m.kind == "inst" and m.opc == "call" and m.cname in ("strdup", "new_string", "xstrdup"):
            return [m.args[0]]
        if m.kind == "inst" and m.opc == "call" and m.cname == "strcpy":
            m = strip(self.p.s.gepsteps(m.args[0])[0])
        if not (m.kind == "inst" and m.opc == "call" and m.cname in ("malloc", "calloc", "realloc")):
            return None
        calls = [c for c in self.f.insts() if c.opc == "call" and c.cname in ("strcpy", "strcat", "stpcpy", "memcpy", "sprintf", "snprintf", "strncat", "llvm.memcpy.p0.p0.i64", "__sprintf_chk")
                 and m in [strip(self.p.s.gepsteps(x)[0]) for x in self.roots(c.args[0])]]
        if s is not None:
            calls = [c for c in calls if c.bb in s.blocks]
        calls.sort(key=lambda c: sum(1 for d in calls if d is not c and sym.inst_dominates(self.dom, d, c)))
        for c in calls:
            if c.cname in ("sprintf", "snprintf"):
                k = 1 if c.cname == "sprintf" else 2
                fm = c.args[k]
                if fm.kind != "global" or fm.s is None:
                    return None
                n = k + 1
                for part in re.findall(r"%s|[^%]+|%.", fm.s):
                    if part == "%s":
                        out.append(c.args[n])
                        n += 1
                    elif part.startswith("%"):
                        return None
                    else:
                        out.append(part)
            else:
                out.append(c.args[1])
        return out

    def piece(self, x):
        if isinstance(x, str):
            return '"%s"' % x
        x = strip(x)
        if x.kind == "global" and x.s is not None:
            return '"%s"' % x.s
        q = set()
        for y in self.roots(x):
            if y.kind == "inst" and y.opc == "call":
                q.add("expand" if y.cname == "expand_string" else y.cname)
            elif y.kind == "inst" and y.opc == "load":
                q |= self.ap(y)
            elif y.kind in ("null", "zero"):
                continue
            else:
                q.add("?")
        return "|".join(sorted(q))

    def scenario(self, phis=None, cells=None, argv=None, env=(), more=None):
        """propagation from the end of the options to the end of the run"""
        phis = dict(self.init, **{}) | (phis or {})
        body = self.loops[self.cli]

        def pin(i):
            if i in phis:
                return frozenset([phis[i]]) if not isinstance(phis[i], frozenset) else phis[i]
            if i is self.argc:
                return B(1)
            if i is self.argv:
                return B(NZ)
            if i.opc == "call":
                if i in self.getenvs:
                    return B(NZ) if self.getenvs[i] in env or self.getenvs[i] == "HOME" else B(0)
                if i.cname == "fgets":
                    return B(0)
                if i.cname in ("malloc", "expand_string", "strdup", "new_string", "colon_sep_string_to_globber_array", "fopen", "imap_start"):
                    return B(NZ)
                if i.cname in ("exit", "unlock_and_exit"):
                    return None
            if more is not None:
                x = more(i)
                if x is not None:
                    return x
            if argv is not None and i.opc == "load" and i.bb not in body and self.from_argv(i):
                return B(argv)
            return None
        return Sccp(self.f, pin=pin, entry=self.cli, cell=self.cell, init=cells or {}, args={}, cap=24, stop=lambda i: i.opc == "call" and i.cname in ("exit", "unlock_and_exit", "_exit", "abort"))

    def from_argv(self, i):
        b = [strip(x) for x in self.roots(i.ops[0])]
        return bool(b) and all(self.argv in (x, strip(self.p.s.gepsteps(x)[0])) for x in b)

    def reaches(self, s, start, insts, ends):
        """can `ends` be reached from start without executing any of insts?"""
        blocked = {c.bb for c in insts}
        goal = {c.bb for c in ends}
        seen, todo = set(), [start]
        while todo:
            b = todo.pop()
            if b in seen or b in blocked:
                continue
            seen.add(b)
            if b in goal:
                return True
            todo += [y for (a, y) in s.edges if a is b]
        return False


def sinks(r, m):
    """where each setting is kept: the location its users read it from"""
    loc = {}
    for st, places in SINK.items():
        found = {}
        for fn, k, req in places:
            cs = list(m.f.calls(fn))
            if req:
                known = [c for c in cs if all(c.args[a].kind == "int" for a in req)]
                hit = [c for c in known if all(c.args[a].c == m.p.enum(e) for a, e in req.items())]
                if cs and len(known) == len(cs) and not hit:
                    r.bad("C21:sink:%s:%s" % (st, fn), "main: %s is never called for %s" % (fn, "/".join(req.values())))
                cs = hit
            for c in cs:
                q = set()
                for x in m.roots(c.args[k]):
                    if x.kind == "inst" and x.opc == "load":
                        q |= m.ap(x)
                    elif x.kind not in ("null", "zero"):
                        q.add("?")
                if len(q) == 1 and next(iter(q)).startswith("@"):
                    found.setdefault(next(iter(q)), []).append((c, k))
        if not found:
            r.notes.append("place of setting %s not recognised" % st)
            continue
        best = max(found, key=lambda q: len(found[q]))
        loc[st] = best
        m.found = getattr(m, "found", {})
        m.found[st] = found
        for q, cs in found.items():
            r.require(q == best, "C21:sink:%s" % st, "%s: read from %s" % (st, best), "%s (main): %s is called with %s where the setting '%s' (%s) belongs" % (cs[0][0].where, cs[0][0].cname, q, st, best))
    # two settings in one place: the one whose users are outvoted is wrong
    for a in loc:
        for b in loc:
            if a < b and loc[a] == loc[b]:
                x = m.found[a][loc[a]][0][0]
                y = m.found[b][loc[b]][0][0]
                r.bad("C21:shared:%s:%s" % (a, b), "%s and %s (main): the settings '%s' and '%s' are both taken from %s" % (x.where, y.where, a, b, loc[a]))
    return loc


def compares(m, h):
    return [c for c in m.cmps if c.bb in m.loops[h] and any(x.kind == "global" and x.s is not None for x in c.args[:2])]


def gstores(m, s, within):
    """stores to settings that can be executed"""
    out = {}
    for b in within:
        if b in s.blocks:
            for i in b.insts:
                if i.opc == "store":
                    k = m.cell(i)
                    if k is not None:
                        out.setdefault(k, []).append(i)
    return out


def rcfile(r, m, loc):
    h = m.rc
    body = m.loops[h]
    cs = compares(m, h)
    first = [c for c in cs if all(c is d or sym.inst_dominates(m.dom, c, d) for d in cs)]
    if not first:
        r.notes.append("chain of rc keywords not recognised")
        r.floor_waived = True
        return
    first = first[0]
    where = first.where

    def line(text, cells=None):
        val = text.split("=", 1)[1] if "=" in text else None

        def pin(i):
            if i.opc == "call":
                if i.cname in CMP and i in cs:
                    return m.comp(i, text, val)
                if i.cname == "fgets":
                    return B(NZ)
                if i.cname in ("malloc", "expand_string"):
                    return B(NZ)
            if cells and i.opc == "load" and m.cell(i) in cells:
                return B(cells[m.cell(i)])
            return None
        s = m.round(h, pin)
        reach, todo = set(), [first.bb]
        while todo:
            b = todo.pop()
            if b in reach:
                continue
            reach.add(b)
            todo += [y for (a, y) in s.edges if a is b and y in body and y is not h]
        return s, reach

    def judge(text, setting, cells=None):
        s, reach = line(text, cells)
        st = gstores(m, s, reach)
        st.pop("@verbose", None)
        g = loc.get(setting)
        if g is None:
            # no known place: remember it
            if len(st) == 1:
                loc[setting] = g = next(iter(st))
        key = "C21:rc:%s" % text.split("=")[0]
        name = text
        if g is None:
            r.notes.append("place of setting %s not recognised" % setting)
            return None, s, []
        wrong = [k for k in st if k != g and k in set(loc.values())]
        r.require(not wrong, key, "rc line %s: no other setting touched" % name, "%s (rc file): the line '%s' changes %s" % (st[wrong[0]][0].where if wrong else where, name, ", ".join(wrong)))
        mine = st.get(g, [])
        r.require(bool(mine) and not m.reaches(s, first.bb, mine, [h.insts[0]]), key, "rc line %s sets %s" % (name, g), "%s (rc file): the line '%s' does not set %s" % (mine[0].where if mine else where, name, g))
        return g, s, mine

    for up in (False, True):
        for k, st in REPLACE.items():
            text = (k.upper() if up else k) + "=/x"
            g, s, mine = judge(text, st)
            for i in mine:
                rt = m.roots(i.ops[0], None)
                odd = [x for x in rt if not (x.kind in ("null", "zero") or x.kind == "inst" and x.opc == "call" and x.cname == "expand_string")]
                if not odd:
                    r.ok("rc %s: the expanded value is used" % k)
                elif all(x.kind in ("int",) or x.kind == "global" for x in odd):
                    r.bad("C21:rc:%s:value" % k, "%s (rc file): the line '%s' does not use the value given" % (i.where, text))
        for k, st in APPEND.items():
            text = (k.upper() if up else k) + "=/x"
            for old in (0, NZ):
                g0 = loc.get(st)
                g, s, mine = judge(text, st, {g0: old} if g0 else None)
                for i in mine:
                    if i.bb not in s.blocks or g is None:
                        continue
                    rt = m.roots(i.ops[0], s)
                    if old == 0:
                        if all(x.kind in ("null", "zero") or x.kind == "inst" and x.opc == "call" and x.cname == "expand_string" for x in rt):
                            r.ok("rc %s: first value used" % k)
                    else:
                        if any(x.kind == "inst" and x.opc == "call" and x.cname == "expand_string" for x in rt):
                            r.bad("C21:rc:%s:append" % k, "%s (rc file): a second line '%s' replaces the folders given before" % (i.where, text))
                            continue
                        for x in rt:
                            c = m.content(x)
                            if c is None:
                                r.notes.append("rc %s: combined value not recognised" % k)
                                continue
                            got = [m.piece(y) for y in c]
                            if "?" in " ".join(got) or not got:
                                r.notes.append("rc %s: combined value not recognised (%s)" % (k, got))
                                continue
                            ok = sorted(got, key=str) == sorted([g, '":"', "expand"], key=str) and got[1:2] == ['":"']
                            r.require(ok, "C21:rc:%s:append" % k, "rc %s: further values are appended after a colon" % k, "%s (rc file): a second line '%s' makes the setting %s instead of old:new" % (i.where, text, " ".join(got)))
        for k, st in FLAGS.items():
            text = k.upper() if up else k
            g, s, mine = judge(text, st)
            for i in mine:
                x = s.get(i.ops[0])
                if x is not None:
                    r.require(0 not in x, "C21:rc:%s:value" % k, "rc %s switches on" % k, "%s (rc file): the line '%s' switches the setting off" % (i.where, text))
        for k, e in FORMATS.items():
            text = "mformat=" + (k.upper() if up else k)
            g, s, mine = judge(text, "mformat")
            for i in mine:
                x = s.get(i.ops[0])
                if x is not None:
                    r.require(x == B(m.p.enum(e)), "C21:rc:mformat:%s" % k, "rc mformat=%s gives %s" % (k, e), "%s (rc file): the line '%s' selects another format than %s" % (i.where, text, e))
    # what is not a setting changes nothing
    for text in ("sort=size", "xbase=/x", "mformat2=raw", "imap_pip=/x", "datab=/x"):
        s, reach = line(text)
        st = gstores(m, s, reach)
        wrong = [k for k in st if k in set(loc.values())]
        r.require(not wrong, "C21:rc:unknown", "unknown line %s changes nothing" % text, "%s (rc file): the line '%s' changes %s" % (st[wrong[0]][0].where if wrong else where, text, ", ".join(wrong)))


def environment(r, m, loc):
    lock = list(m.f.calls("lock_database"))
    if not lock:
        r.notes.append("call of lock_database not recognised")
        return
    out = [b for b in m.f.blocks if b not in m.loops[m.cli] and (m.rc is None or b not in m.loops[m.rc])]
    rcb = m.loops[m.rc] if m.rc is not None else set()
    cells = {g: B(NZ) for st, g in loc.items() if st in ("base", "database")}
    names = set(m.getenvs.values())
    dyn = any(c for c in m.f.calls("getenv", "secure_getenv") if c not in m.getenvs)
    fopen = [c for c in m.f.calls("fopen") if m.rc is not None and any(sym.inst_dominates(m.dom, c, x) for x in m.rc.insts[-1:])]
    for n, st in ENV.items():
        g = loc.get(st)
        if g is None:
            continue
        key = "C21:env:" + n
        if n not in names:
            if dyn:
                r.notes.append("use of environment variable %s not recognised" % n)
            else:
                r.bad(key, "main: the environment variable %s is not looked at" % n)
            continue
        s = m.scenario(env={n}, cells=dict(cells))
        stores = gstores(m, s, out)
        mine = [i for i in stores.get(g, []) if any(x in m.getenvs and m.getenvs[x] == n for x in m.roots(i.ops[0], s))]
        w = next((c.where for c, q in m.getenvs.items() if q == n), "main")
        r.require(bool(mine) and not m.reaches(s, m.cli, mine, lock), key, "%s sets %s" % (n, g), "%s (main): the environment variable %s does not set %s" % (w, n, g))
        for k, ii in stores.items():
            for i in ii:
                env = {m.getenvs[x] for x in m.roots(i.ops[0], s) if x in m.getenvs}
                if env and k in set(loc.values()):
                    r.require(k == g and env == {n}, key + ":other", "%s sets nothing else" % n, "%s (main): when %s is set, %s is taken from %s" % (i.where, n, k, "/".join(env)))
        s0 = m.scenario(env=(), cells=dict(cells))
        bad = [i for i in mine if i.bb in s0.blocks]
        r.require(not bad, key + ":unset", "without %s %s is kept" % (n, g), "%s (main): %s is overwritten although %s is not set" % (mine[0].where if mine else w, g, n))
        for i in mine:
            if m.rc is not None:
                s2 = Sccp(m.f, entry=i.bb, args={}, cap=4)
                r.require(m.rc not in s2.blocks, key + ":order", "%s overrides the rc file" % n, "%s (main): the rc file is read after %s and overrides it" % (i.where, n))


def word_pin(m, o, given=None):
    """facts while the option word at hand is `o`"""
    init = dict(m.init, **{}) | (given or {})

    def word(x):
        """is x the option word itself?"""
        x = strip(x)
        return x.kind == "inst" and x.opc == "load" and x.ty == "ptr" and m.from_argv(x)

    def pin(i):
        if i is m.argc:
            return B(9)
        if i is m.argv:
            return B(NZ)
        if i in init:
            return B(init[i])
        if i.opc == "call" and i.cname in CMP and any(word(x) for x in i.args[:2]):
            return m.comp(i, o)
        if i.opc == "load" and i.ty == "i8":
            b, st = m.p.s.gepsteps(i.ops[0])
            if word(b):
                k = [x[1].c for x in st if x[0] == "[]" and x[1].kind == "int"]
                k = k[-1] if k else 0
                if k < len(o):
                    return B(ord(o[k]))
        if word(i):
            return B(NZ)
        return None
    return pin


def option(m, o):
    """one round of the option loop"""
    return m.round(m.cli, word_pin(m, o))


def phiset(m, s):
    """header variables after the round: possible values"""
    out = {}
    for i in m.cli.insts:
        if i.opc == "phi" and i in m.init:
            out[i] = m.back(s, i)
    return out


def argval(m, s, name):
    fn, k = ARGS[name]
    cs = [c for c in m.f.calls(fn) if c.bb in s.blocks and k < len(c.args)]
    v = [s.get(c.args[k]) for c in cs]
    if not cs or any(x is None or not x for x in v):
        return None
    return frozenset(y for x in v for y in x)


def truth(x):
    return frozenset(1 if y else 0 for y in x)


def modes(m, s, argv):
    """(can run, must run) for each kind of run"""
    out = {}
    ends = [b.term for b in m.f.blocks if b.term.opc == "ret"]
    for fn in ("search_top", "dump_database", "update_database"):
        cs = [c for c in m.f.calls(fn) if c.bb in s.blocks]
        out[fn] = (bool(cs), bool(cs) and not m.reaches(s, m.cli, cs, ends))
    return out


def options(r, m, loc):
    cells = {g: B(NZ) for st, g in loc.items() if st in ("base", "database", "maildir", "mfolder")}
    flagcells = {g: B(0) for st, g in loc.items() if st in ("follow", "nochecks", "sort")}
    cells.update(flagcells)
    fmt = loc.get("mformat")
    for argv in (0, NZ):
        c = dict(cells)
        if fmt:
            c[fmt] = B(m.p.enum("FT_MAILDIR"))
        s = m.scenario(cells=c, argv=argv)
        md = modes(m, s, argv)
        want = "search_top" if argv else "update_database"
        for fn, (can, must) in md.items():
            if fn == want:
                r.require(can and must, "C21:mode:%s" % fn, "%s: %s" % ("search terms" if argv else "no arguments", fn), "main: with %s, %s is not always called" % ("search terms" if argv else "no search terms", fn))
            else:
                r.require(not can, "C21:mode:not:%s" % fn, "%s: not %s" % ("search terms" if argv else "no arguments", fn), "main: with %s, %s may be called" % ("search terms" if argv else "no search terms", fn))
        for a, v in DEFAULT.items():
            x = argval(m, s, a)
            if x is not None:
                r.require(truth(x) == B(v), "C21:default:" + a, "without options, %s is %d" % (a, v), "%s (main): without options the argument '%s' of %s is %s" % (next(m.f.calls(ARGS[a][0])).where, a, ARGS[a][0], sorted(x)))
        x = argval(m, s, "format")
        if x is not None and argv and fmt:
            r.require(x == B(m.p.enum("FT_MAILDIR")), "C21:default:format", "without options the configured format is used", "main: without options search_top gets another format than the one configured")
    seen = 0
    for names, (eff, mode) in OPTS.items():
        for o in names:
            s1 = option(m, o)
            back = phiset(m, s1)
            # which option literals exist
            if not any(x.kind == "global" and x.s == o for c in m.cmps for x in c.args[:2]):
                r.notes.append("option %s not recognised" % o)
                continue
            seen += 1
            key = "C21:opt:" + o
            av = m.back(s1, m.argc)
            r.require(av is None or av == B(8), key + ":next", "%s takes one word" % o, "main: option %s %s" % (o, "ends the run or the options" if not av else "swallows the next word"))
            if av == frozenset():
                continue
            phis = {i: x for i, x in back.items() if x}
            # ... whatever options came before
            mine = [i for i, x in back.items() if x and x != B(m.init[i]) and i.ty != "ptr"]
            s2 = m.round(m.cli, word_pin(m, o, {i: 1 - (1 if m.init[i] else 0) for i in m.init if i.ty != "ptr" and i not in mine}))
            for i in mine:
                x = m.back(s2, i)
                if x is not None and back[i] is not None:
                    r.require(truth(x) == truth(back[i]), key + ":after", "%s has its effect after any other options" % o, "main: option %s does not always have its effect when given after other options" % o)
            gl = {}
            for b in m.loops[m.cli]:
                if b in s1.blocks:
                    for i in b.insts:
                        if i.opc == "store" and m.cell(i):
                            gl[m.cell(i)] = s1.get(i.ops[0])
            for argv in (NZ, 0):
                c = dict(cells)
                if fmt:
                    c[fmt] = B(m.p.enum("FT_MAILDIR"))
                for k, x in gl.items():
                    if x is not None:
                        c[k] = x
                s = m.scenario(phis=phis, cells=c, argv=argv)
                for a, v in list(DEFAULT.items()) + ([("format", "FT_MAILDIR")] if argv else []):
                    w = eff.get(a, v)
                    x = argval(m, s, a)
                    if x is None:
                        continue
                    if isinstance(w, str):
                        ok = x == B(m.p.enum(w))
                    else:
                        ok = truth(x) == B(w)
                    r.require(ok, key + ":" + a, "%s: %s is %s" % (o, a, w), "%s (main): with option %s the argument '%s' of %s is %s" % (next(m.f.calls(ARGS[a][0])).where, o, a, ARGS[a][0], sorted(x)))
                md = modes(m, s, argv)
                want = mode or ("search_top" if argv else "update_database")
                for fn, (can, must) in md.items():
                    if fn == want:
                        r.require(can and must, key + ":mode", "%s: %s" % (o, fn), "main: with option %s%s, %s is not always called" % (o, " and search terms" if argv else "", fn))
                    else:
                        r.require(not can, key + ":mode:not", "%s: not %s" % (o, fn), "main: with option %s%s, %s may be called" % (o, " and search terms" if argv else "", fn))
            if o in ("-H", "--force-hardlinks", "-v", "--verbose"):
                on = [k for k, x in gl.items() if x is not None and 0 not in x]
                want = "@do_hardlinks" if o in ("-H", "--force-hardlinks") else "@verbose"
                if want in gl or want in m.cells_used():
                    r.require(want in on and not (set(on) & {"@do_hardlinks", "@verbose"}) - {want}, key + ":global", "%s sets %s" % (o, want), "main: option %s does not set %s" % (o, want))
    if not seen:
        r.floor_waived = True
    # options with a value
    for o, what in (("-f", "rc file"), ("--rcfile", "rc file"), ("-o", "results folder"), ("--mfolder", "results folder")):
        if not any(x.kind == "global" and x.s == o for c in m.cmps for x in c.args[:2]):
            r.notes.append("option %s not recognised" % o)
            continue
        s1 = option(m, o)
        key = "C21:opt:" + o
        av = m.back(s1, m.argc)
        r.require(av is None or av == B(7), key + ":next", "%s takes its value" % o, "main: option %s does not take exactly the following word" % o)
        hit = None
        for i in m.cli.insts:
            if i.opc == "phi" and i in m.init and i.ty == "ptr":
                rt = [x for y, b in i.inc if b in m.loops[m.cli] and (b, i.bb) in s1.edges for x in m.roots(y, s1)]
                if rt and all(x is not i for x in rt):
                    hit = (i, rt)
        if hit is None:
            r.require(False, key + ":kept", "", "main: the value of option %s is not kept" % o) if not [i for b in m.loops[m.cli] if b in s1.blocks for i in b.insts if i.opc == "store"] else None
            continue
        i, rt = hit
        for x in rt:
            if x.kind == "inst" and x.opc == "load":
                q = m.lin(x.ops[0])
                g = q.add(m.lin(m.argv), -1)
                if not g.atoms():
                    r.require(g.const == 16, key + ":word", "%s: the word after it" % o, "%s (main): option %s uses the wrong word (%+d) as its value" % (x.where, o, g.const // 8 - 1))
        fo = [c for c in m.f.calls("fopen") if c.bb not in m.loops[m.cli]]
        if what == "rc file":
            fo = [c for c in fo if m.rc is not None and sym.inst_dominates(m.dom, c, m.rc.insts[-1])]
            for val in (NZ, 0):
                s = m.scenario(phis={i: val}, cells=dict(cells), argv=0)
                for c in fo:
                    use = roots_to(m, c.args[0], s, i)
                    if val:
                        r.require(use == {i} or not use, key + ":used", "%s: that file is read" % o, "%s (main): with option %s the default rc file is read" % (c.where, o))
                    else:
                        r.require(i not in use or len(use) > 1, "C21:rc:default", "without -f the default rc file is read", "%s (main): without -f no rc file name is made up" % c.where)
                        for x in use - {i}:
                            ct = m.content(x, s=s)
                            if ct:
                                got = [m.piece(y) for y in ct]
                                if "?" not in " ".join(got):
                                    r.require(got[-1] == '"/.mairixrc"' and "getenv" in got[0], "C21:rc:default", "default rc file $HOME/.mairixrc", "%s (main): the default rc file is %s" % (c.where, " ".join(got)))
        else:
            g = loc.get("mfolder")
            out = [b for b in m.f.blocks if b not in m.loops[m.cli] and (m.rc is None or b not in m.loops[m.rc])]
            lock = list(m.f.calls("lock_database"))
            if g is None or not lock:
                continue
            s = m.scenario(phis={i: NZ}, cells=dict(cells), argv=NZ, env={"MAIRIX_MFOLDER"})
            st = gstores(m, s, out).get(g, [])
            mine = [x for x in st if i in roots_to(m, x.ops[0], s, i)]
            r.require(bool(mine) and not m.reaches(s, m.cli, mine, lock), key + ":used", "%s sets %s" % (o, g), "main: option %s does not set the results folder" % o)
            late = [x for x in st if x not in mine and any(y in m.getenvs for y in m.roots(x.ops[0], s))]
            for x in late:
                for y in mine:
                    s2 = Sccp(m.f, entry=y.bb, args={}, cap=4)
                    r.require(x.bb not in s2.blocks or x.bb is y.bb and sym.inst_dominates(m.dom, x, y), key + ":order", "%s overrides the environment" % o, "%s (main): the environment overrides option %s" % (x.where, o))
            for y in mine:
                if m.rc is not None:
                    s2 = Sccp(m.f, entry=y.bb, args={}, cap=4)
                    r.require(m.rc not in s2.blocks, key + ":rc", "%s overrides the rc file" % o, "%s (main): the rc file overrides option %s" % (y.where, o))
    # anything else that starts with '-' is refused; '--' and other words end the options
    s1 = option(m, "-Z")
    r.require(not m.back(s1, m.argc), "C21:opt:unknown", "unknown options are refused", "main: an unknown option is accepted")
    top = list(m.f.calls("search_top"))
    for o, off in (("--", 16), ("word", 8)):
        s1 = option(m, o)
        ex = [(a, b) for (a, b) in s1.edges if a in m.loops[m.cli] and b not in m.loops[m.cli]]
        av = m.back(s1, m.argc)
        if not top or len(top[0].args) < 5:
            continue
        r.require(not av, "C21:opt:end:" + o, "'%s' ends the options" % o, "main: the word '%s' does not end the options" % o)
        full = Sccp(m.f, pin=word_pin(m, o), entry=m.cli, args={}, cap=24)
        for x in m.roots(top[0].args[4], full):
            g = m.lin(x).add(m.lin(m.argv), -1)
            if not g.atoms() and (x.kind == "inst"):
                ok = g.const == off
                r.require(ok, "C21:opt:terms:" + o, "search terms start %s" % ("after '--'" if o == "--" else "with the first word that is no option"), "%s (main): after '%s' the search terms start at the wrong word" % (top[0].where, o))


def roots_to(m, v, s, stop):
    out, seen, todo = set(), set(), [v]
    while todo:
        x = strip(todo.pop())
        if x in seen:
            continue
        seen.add(x)
        if x is stop or x.kind != "inst" or x.opc not in ("phi", "select"):
            if x.kind not in ("null", "zero", "int"):
                out.add(x)
        elif x.opc == "phi":
            if x.bb is s.entry:
                out.add(x)
            else:
                todo += [y for y, b in x.inc if (b, x.bb) in s.edges]
        else:
            todo += x.ops[1:]
    return out


def flags(r, m, loc):
    """rc flags reach what they govern"""
    base = {g: B(NZ) for st, g in loc.items() if st in ("base", "database", "maildir", "mfolder")}
    for st, eff in (("nochecks", {"check-read": 0, "check-write": 0, "check-purge": 0}), ("follow", {"symlinks": 1}), ("sort", {"sorted": 1})):
        g = loc.get(st)
        if g is None:
            continue
        c = dict(base)
        for o in ("nochecks", "follow", "sort"):
            if loc.get(o):
                c[loc[o]] = B(1 if o == st else 0)
        s = m.scenario(cells=c)
        for a, v in DEFAULT.items():
            x = argval(m, s, a)
            if x is None:
                continue
            w = eff.get(a, v)
            r.require(truth(x) == B(w), "C21:flag:%s:%s" % (st, a), "rc %s: %s is %d" % (st, a, w), "%s (main): with the rc setting '%s' the argument '%s' of %s is %s" % (next(m.f.calls(ARGS[a][0])).where, st, a, ARGS[a][0], sorted(x)))
    g = loc.get("omit")
    calls = list(m.f.calls("colon_sep_string_to_globber_array"))
    if g and calls:
        for val in (NZ, 0):
            s = m.scenario(cells=dict(base, **{g: B(val)}))
            for fn, k in (("build_message_list", 4), ("build_imap_message_list", 2), ("build_mbox_lists", 3), ("member_of", 4)):
                for c in m.f.calls(fn):
                    if c.bb not in s.blocks:
                        continue
                    rt = m.roots(c.args[k], s)
                    known = all(x in calls or x.kind in ("null", "zero") for x in rt)
                    if known and val:
                        r.require(bool(rt) and all(x in calls for x in rt), "C21:omit:" + fn, "omit patterns reach %s" % fn, "%s (main): the omit patterns are not passed to %s" % (c.where, fn))


def folder(r, m, loc):
    """the results folder: as given if it starts with / or ./ or is an IMAP folder, otherwise below base"""
    g, b, fmt = loc.get("mfolder"), loc.get("base"), loc.get("mformat")
    top = list(m.f.calls("search_top"))
    if not g:
        return
    if not top or not b or not fmt:
        return
    ch = {}
    for i in m.f.insts():
        if i.opc == "load" and i.ty == "i8" and m.ap(i) and all(q in (g + "[]", g, g + "[0]", g + "[1]") for q in m.ap(i)):
            base, st = m.p.s.gepsteps(i.ops[0])
            if base.kind == "inst" and base.opc == "load" and m.cell(base) == g:
                k = [x[1].c for x in st if x[0] == "[]" and x[1].kind == "int"]
                if len(k) == len(st):
                    ch[i] = k[-1] if k else 0
    mc = {c for c in m.cmps if any(x.kind == "inst" and x.opc == "load" and m.cell(x) == g for a in c.args[:2] for x in m.roots(a))}
    if not ch and not mc:
        r.notes.append("test for an absolute results folder not recognised")
        return
    base = {q: B(NZ) for q in (g, b, loc.get("database")) if q}
    cases = [("/x", "FT_MAILDIR", 1), ("./", "FT_MH", 1), ("ab", "FT_MAILDIR", 0), (".m", "FT_MBOX", 0), ("a/", "FT_MH", 0), ("ab", "FT_IMAP", 1), ("/x", "FT_IMAP", 1)]
    for txt, e, asis in cases:
        s = m.scenario(cells=dict(base, **{fmt: B(m.p.enum(e))}), argv=NZ, more=lambda i: B(ord(txt[ch[i]])) if i in ch else m.comp(i, txt + "z") if i in mc else None)
        for c in top:
            if c.bb not in s.blocks:
                continue
            rt = m.roots(c.args[3], s)
            if len(rt) != 1:
                r.notes.append("name of the results folder not decided for '%s'" % txt)
                continue
            for x in rt:
                ct = m.content(x, s=s)
                if ct is None:
                    if x.kind == "inst" and x.opc == "load":
                        got = sorted(m.ap(x))
                    else:
                        r.notes.append("name of the results folder not recognised")
                        continue
                else:
                    got = [m.piece(y) for y in ct]
                if "?" in " ".join(got):
                    r.notes.append("name of the results folder not recognised")
                    continue
                want = [g] if asis else [b, '"/"', g]
                r.require(got == want, "C21:folder:%s:%s" % (txt, e), "results folder '%s..' (%s): %s" % (txt, e, " ".join(want)), "%s (main): a results folder starting with '%s' (%s) becomes %s instead of %s" % (c.where, txt, e, " ".join(got), " ".join(want)))
        for c in m.f.calls("member_of"):
            if c.bb in s.blocks and top and m.roots(c.args[0], s) and all(t.bb in s.blocks for t in top):
                a, t = set(m.roots(c.args[0], s)), set(m.roots(top[0].args[3], s))
                if len(a) == 1 and len(t) == 1:
                    r.require(a == t, "C21:folder:guard", "the folder searched into is the one that is checked", "%s (main): another folder is checked than the one results go to" % c.where)


def scanned(r, m, loc):
    """each kind of configured folder is scanned in an indexing run"""
    base = {loc[q]: B(NZ) for q in ("base", "database") if q in loc}
    kinds = {"maildir": ("build_message_list", {2: "FT_MAILDIR"}), "mh": ("build_message_list", {2: "FT_MH"}), "imap": ("build_imap_message_list", {})}
    upd = list(m.f.calls("update_database"))
    if not upd:
        return
    for st, (fn, req) in kinds.items():
        g = loc.get(st)
        if not g:
            continue
        c = dict(base)
        for o in ("maildir", "mh", "mbox", "imap", "imap_pipe", "imap_server"):
            if loc.get(o):
                c[loc[o]] = B(0)
        c[g] = B(NZ)
        if st == "imap" and loc.get("imap_server"):
            c[loc["imap_server"]] = B(NZ)
        s = m.scenario(cells=c, argv=0)
        cs = [x for x in m.f.calls(fn) if all(x.args[k].kind == "int" and x.args[k].c == m.p.enum(e) for k, e in req.items())]
        if not cs:
            continue
        on = [x for x in cs if x.bb in s.blocks]
        r.require(bool(on) and not m.reaches(s, m.cli, on, upd), "C21:scan:" + st, "%s folders are scanned" % st, "%s (main): with only %s folders configured they are not always scanned" % (cs[0].where, st))
