"""C17: d: and z: ranges select what lies between their endpoints."""
import searchview, sym, loopinfo
from sccp import Sccp, NZ
from vec import Vec
from util import strip

FLOOR = 25
B = lambda x: frozenset([x])


def alloca_of(p, v):
    b = p.s.gepsteps(v)[0]
    return b if b.kind == "inst" and b.opc == "alloca" else None


def hits(p, f, V, table):
    """[(header, body, counted loop, stores of a hit, loads of table[i])] of the loops over the messages that read `table`"""
    out = []
    for h, body in V.loops.items():
        lds = [i for b in body for i in b.insts if i.opc == "load" and p.s.paths(i) == {"read_db.%s[]" % table}]
        sts = [i for b in body for i in b.insts if i.opc == "store" and V.array_of(i) is not None]
        if lds and sts:
            out.append((h, body, V.info[h], sts, lds))
    return out


def want(v, start, end):
    """None: an endpoint itself"""
    if start is not None and end is not None and start > end:
        start, end = end, start
    if start is not None and v == start:
        return "start"
    if end is not None and v == end:
        return "end"
    return (start is None or v > start) and (end is None or v < end)


def decide(r, V, s, H, key, what, expect, where):
    h, body, L, sts, lds = H
    a = V.array_of(sts[0])
    outs = [e for e in s.memout if e[0] is h and e[1] not in body]
    got = set()
    for e in outs:
        y = s.memout[e].get(a)
        got |= {None} if y is None else set(y)
    if not outs or None in got or len(got) > 1:
        r.notes.append("%s: not decided (%s)" % (what, sorted(map(str, got))))
        return None
    hit = got != {0}
    if expect is not None:
        r.require(hit == expect, key, what, "%s (do_search): %s %s" % (where, what, "is not selected" if expect else "is selected"))
    return hit


def selection(r, p, f, V):
    nload = {i for i in f.insts() if i.opc == "load" and p.s.paths(i) == {"read_db.n_msgs"}}

    def runit(entry, H, v, pin0, effect0):
        h, body, L, sts, lds = H
        arr = V.array_of(sts[0])
        ld = set(lds)

        def pin(i):
            if i in ld:
                return B(v)
            if i in nload:
                return B(7)
            return pin0(i)

        def cell(i):
            if i in sts:
                return arr
            if V.cell(i) is arr:
                return arr
            a = alloca_of(p, i.ops[1] if i.opc == "store" else i.ops[0])
            return a

        def effect(i, st):
            V.effect(i, st)
            effect0(i, st)
        out = [x for x in h.succs if x not in body]
        init = {arr: B(0)}
        return Sccp(f, pin=pin, entry=entry, avoid=out, cell=cell, init=init, once=dict(V.loops), effect=effect)

    def coverage(H, table):
        h, body, L, sts, lds = H
        c = loopinfo.covers_from_zero(L)
        from c06 import bound_paths
        if c is None or bound_paths(p, L) != {"read_db.n_msgs"}:
            r.notes.append("range of the loop at %s not recognised" % h.insts[-1].where)
        else:
            r.require(c[0] == 0 and c[2] == 0 and not L.other_exits, "C17:loop:" + table, "the %s loop visits every message" % table,
                      "%s (do_search): the %s comparison leaves out messages (covers [%s, n_msgs%+d)%s)" % (h.insts[-1].where, table, c[0], c[2], ", may stop early" if L.other_exits else ""))
        for i in lds:
            ix = [s[1] for s in p.s.gepsteps(i.ops[0])[1] if s[0] == "[]"]
            if len(ix) == 1:
                r.require(strip(ix[0]) is L.phi, "C17:index:" + table, "%s indexed by the message" % table, "%s (do_search): compares the %s entry of another message" % (i.where, table))
        for i in sts:
            if V.index(i) is not None:
                r.require(V.index(i) is L.phi, "C17:hit:" + table, "hit recorded for the message compared", "%s (do_search): records the hit for another message than the one compared" % i.where)

    # dates
    scans = list(f.calls("scan_date_string"))
    hd = hits(p, f, V, "date_table")
    if not scans or not hd:
        r.notes.append("the date comparison was not found in the search driver (%d calls, %d loops)" % (len(scans), len(hd)))
    for H in hd:
        coverage(H, "date_table")
    for c in scans:
        al = [alloca_of(p, a) for a in c.args[1:5]]
        if None in al or len(hd) != 1:
            r.notes.append("%s: results of scan_date_string not followed" % c.where)
            continue
        s_, hs, e_, he = al
        H = hd[0]
        for a, b in ((None, None), (10, None), (None, 20), (10, 20), (20, 10)):
            for v in (5, 10, 15, 20, 25):
                def eff(i, st):
                    if i is c:
                        st[hs], st[he] = B(int(a is not None)), B(int(b is not None))
                        st[s_], st[e_] = B(a) if a is not None else None, B(b) if b is not None else None
                s = runit(c.bb, H, v, lambda i: B(0) if i is c else None, eff)
                w = want(v, a, b)
                desc = "a message dated %s in the range %s-%s" % (v, "" if a is None else a, "" if b is None else b)
                if w == "start":
                    decide(r, V, s, H, "C17:date:start-day", "a message dated exactly at the start of a date range", True, H[3][0].where)
                elif w == "end":
                    decide(r, V, s, H, None, desc, None, H[3][0].where)
                else:
                    decide(r, V, s, H, "C17:date:%s-%s:%s" % (a, b, v), desc, w, H[3][0].where)
        # failure to parse
        s = runit(c.bb, H, 15, lambda i: B(-1) if i is c else None, lambda i, st: None)
        r.require(not any(i.bb in s.blocks for i in H[3]), "C17:date:unparsable", "an unparsable date expression selects nothing",
                  "%s (do_search): messages are selected although the date expression could not be parsed" % H[3][0].where)

    # sizes
    hz = hits(p, f, V, "size_table")
    if len(hz) != 1:
        r.notes.append("%d loops compare sizes" % len(hz))
        return
    H = hz[0]
    coverage(H, "size_table")
    h = H[0]
    dom = p.dom(f)
    dashes = [c for c in f.calls("strchr", "memchr") if c.args[1].kind == "int" and c.args[1].c == 45 and sym.dominates(dom, c.bb, h)]
    scans = [c for c in f.calls() if c.cname.endswith("sscanf") and dom_reach(c.bb, h)]
    if len(dashes) != 1 or not scans:
        r.notes.append("the parts of a size range were not found (%d dashes, %d conversions)" % (len(dashes), len(scans)))
        return
    dash = dashes[0]
    text = strip(dash.args[0])
    cmpd = {}
    after = set()
    for i in f.insts():
        if i.opc == "icmp" and strip(i.ops[0]) is dash and strip(i.ops[1]) is text:
            cmpd[i] = 0
        elif i.opc == "icmp" and strip(i.ops[1]) is dash and strip(i.ops[0]) is text:
            cmpd[i] = 1
        elif i.opc == "load" and i.ty == "i8":
            b, st = p.s.gepsteps(i.ops[0])
            if strip(b) is dash and len(st) == 1 and st[0][0] == "[]" and st[0][1].kind == "int" and st[0][1].c == 1:
                after.add(i)
    nums, cnts = {}, {}
    for c in scans:
        if len(c.args) >= 3:
            nums[c] = alloca_of(p, c.args[2])
            cnts[c] = alloca_of(p, c.args[3]) if len(c.args) > 3 else None
    suffix = {}
    for i in f.insts():
        if i.opc == "load" and i.ty == "i8":
            b, st = p.s.gepsteps(i.ops[0])
            for s in st:
                if s[0] == "[]" and strip(s[1]).kind == "inst" and strip(s[1]).opc == "load":
                    a = alloca_of(p, strip(s[1]).ops[0])
                    for c in scans:
                        if a is not None and a is cnts.get(c):
                            suffix[i] = c
    if not (cmpd and after and all(nums.values())):
        r.notes.append("the parts of a size range were not recognised (%d comparisons, %d bytes after the dash, %s)" % (len(cmpd), len(after), nums))
        return

    def pins(dashed, left, right, suf, ok=1):
        def pin(i):
            if i is dash:
                return B(NZ if dashed else 0)
            if i in cmpd:
                if i.pred in ("eq", "ne"):
                    return B(int((i.pred == "ne") == bool(left)))
                gt = (i.pred[1] == "g") == (cmpd[i] == 0)
                eq = i.pred[2] == "e"
                if left:
                    return B(int(gt))
                return B(int(eq))
            if i in after:
                return B(50 if right else 0)
            if i in suffix:
                return B(suf.get(suffix[i], 0))
            if i in nums:
                return B(ok)
            return None
        return pin

    def conv(vals):
        def eff(i, st):
            if i in nums:
                st[nums[i]] = B(vals[i]) if i in vals else None
        return eff
    # roles of the conversions: by which part of the text is there
    role = {}
    for nm, (d, l, t) in {"single": (0, 0, 0), "start": (1, 1, 0), "end": (1, 0, 1)}.items():
        s = runit(dash.bb, H, 15, pins(d, l, t, {}), conv({c: 1 for c in scans}))
        role[nm] = [c for c in scans if c.bb in s.blocks]
    s = runit(dash.bb, H, 15, pins(1, 0, 0, {}), conv({}))
    if any(len(x) != 1 for x in role.values()) or any(c.bb in s.blocks for c in scans):
        for nm, x in role.items():
            r.require(len(x) > 0, "C17:size:part:" + nm, "the %s of a size range is read" % nm, "%s (do_search): no number is read for the %s of a size range" % (dash.where, nm))
        r.notes.append("conversions of a size range: %s" % {k: [c.where for c in v] for k, v in role.items()})
        return
    S, E, N = role["start"][0], role["end"][0], role["single"][0]
    cases = []
    for v in (5, 10, 15, 20, 25):
        cases += [((1, 1, 1), {S: 10, E: 20}, v, (10, 20)), ((1, 1, 1), {S: 20, E: 10}, v, (20, 10)), ((1, 1, 0), {S: 10}, v, (10, None)),
                  ((1, 0, 1), {E: 20}, v, (None, 20)), ((0, 0, 0), {N: 20}, v, (None, 20)), ((1, 0, 0), {}, v, (None, None))]
    for (d, l, t), vals, v, rng in cases:
        s = runit(dash.bb, H, v, pins(d, l, t, {}), conv(vals))
        w = want(v, *rng)
        decide(r, V, s, H, "C17:size:%d%d%d:%s-%s:%s" % (d, l, t, rng[0], rng[1], v), "a message of size %d in the range %s" % (v, text_of(d, rng)), w if isinstance(w, bool) else None, H[3][0].where)
    if suffix:
        for part, c, dd in (("start", S, (1, 1, 0)), ("end", E, (1, 0, 1)), ("single", N, (0, 0, 0))):
            if c not in suffix.values():
                r.notes.append("the unit of the %s of a size range was not found" % part)
                continue
            for ch, scale in (("k", 1 << 10), ("K", 1 << 10), ("m", 1 << 20), ("M", 1 << 20), ("", 1)):
                for d in (-1, 1):
                    v = 3 * scale + d
                    rng = (3 * scale, None) if part == "start" else (None, 3 * scale)
                    s = runit(dash.bb, H, v, pins(*dd, {c: ord(ch) if ch else 0}), conv({c: 3}))
                    decide(r, V, s, H, "C17:size:unit:%s:%s:%d" % (part, ch, d), "a message of size 3*%d%+d when the %s of the range is 3%s" % (scale, d, part, ch), want(v, *rng), H[3][0].where)


def text_of(d, rng):
    x = ["" if v is None else str(v) for v in rng]
    return "-".join(x) if d else x[1]


def dom_reach(a, b):
    seen, wl = {a}, [a]
    while wl:
        x = wl.pop()
        if x is b:
            return True
        for s in x.succs:
            if s not in seen:
                seen.add(s)
                wl.append(s)
    return False


KEEPD = {"scan_date_string", "datescan_next_state"}
MONTHS = "jan feb mar apr may jun jul aug sep oct nov dec".split()
MDAYS = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def lastday(m, y):
    return 29 if m == 1 and y % 4 == 0 else MDAYS[m]


def year(y):
    return y - 1900 if y > 100 else y + 100 if y < 70 else y


def meaning(kind, role, now, v1, v3, m):
    """(day, month 0.., year - 1900) a date of this kind stands for; now: latest date it may be"""
    d, mo, y = now
    if kind == "DS_D":
        if v1 > d:
            mo, y = (11, y - 1) if mo == 0 else (mo - 1, y)
        return v1, mo, y
    if kind == "DS_Y":
        return (1, 0, year(v1)) if role == "start" else (31, 11, year(v1))
    if kind == "DS_YYMMDD":
        return v1 % 100, v1 // 100 % 100 - 1, year(v1 // 10000)
    if kind in ("DS_M", "DS_MY", "DS_YM"):
        yy = y - (m > mo) if kind == "DS_M" else year(v3 if kind == "DS_MY" else v1)
        return (1 if role == "start" else lastday(m, yy)), m, yy
    dd = v1 if kind in ("DS_DM", "DS_DMY") else v3
    if kind in ("DS_DM", "DS_MD"):
        return dd, m, y - ((m, dd) > (mo, d))
    return dd, m, year(v3 if kind == "DS_DMY" else v1)


CASES = {"DS_D": [(5, 0, None), (18, 0, None), (25, 0, None)],
         "DS_Y": [(2002, 0, None), (99, 0, None), (3, 0, None), (70, 0, None), (69, 0, None)],
         "DS_YYMMDD": [(20030425, 0, None), (30425, 0, None), (991231, 0, None)],
         "DS_M": [(0, 0, m) for m in range(12)],
         "DS_DM": [(18, 0, m) for m in range(12)] + [(17, 0, 4), (19, 0, 4)],
         "DS_MD": [(0, 18, m) for m in range(12)] + [(0, 17, 4), (0, 19, 4)],
         "DS_DMY": [(18, 2001, m) for m in range(12)] + [(1, 99, 9)], "DS_YMD": [(2001, 18, m) for m in range(12)] + [(99, 1, 9)],
         "DS_MY": [(0, 2003, m) for m in range(12)] + [(0, 2004, 1), (0, 99, 9)], "DS_YM": [(2003, 0, m) for m in range(12)] + [(2004, 0, 1), (1, 0, 9)]}
NOWS = {None: (18, 4, 103), "DS_D": (18, 0, 103)}


def forms(r, p):
    """every text is taken for the kind of date it is documented to be: product of the automaton and the documented forms"""
    import dfa
    from dfa import cls, seq, alt, plus, rep
    s = dfa.Scanner(p, "datescan")
    if not s.ok:
        r.notes.append("the tables of the date automaton were not found")
        return
    r.rule("kind of a date expression: language of every result of the automaton equals the documented form")
    A, D, N = cls("a-zA-Z"), cls("0-9"), cls("1-9")
    day = alt(seq(cls("12"), D), seq(cls("3"), cls("01")))
    dd = alt(N, day)
    yy = alt(seq(cls("04-9"), D), seq(cls("3"), cls("2-9")), seq(N, D, D, D))
    mon = rep(A, 3)
    spec = {"DS_D": dd, "DS_Y": yy, "DS_YYMMDD": alt(rep(D, 6), rep(D, 8)), "DS_SCALED": seq(plus(D), A), "DS_M": mon,
            "DS_DM": seq(dd, mon), "DS_MD": seq(mon, dd), "DS_YM": seq(yy, mon), "DS_MY": seq(mon, yy), "DS_YMD": seq(yy, mon, dd), "DS_DMY": seq(dd, mon, yy)}
    s0, st, rs, sets = dfa.compile_re(spec)
    by = dfa.classes(lambda c: s.tok[c], *[(lambda c, x=x: c in x) for x in sets])
    en = {p.enum(k): k for k in spec}
    fail = p.enum("DS_FAILURE")
    names = {"DS_FAILURE": "no date", "DS_D": "a day", "DS_Y": "a year", "DS_SCALED": "a relative date"}
    got = lambda q: "DS_FAILURE" if q < 0 or s.attr[q] == fail else en.get(s.attr[q], "?")
    bad = 0
    for w, g, x in dfa.difference(0, s.step, got, s0, st, lambda q: "/".join(sorted(rs(q))) or "DS_FAILURE", by, dead=lambda q: q < 0):
        bad += 1
        r.bad("C17:form:%s:%s" % (x, g), "datescan.nfa: '%s' is taken for %s, but is %s" % (w.decode("latin1"), names.get(g, g), names.get(x, x)))
    if not bad:
        r.ok("kinds of dates: %d states of the automaton, %d classes of bytes, %d kinds agree with the documented forms" % (len(s.attr), len(by), len(spec)))
    reader(r, p, "datescan")


def reader(r, p, prefix):
    """the automaton is given every byte of the text, by its class, from its first state on"""
    f = p.fn("scan_date_string")
    n = 0
    for c in f.calls(prefix + "_next_state"):
        tok, stt = strip(c.args[1]), strip(c.args[0])
        while tok.kind == "inst" and tok.opc == "phi" and len(tok.inc) == 1:
            tok = strip(tok.inc[0][0])
        if tok.kind != "inst" or tok.opc != "load" or strip(p.s.gepsteps(tok.ops[0])[0]).name != prefix + "_char2tok":
            r.notes.append("%s: class of the byte not followed" % c.where)
            continue
        ix = [x[1] for x in p.s.gepsteps(tok.ops[0])[1] if x[0] == "[]"]
        v, ext = ix[0] if ix else tok, None
        while v.kind == "inst" and v.opc in ("sext", "zext", "trunc"):
            ext, v = v.opc, v.ops[0]
            if v.ty == "i8":
                break
        n += 1
        r.require(ext != "sext", "C17:class", "%s: bytes are looked up without sign" % c.where, "%s: a byte above 127 is looked up before the start of the table of character classes" % c.where)
        if stt.kind == "inst" and stt.opc == "phi":
            for v, b in stt.inc:
                v = strip(v)
                if v.kind == "int":
                    r.require(v.c == 0, "C17:first", "%s: the automaton begins in its first state" % c.where, "%s: the automaton does not begin in its first state" % c.where)
    if not n:
        r.notes.append("reading of date expressions not found")


def dates(r):
    from prog import inlined_prog
    p = inlined_prog(keep=KEEPD)
    if p.has("scan_date_string"):
        forms(r, p)
    if not p.has("scan_date_string"):
        r.notes.append("scan_date_string not found")
        return
    f = p.fn("scan_date_string")
    dash = [c for c in f.calls("strchr") if c.args[1].kind == "int" and c.args[1].c == 45]
    marks = list(f.calls("mktime"))
    attr = [i for i in f.insts() if i.opc == "load" and p.s.paths(i) == {"@datescan_attr[]"}]
    if len(dash) != 1 or not marks or not attr:
        r.notes.append("date expressions: structure not recognised (%d hyphens, %d times, %d classes)" % (len(dash), len(marks), len(attr)))
        return
    dash = dash[0]
    text = strip(dash.args[0])
    n = len(f.params)
    outs = {f.params[1]: "start", f.params[2]: "has_start", f.params[3]: "end", f.params[4]: "has_end"} if n == 5 else {}
    months = {}
    for c in f.calls("strncasecmp", "strncmp", "strcasecmp"):
        for a in c.args[:2]:
            if a.kind == "global" and a.s is not None and a.s.lower()[:3] in MONTHS:
                months[c] = MONTHS.index(a.s.lower()[:3])
    left, right, moret = {}, {}, set()
    for i in f.insts():
        if i.opc != "icmp":
            continue
        for k in (0, 1):
            a, b = i.ops[k], i.ops[1 - k]
            ba, sa = p.s.gepsteps(a)
            if strip(a) is dash and strip(b) is text:
                left[i] = k
            elif strip(ba) is dash and len(sa) == 1 and sa[0][1].kind == "int" and sa[0][1].c == 1 and b.ty == "ptr" and b.kind != "null" and i.pred not in ("eq", "ne"):
                # hyphen+1 against the end of the text (not an initial value of a scanning loop)
                right[i] = k
        if i not in left and i not in right and i.ops[0].ty == "ptr" and i.pred[1:] in ("lt", "gt", "le", "ge"):
            moret.add(i)
    for h, body in sym.loops(f).items():
        if any(i.opc == "call" and i.cname == "datescan_next_state" for b in body for i in b.insts):
            moret -= {i for b in body for i in b.insts}
    after = {i for i in f.insts() if i.opc == "load" and i.ty == "i8" and strip(p.s.gepsteps(i.ops[0])[0]) is dash and len(p.s.gepsteps(i.ops[0])[1]) == 1 and
             p.s.gepsteps(i.ops[0])[1][0][1].kind == "int" and p.s.gepsteps(i.ops[0])[1][0][1].c == 1}
    # numbers: x = x*10 + digit
    nums = []
    for i in f.insts():
        if i.opc == "phi" and i.ty in ("i32", "i64"):
            for v, b in i.inc:
                t = v
                for _ in range(4):
                    if t.kind != "inst":
                        break
                    if t.opc == "mul" and t.ops[0] is i and t.ops[1].kind == "int" and t.ops[1].c == 10:
                        nums.append(i)
                        break
                    t = next((o for o in t.ops if o.kind == "inst" and (o.opc in ("add", "sub", "mul"))), t.ops[0]) if t.opc in ("add", "sub", "mul") else None
                    if t is None:
                        break
    dom = p.dom(f)
    mark = {}           # class lookup -> block where the reading of its expression starts
    heads = [h for h, body in sym.loops(f).items() if any(i.opc == "call" and i.cname == "datescan_next_state" for b in body for i in b.insts)]
    for a in attr:
        hs = [h for h in heads if sym.dominates(dom, h, a.bb)]
        mark[a] = max(hs, key=lambda h: sum(sym.dominates(dom, g, h) for g in heads)) if hs else a.bb
    first = {x: not any(y is not x and sym.dominates(dom, y.bb, x.bb) and same_part(p, f, y, x, mark.values()) for y in nums) for x in nums}
    scal = {i for i in f.insts() if i.opc == "switch" and {c for c, _ in i.cases} >= {100, 119}}
    scal |= {i for i in f.insts() if i.opc == "icmp" and i.ops[1].kind == "int" and i.ops[1].c in (100, 119, 109, 121) and i.pred in ("eq", "ne") and width8(i.ops[0])}
    sload = set()
    for i in scal:
        v = i.ops[0]
        while v.kind == "inst" and v.opc in ("sext", "zext", "trunc"):
            v = v.ops[0]
        sload.add(v)
    r.require(all(m in months.values() for m in range(12)), "C17:months", "all month names are known", "%s: month names %s are not recognised" % (f.where if hasattr(f, "where") else "dates.c", ",".join(MONTHS[m] for m in range(12) if m not in months.values()))) if months else r.notes.append("month names not recognised")

    def part(i):
        ds = [a for a in attr if sym.dominates(dom, mark[a], i.bb)]
        return max(ds, key=lambda a: sum(sym.dominates(dom, mark[b], mark[a]) for b in attr)) if ds else None
    partof = {}

    def go(kind, hy, lt, rt, v1, v3, m, now, unit=None, second=None):
        """second: (class lookup of the other expression, its kind, v1, v3, m)"""
        seen = {}
        first_ = (kind, v1, v3, m)

        def pin(i):
            kind, v1, v3, m = first_
            if second:
                if i not in partof:
                    partof[i] = part(i)
                if partof[i] is second[0]:
                    kind, v1, v3, m = second[1:]
            if i is dash:
                return B(NZ if hy else 0)
            if i in attr:
                return B(p.enum(kind))
            if i.opc == "call" and i.cname == "datescan_next_state":
                return B(1)
            if i in months:
                return B(0 if months[i] == m else 1)
            if i in left:
                return B(rel(i, left[i], lt))
            if i in right:
                return B(rel(i, 1 - right[i], rt))
            if i in after:
                return B(50 if rt else 0)
            if i in first:
                return B(v1 if first[i] else v3)
            if i in moret:
                return B(int((i.pred[2] == "t") == (m is not None)))
            if i in sload and unit:
                return B(ord(unit))
            if i.opc == "call" and i.cname == "localtime":
                return B(NZ)
            if i.opc == "call" and i.cname == "time":
                return B(10 ** 9)
            return None

        def cell(i):
            return cellkey(p, i)

        def effect(i, st):
            if i.opc != "call":
                return
            if i.cname.startswith("llvm.memcpy") or i.cname == "memcpy":
                d = alloca_of(p, i.args[0])
                s = i.args[1]
                sa = alloca_of(p, s)
                if d is None:
                    return
                src = strip(s)
                for nm in "dmy":
                    if sa is not None:
                        st[(d, nm)] = st.get((sa, nm))
                    elif src.kind == "inst" and src.opc == "call" and src.cname == "localtime":
                        k = nowof(i, src, st)
                        st[(d, nm)] = B(now["dmy".index(nm)]) if k else None
                    else:
                        st[(d, nm)] = None
                if sa is None and src.kind == "inst" and src.opc == "call" and src.cname == "localtime":
                    st[(d, "t")] = st.get((alloca_of(p, src.args[0]), "v"))
            elif i.cname == "time":
                a = alloca_of(p, i.args[0])
                if a is not None:
                    st[(a, "v")] = B(10 ** 9)
            elif i.cname == "mktime":
                a = alloca_of(p, i.args[0])
                if a is not None:
                    seen[i] = tuple(st.get((a, nm)) for nm in "dmy"), st.get((a, "t"))
        nowof = lambda i, src, st: st.get((alloca_of(p, src.args[0]), "v")) == B(10 ** 9)
        s = Sccp(f, pin=pin, cell=cell, init={(pa, "v"): B(0) for pa in outs if outs[pa].startswith("has")}, effect=effect, prog=p)
        return s, seen

    # what is computed for each kind of date, as a period and as either end of a range
    roles = {}
    for mk in marks:
        for st in f.insts():
            if st.opc == "store" and strip(st.ops[0]) is mk and st.ops[1] in outs:
                roles[mk] = outs[st.ops[1]]
    missing = [mk.where for mk in marks if mk not in roles]
    if missing or not roles:
        r.notes.append("date ends computed at %s are not followed to the result" % missing)
    for kind, cs in CASES.items():
        for v1, v3, m in cs:
            for now in {NOWS[None], NOWS.get(kind, NOWS[None])}:
                for hy, lt, rt in ((0, 0, 0), (1, 1, 0), (1, 0, 1), (1, 1, 1)):
                    s, seen = go(kind, hy, lt, rt, v1, v3, m, now)
                    end = meaning(kind, "end", now, v1, v3, m)
                    wanted = {"start": meaning(kind, "start", end if hy and rt else now, v1, v3, m) if not hy or lt else None, "end": end if not hy or rt else None}
                    for mk, (got, _) in seen.items():
                        if mk not in roles or mk.bb not in s.blocks:
                            continue
                        role = roles[mk]
                        w = wanted[role]
                        if w is None:
                            continue
                        if any(g is None or len(g) != 1 for g in got):
                            r.notes.append("%s: %s of %s not decided: %s" % (mk.where, role, kind, got)) if len(r.notes) < 6 else None
                            continue
                        got = tuple(next(iter(g)) for g in got)
                        r.require(got == w, "C17:date:%s:%s:%d%d%d" % (kind, role, hy, lt, rt), "%s of a date of the form %s" % (role, kind),
                                  "%s (scan_date_string): the %s of the date expression of form %s (numbers %s, %s, month %s; latest date %s) is computed as day %d month %d year %d, not day %d month %d year %d" %
                                  (mk.where, role, kind[3:], v1, v3, MONTHS[m] if m is not None else "none", now, got[0], got[1] + 1, got[2] + 1900, w[0], w[1] + 1, w[2] + 1900))
                    for role, w in wanted.items():
                        if w is not None and not any(roles.get(mk) == role and mk.bb in s.blocks for mk in seen):
                            r.notes.append("the %s of a date of form %s is not computed" % (role, kind)) if len(r.notes) < 9 else None
                    for nm in ("has_start", "has_end"):
                        if kind != "DS_YYMMDD" or not outs:
                            continue
                        pa = next(x for x, y in outs.items() if y == nm)
                        okret = set()
                        for b in s.blocks:
                            if b.term.opc == "ret" and b not in s.avoid:
                                y = retstate(s, b, pa)
                                okret |= {None} if y is None else set(y)
                        w = int(not hy or (lt if nm == "has_start" else rt))
                        if okret == {None} or len(okret) != 1:
                            r.notes.append("%s not decided (%s)" % (nm, okret))
                        else:
                            r.require(okret == {w}, "C17:date:%s:%d%d%d" % (nm, hy, lt, rt), "%s for %d%d%d" % (nm, hy, lt, rt),
                                      "dates.c (scan_date_string): a date expression %s hyphen%s%s has its %s %s" % ("with" if hy else "without", ", text before it" if lt else "", ", text after it" if rt else "", "start" if nm == "has_start" else "end", "ignored" if w else "used"))
    # a start relative to the end
    s1, _ = go("DS_YYMMDD", 1, 1, 0, 30425, 0, None, NOWS[None])
    only = [a for a in attr if a.bb in s1.blocks]
    if len(only) == 1:
        for (k2, a1, a3, am), (k1, b1, b3, bm) in ((("DS_DM", 21, 0, 9), ("DS_M", 0, 0, 2)), (("DS_DM", 21, 0, 3), ("DS_M", 0, 0, 2)), (("DS_M", 0, 0, 3), ("DS_DM", 1, 0, 1)),
                                                   (("DS_DM", 1, 0, 0), ("DS_M", 0, 0, 2)), (("DS_M", 0, 0, 3), ("DS_MY", 0, 2001, 2)), (("DS_D", 25, 0, None), ("DS_DM", 20, 0, 2))):
            now = NOWS[None]
            s, seen = go(k1, 1, 1, 1, b1, b3, bm, now, second=(only[0], k2, a1, a3, am))
            end = meaning(k1, "end", now, b1, b3, bm)
            w = {"end": end, "start": meaning(k2, "start", end, a1, a3, am)}
            for mk, (got, _) in seen.items():
                if mk in roles and mk.bb in s.blocks and all(g is not None and len(g) == 1 for g in got):
                    got = tuple(next(iter(g)) for g in got)
                    r.require(got == w[roles[mk]], "C17:date:before:%s:%s-%s" % (roles[mk], k2, k1), "%s of a range from a %s to a %s" % (roles[mk], k2, k1),
                              "%s (scan_date_string): the %s of a range from %s %s to %s %s is computed as %s, not %s (day, month from 0, year-1900)" % (mk.where, roles[mk], k2, (a1, a3, am), k1, (b1, b3, bm), got, w[roles[mk]]))
                elif mk in roles and mk.bb in s.blocks:
                    r.notes.append("%s: range from %s to %s not decided" % (mk.where, k2, k1))
    else:
        r.notes.append("the two expressions of a date range are not told apart")
    for unit, days in (("d", 1), ("w", 7), ("m", 30), ("y", 365)):
        s, seen = go("DS_SCALED", 0, 0, 0, 3, 3, None, NOWS[None], unit)
        for mk, (got, t) in seen.items():
            if mk.bb not in s.blocks or mk not in roles:
                continue
            if t is None or len(t) != 1:
                r.notes.append("%s: relative date in %s not decided (%s)" % (mk.where, unit, t))
                continue
            r.require(t == B(10 ** 9 - 3 * days * 86400), "C17:date:relative:" + unit, "a relative date in %s counts back %d days each" % (unit, days),
                      "%s (scan_date_string): 3%s is taken as %s seconds ago, not %d" % (mk.where, unit, 10 ** 9 - next(iter(t)), 3 * days * 86400))


def retstate(s, b, pa):
    st = dict(s.mem.get(b, {}))
    for i in b.insts:
        if i.opc == "store" and s.cell(i) == (pa, "v"):
            st[(pa, "v")] = s.get(i.ops[0])
    return st.get((pa, "v"))


def rel(i, swapped, there):
    """value of a comparison (a > b meant when `there`, a == b otherwise); swapped: operands the other way round"""
    if i.pred in ("eq", "ne"):
        return int((i.pred == "ne") == bool(there))
    gt = (i.pred[1] == "g") != bool(swapped)
    return int(gt) if there else int(i.pred[2] == "e")


def width8(v):
    while v.kind == "inst" and v.opc in ("sext", "zext", "trunc"):
        v = v.ops[0]
    return v.kind == "inst" and v.opc == "load" and v.ty == "i8"


def cellkey(p, i):
    ptr = i.ops[1] if i.opc == "store" else i.ops[0]
    b, st = p.s.gepsteps(ptr)
    if b.kind == "arg" and not st:
        return (b, "v")
    if b.kind == "inst" and b.opc == "alloca":
        if not st:
            return (b, "v")
        if len(st) == 1 and st[0][0] == "%struct.tm":
            return (b, {12: "d", 16: "m", 20: "y"}.get(st[0][1], st[0][1]))
        return (b, str(st))
    return None


def same_part(p, f, y, x, marks):
    """x and y belong to the reading of the same expression: no class lookup lies between"""
    dom = p.dom(f)
    return not any(sym.dominates(dom, y.bb, a) and sym.dominates(dom, a, x.bb) for a in marks)


def run(r, tier):
    r.rule("a d: or z: range selects exactly the messages between its endpoints, in either order, an omitted endpoint being no limit")
    p = searchview.view()
    f = p.fn("do_search")
    V = Vec(p, f)
    selection(r, p, f, V)
    dates(r)
