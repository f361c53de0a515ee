"""C14: an mbox message is output only if its bytes are those that were indexed."""
import sym
from sccp import Sccp, NZ
from util import strip
from c12 import D, FT, WRITE, B, Sccp_ft, sccp_loop, skip_path, path_of, packed, idx_ok, codes

FLOOR = 15
SINK = WRITE | {"imap_append_new_message", "data_to_rfc822"}


def data_len(c):
    if c.cname == "imap_append_new_message":
        return c.args[2], c.args[3]
    if c.cname in ("data_to_rfc822", "write"):
        return c.args[1], c.args[2]
    return c.args[0], c.args[2]


def mapping_of(d, v):
    """cells holding a file mapping that v points into"""
    out = set()
    for x in d.roots(v):
        b = strip(d.p.s.gepsteps(x)[0])
        for y in d.roots(b):
            y = strip(d.p.s.gepsteps(y)[0])
            if y.kind == "inst" and y.opc == "load" and d.alloca(y.ops[0]) is not None:
                out.add(d.alloca(y.ops[0]))
    return out


def run(r, tier):
    r.rule("bytes taken from an mbox are output only after the checksum over exactly those bytes has been found equal to the one recorded for that message; otherwise the message is left out and a warning given")
    d = D()
    p, f = d.p, d.f
    if d.problem or d.ftarg is None:
        r.notes.append(d.problem or "result format parameter not recognised")
        r.floor_waived = True
        return
    sw = Sccp_ft(d)
    T = codes()["DB_MSG_MBOX"]
    maps = list(f.calls("create_ro_mapping"))
    warn = warning(r, d)
    nsink = 0
    for ftn, what in FT.items():
        for h in [h for h in d.deliv if h in sw[ftn]]:
            body, L, lds = d.deliv[h]
            lds = set(lds)
            ok = sccp_loop(d, h, body, p.enum(ftn), T, sums=0)
            bad = sccp_loop(d, h, body, p.enum(ftn), T, sums=1)
            sinks = [c for b in body if b in ok.blocks for c in b.insts if c.opc == "call" and c.cname in SINK and mapping_of(d, data_len(c)[0])]
            sums = [c for b in body if b in ok.blocks for c in b.insts if c.opc == "call" and c.cname == "compute_checksum"]
            cmps = [c for b in body if b in ok.blocks for c in b.insts if c.opc == "call" and c.cname in ("memcmp", "bcmp")]
            if not sinks:
                continue
            for c in sinks:
                nsink += 1
                key = "C14:%s:%s" % (ftn, c.cname)
                r.require(c.bb not in bad.blocks, key, "%s output at %s only if the checksum is right" % (what, c.where),
                          "%s (do_search): in %s format the bytes at the place of an mbox message are output although their checksum is not the recorded one" % (c.where, what))
                same_region(r, d, c, sums, key, what)
                mp = mapping_of(d, data_len(c)[0])
                live = unmapped_before(d, c, mp, body)
                r.require(not live, key + ":unmap", "the mailbox is still mapped when output at %s" % c.where, "%s (do_search): the mailbox has already been released when the message is output" % c.where)
            for c in cmps:
                compare(r, d, c, sums, lds, "C14:cmp:" + ftn)
            if warn is not None and sums:
                st = [i for b in body for i in b.insts if i.opc == "store" and i.ops[1] is warn and bad.get(i.ops[0]) not in (None, B(0)) and 0 not in bad.get(i.ops[0])]
                r.require(bool(st) and not skip_path(bad, h, body, st), "C14:warn:" + ftn, "a failed checksum leads to the warning (%s)" % what,
                          "%s (do_search): a failed checksum of an mbox message gives no warning in %s format" % (sums[0].where, what))
            for c in sums:
                region(r, d, h, body, c, ftn, T, lds)
    if not nsink:
        r.notes.append("no output of mbox messages recognised")
    recorded(r)


def warning(r, d):
    """the variable that decides on the warning at the end"""
    f = d.f
    for c in f.calls("fprintf", "fputs", "fwrite", "puts", "printf", "perror"):
        if not any(a.kind == "global" and a.s is not None and "checksum" in a.s for a in c.args):
            continue
        lds = [i for i in f.insts() if i.opc == "load" and i.ops[0].kind == "global" and i.ty != "ptr" and sym.inst_dominates(d.dom, i, c)]
        for g in {i.ops[0] for i in lds}:
            mine = [i for i in lds if i.ops[0] is g]
            first = [i for i in mine if all(i is j or sym.inst_dominates(d.dom, i, j) for j in mine)]
            if not first or not any(i.opc == "store" and i.ops[1] is g for b in d.deliv for x in d.deliv[b][0] for i in x.insts):
                continue
            st = first[0].bb
            s0 = Sccp(f, pin=lambda i: B(0) if i in mine else None, entry=st)
            s1 = Sccp(f, pin=lambda i: B(1) if i in mine else None, entry=st)
            if c.bb in s0.blocks and c.bb in s1.blocks:
                continue
            todo, seen, lost = [st], set(), False
            while todo and c.bb is not st:
                x = todo.pop()
                if x in seen or x is c.bb:
                    continue
                seen.add(x)
                if x.term.opc == "ret":
                    lost = True
                todo += [y for y in x.succs if (x, y) in s1.edges] if hasattr(s1, "edges") else [y for y in x.succs if y in s1.blocks]
            r.require(c.bb in s1.blocks and c.bb not in s0.blocks and not lost, "C14:warning", "the warning is given if and only if a checksum failed",
                      "%s (do_search): the warning about failed checksums is not given exactly when one failed" % c.where)
            return g
    r.notes.append("the warning about failed checksums was not found")
    return None


def same_region(r, d, c, sums, key, what):
    a, n = data_len(c)
    start = {x for x in d.roots(a) if x.kind != "null"}
    mine = [s for s in sums if {d.lin(x).key() for x in start} <= {d.lin(x).key() for x in d.roots(s.args[0])}]
    if not sums:
        r.require(False, key + ":region", "", "%s (do_search): no checksum is computed before the message is output in %s format" % (c.where, what))
        return
    if not mine:
        maps = {m for s in sums for m in mapping_of(d, s.args[0])}
        if start and all(d.lin(x).const is not None for x in start) and mapping_of(d, a) <= maps:
            # same mapping: is the output inside what was summed?
            for s in sums:
                g = [d.lin(x).add(d.lin(y), -1) for x in start for y in d.roots(s.args[0])]
                if all(not q.atoms() for q in g):
                    r.require(all(q.const == 0 for q in g), key + ":region", "", "%s (do_search): the bytes output start %s bytes away from those whose checksum was verified" % (c.where, [q.const for q in g]))
                    return
            r.notes.append("%s: relation of the bytes output to those summed not decided" % c.where)
        return
    s = mine[0]
    sl = d.lin(s.args[1])
    for x in d.roots(n) if strip(n).kind == "inst" and strip(n).opc in ("phi", "select") and d.lin(n) != sl else {n}:
        g = d.lin(x).add(sl, -1)
        if not g.atoms():
            r.require(g.const <= 0, key + ":region", "bytes output at %s were summed" % c.where, "%s (do_search): %d bytes more are output than the checksum was verified for" % (c.where, g.const))
        elif x.kind == "int" and x.c == 0:
            r.ok("bytes output at %s were summed" % c.where)
        elif {y for y in d.roots(s.args[1])} >= {x}:
            r.ok("bytes output at %s were summed" % c.where)
        elif len(d.lin(x).atoms()) == 1 and d.lin(x)[d.lin(x).atoms()[0]] == 1 and {y for y in d.roots(d.lin.val(d.lin(x).atoms()[0])) if not (y.kind == "int" and y.c == 0)} <= d.roots(s.args[1]):
            k = d.lin(x).const
            r.require(k <= 0, key + ":region", "bytes output at %s were summed" % c.where, "%s (do_search): %d bytes more are output than the checksum was verified for" % (c.where, k))
        else:
            nm = {d.lin.name(z) for z in d.lin(x).atoms()}
            if nm <= {"read_db.size_table[]", "read_db.mtime_table[]"} or any(z.startswith("alloca") for z in nm):
                r.require(False, key + ":region", "", "%s (do_search): the number of bytes output (%s) is not that of the bytes whose checksum was verified" % (c.where, d.lin.show(d.lin(x))))
            else:
                r.notes.append("%s: number of bytes output not compared with those summed" % c.where)


def compare(r, d, c, sums, lds, key):
    p = d.p
    ca = [d.alloca(s.args[2]) for s in sums]
    side = [a for a in c.args[:2] if d.alloca(a) is not None]
    other = [a for a in c.args[:2] if d.alloca(a) is None]
    if len(side) != 1 or len(other) != 1:
        r.notes.append("%s: comparison of checksums not recognised" % c.where)
        return
    r.require(d.alloca(side[0]) in ca, key + ":sum", "the checksum computed is the one compared (%s)" % c.where, "%s (do_search): the checksum just computed is not what is compared" % c.where)
    n = c.args[2]
    if n.kind == "int":
        r.require(n.c == 16, key + ":len", "all 16 bytes are compared", "%s (do_search): only %d of the 16 bytes of a checksum are compared" % (c.where, n.c))
    g = d.lin(other[0])
    tb = idx = None
    extra = []
    for a in g.atoms():
        nm = d.lin.name(a)
        if nm == "read_db.mbox_checksum_table[]":
            tb = d.lin.val(a)
        elif nm == "read_db.data":
            pass
        else:
            extra.append((g[a], d.lin.val(a)))
    if tb is None or len(extra) != 1:
        r.notes.append("%s: recorded checksum not recognised (%s)" % (c.where, d.lin.show(g)))
        return
    ix = [s[1] for s in p.s.gepsteps(tb.ops[0])[1] if s[0] == "[]"]
    mb = packed(d, ix[0], lds) if len(ix) == 1 else None
    ms = packed(d, extra[0][1], lds)
    if mb and mb[1]:
        r.require(mb == (0, "ok"), key + ":mbox", "checksum table of the message's mbox", "%s (do_search): the checksum is looked up for another mbox" % c.where)
    if ms and ms[1]:
        r.require(ms == (4, "ok") and extra[0][0] == 16 and g.const == 0, key + ":msg", "checksum of the message", "%s (do_search): the checksum compared with is not the one recorded for this message" % c.where)


def region(r, d, h, body, c, ftn, T, lds):
    """the bytes summed: from the recorded start, as many as recorded, never beyond the end of the file"""
    p = d.p
    mt = {i for b in body for i in b.insts if i.opc == "load" and p.s.paths(i) == {"read_db.mtime_table[]"}}
    sz = {i for b in body for i in b.insts if i.opc == "load" and p.s.paths(i) == {"read_db.size_table[]"}}
    maps = [m for m in d.f.calls("create_ro_mapping") if d.alloca(m.args[1]) in mapping_of(d, c.args[0])]
    lens = {d.alloca(m.args[2]) for m in maps}
    for start, size, flen in ((10, 5, 20), (10, 15, 20), (20, 5, 20), (25, 5, 20), (10, 10, 20), (0, 20, 20), (0, 30, 20), (19, 1, 20), (19, 2, 20)):
        def extra(i):
            if i in mt:
                return B(start)
            if i in sz:
                return B(size)
            if i.opc == "load" and d.alloca(i.ops[0]) in lens:
                return B(flen)
            return None
        s = sccp_loop(d, h, body, p.enum(ftn), T, extra=extra)
        got = s.get(c.args[1]) if c.bb in s.blocks else None
        want = max(0, min(size, flen - start))
        if c.bb not in s.blocks:
            if start < flen:
                r.notes.append("%s: a message at %d..%d of a file of %d bytes is not summed" % (c.where, start, start + size, flen))
            continue
        if got is None or len(got) != 1:
            r.notes.append("%s: number of bytes summed not decided" % c.where)
            return
        g = next(iter(got))
        r.require(g == want, "C14:region:" + ftn, "bytes summed at %s (start %d, size %d, file %d)" % (c.where, start, size, flen),
                  "%s (do_search): for a message recorded at %d with %d bytes, %d bytes are read from a file of %d bytes, not %d" % (c.where, start, size, g, flen, want))


def unmapped_before(d, c, cells, body):
    """a release of the mapping on some path before c, after it was mapped"""
    p = d.p
    rel = [q for q in d.f.calls("free_ro_mapping") if q.bb in body and mapping_of(d, q.args[0]) & cells]
    for q in rel:
        if sym.inst_dominates(d.dom, q, c):
            return True
    return False


def recorded(r):
    """indexing: the checksum recorded for a message is computed over the bytes whose place is recorded"""
    from prog import inlined_prog
    from lin import Lins
    p = inlined_prog(keep={"build_mbox_lists", "compute_checksum", "create_ro_mapping", "free_ro_mapping", "add_mbox_messages", "data_to_rfc822", "tokenise_message", "rescan_mbox"})
    lin = Lins(p)
    f = p.fn("add_mbox_messages") if p.has("add_mbox_messages") else None
    if f is None:
        r.notes.append("the recording of mbox messages was not found")
        return
    dom = p.dom(f)

    def split(v):
        """(field, index form) of an element of one of the per-message arrays of an mbox"""
        g = lin(v)
        for a in g.atoms():
            nm = lin.name(a).split(".")[-1]
            if nm in ("start", "len", "check_all") and g[a] == 1 and "mbox" in lin.name(a):
                return nm, g.add({a: 1}, -1)
        return None

    def related(a, b):
        return sym.inst_dominates(dom, a, b) or sym.inst_dominates(dom, b, a)

    st = {"start": [], "len": []}
    for i in f.insts():
        if i.opc == "store":
            x = split(i.ops[1])
            if x and x[0] in st:
                st[x[0]].append((i, x[1]))
    n = 0
    maps = {strip(m.args[1]) for m in f.calls("create_ro_mapping")}
    for c in f.calls("compute_checksum"):
        x = split(c.args[2])
        if not x or x[0] != "check_all":
            r.notes.append("%s: where the checksum goes is not recognised" % c.where)
            continue
        n += 1
        key = "C14:recorded"
        data = lin(c.args[0])
        va = [a for a in data.atoms() if lin.val(a).kind == "inst" and lin.val(a).opc == "load" and strip(lin.val(a).ops[0]) in maps]
        if len(va) == 1:
            data = data.add({va[0]: 1}, -1)
        length = lin(c.args[1])
        for fld, want in (("start", data), ("len", length)):
            near = [(s, ix) for s, ix in st[fld] if related(s, c)]
            if not near:
                if not st[fld]:
                    r.require(False, key + ":" + fld, "", "%s (add_mbox_messages): no %s is recorded for an mbox message" % (c.where, fld))
                else:
                    r.notes.append("%s: %s recorded not related" % (c.where, fld))
                continue
            for s, ix in near:
                a, b = ix, x[1]
                if {z: k * 2 for z, k in a.items()} != dict(b):
                    g = type(b)({z: k * 2 for z, k in a.items()}).add(b, -1)
                    if not g.atoms():
                        r.require(False, key + ":index", "", "%s (add_mbox_messages): the %s and the checksum of a message are recorded in different places" % (s.where, fld))
                    else:
                        r.notes.append("%s: index not related to that of the checksum" % s.where)
                    continue
                if len(va) != 1:
                    continue
                v = lin(s.ops[0])
                r.require(v == want, key + ":" + fld, "%s recorded at %s is that of the bytes summed at %s" % (fld, s.where, c.where),
                          "%s (add_mbox_messages): the %s recorded for an mbox message (%s) is not that of the bytes its checksum covers (%s)" % (s.where, fld, lin.show(v), lin.show(want)))
        parses = [q for q in f.calls("data_to_rfc822") if related(q, c)]
        after = [q for q in parses if sym.inst_dominates(dom, c, q)]
        for q in after or parses:
            r.require(lin(q.args[1]) == lin(c.args[0]) and lin(q.args[2]) == length, key + ":parsed", "bytes parsed at %s are those summed at %s" % (q.where, c.where),
                      "%s (add_mbox_messages): the bytes parsed for the index are not those the checksum covers (%s)" % (q.where, c.where))
    if not n:
        r.require(False, "C14:recorded", "", "mbox.c (add_mbox_messages): no checksum is recorded for the messages of an mbox") if not list(f.calls("compute_checksum")) else None
