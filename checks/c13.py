"""C13: purging drops exactly the dead messages and renumbers the rest everywhere."""
import re
import sym
from prog import inlined_prog, base_prog
from cli import Cli
from rounds import View, B, NZ, Sccp
from util import strip

FLOOR = 40
TABLES = ("to", "cc", "from", "subject", "body", "attachment_name", "msg_ids")
TOK = re.compile(r"^database\.(\w+?)(?:\.tokens)?\[\]$")
LST = re.compile(r"^database\.(\w+?)(?:\.tokens)?\[\]\.(match[01])$")
KEEP = {"check_database_integrity", "insert_index_on_encoding", "check_and_enlarge_encoding", "int_list_reader_read", "matches_int_list_reader_init",
        "int_list_reader_init", "free_token", "free_token2", "cull_dead_messages"}


def run(r, tier):
    r.rule("after a purge exactly the live messages remain, in order, packed; every word list names the same messages under their new numbers; words without messages are gone and all others can still be found; mailbox numbers are renumbered with the mailboxes")
    v = View(inlined_prog(keep=KEEP), "cull_dead_messages")
    types = {h for h in (v.inner(i.bb) for i in v.loads("database.type[]")) if h is not None}
    nidx = renumber(r, v, types)
    moves = crunch(r, v, types)
    tables(r, v, nidx)
    mboxes(r, v)
    order(r, v, nidx, moves)
    main(r)


def memcpys(v, within=None):
    return [c for b in (within or v.f.blocks) for c in b.insts if c.opc == "call" and c.cname and c.cname.startswith(("llvm.memcpy", "llvm.memmove", "memcpy", "memmove"))]


def others(v, h):
    L = v.counted(h)
    return [i for i in h.insts if i.opc == "phi" and (L is None or i is not L.phi)]


def pinned(v, h):
    """distinct values for the loop's own variables (its counter is far ahead of the others)"""
    L = v.counted(h)
    d = {x: 5 + 20 * n for n, x in enumerate(others(v, h))}
    if L is not None and L.phi is not None:
        d[L.phi] = 1000
    return d


def isalloc(x):
    x = strip(x)
    return x.kind == "inst" and x.opc == "call" and x.cname in ("malloc", "calloc", "realloc")


def fills(v, h):
    """stores of element values into a fresh integer array in loop h, keyed by the array"""
    out = {}
    for b in v.loops[h]:
        for i in b.insts:
            if i.opc == "store" and i.ops[0].ty in ("i32", "i64"):
                base = v.base(i.ops[1])
                if isalloc(base):
                    out.setdefault(base, []).append(i)
    return out


def renumber(r, v, types):
    """new_idx: a new number for every live message, none for dead ones"""
    cand = []
    for h in types:
        for base, st in fills(v, h).items():
            cand.append((h, base, st))
    if len(cand) != 1:
        r.notes.append("table of new message numbers not recognised")
        r.floor_waived = True
        return None
    h, base, st = cand[0]
    w = st[0].where
    L = v.covers(r, h, {"database.n_msgs"}, "C13:renumber:loop", "messages")
    ty = set(v.loads("database.type[]", within=v.loops[h]))
    pins = pinned(v, h)
    ret = [b.term for b in v.f.blocks if b.term.opc == "ret" and b.term.ops]
    flag = backto(ret[0].ops[0], h) if ret else set()
    cnt = None
    if ret and strip(ret[0].ops[0]).kind == "int":
        r.require(strip(ret[0].ops[0]).c != 0, "C13:renumber:result", "outcome reported", "%s (%s): dropping messages is never reported, so the purged index is not written" % (w, v.f.name))
    for name, val in (("MTY_FILE", 1), ("MTY_MBOX", 2), ("MTY_IMAP", 3), ("MTY_DEAD", 0)):
        val = v.p.enum(name)
        s = v.round(h, lambda i: B(val) if i in ty else B(pins[i]) if i in pins else None)
        on = [i for i in st if i.bb in s.blocks]
        dead = name == "MTY_DEAD"
        key = "C13:renumber:" + name
        r.require(bool(on) and not v.skips(s, h, on), key, "%s: new number noted" % name, "%s (%s): a message of type %s gets no entry in the table of new numbers" % (w, v.f.name, name))
        vals = [s.get(i.ops[0]) for i in on]
        if any(x is None for x in vals):
            r.notes.append("%s: new number stored at %s not recognised" % (name, w))
            continue
        if dead:
            neg = all(all(isinstance(y, int) and (y < 0 or y >= 1 << 31) for y in x) for x in vals)
            r.require(neg, key, "dead messages get no number", "%s (%s): a dead message gets a new number instead of being dropped" % (w, v.f.name))
            if cnt is not None:
                b = v.back(s, cnt)
                if b is not None:
                    r.require(b == B(pins[cnt]), key + ":count", "dead messages take no number", "%s (%s): a dead message uses up a new number, so later messages are numbered wrongly" % (w, v.f.name))
        else:
            c = [x for x in pins if vals and all(y == B(pins[x]) for y in vals) and (L is None or x is not L.phi)]
            if not c:
                bad = all(x and all(isinstance(y, int) for y in x) for x in vals)
                if bad:
                    r.require(False, key, "", "%s (%s): a live message (%s) does not get the next free number" % (w, v.f.name, name))
                continue
            cnt = c[0]
            init = [strip(x) for x, b in cnt.inc if b not in v.loops[h]]
            r.require(all(x.kind == "int" and x.c == 0 for x in init), key + ":first", "new numbers start at 0", "%s (%s): new message numbers do not start at 0" % (w, v.f.name))
            b = v.back(s, cnt)
            if b is not None:
                r.require(b == B(pins[cnt] + 1), key + ":next", "%s: the next number is used next" % name, "%s (%s): the number given to a live message (%s) is %s" % (w, v.f.name, name, "given out again" if b == B(pins[cnt]) else "followed by a gap"))
        for i in on:
            ix = v.idx(i.ops[1])
            if L is not None and L.phi is not None and ix is not None:
                g = v.lin(ix)
                if g.atoms() and all(v.lin.val(a) is L.phi for a in g.atoms()) or ix is cnt:
                    r.require(ix is L.phi, key + ":index", "noted under the old number", "%s (%s): the new number is noted under a wrong old number" % (i.where, v.f.name))
        for x in flag:
            b = v.back(s, x)
            if b is None or len(flag) != 1:
                continue
            s0 = v.round(h, lambda i: B(val) if i in ty else B(0) if i is x else B(pins[i]) if i in pins else None)
            b = v.back(s0, x)
            if b is not None:
                r.require((0 not in b) if dead else b == B(0), key + ":result", "%s: outcome reported" % name, "%s (%s): %s" % (w, v.f.name, "dropping a message is not reported, so the purged index is not written" if dead else "a live message is reported as dropped"))
    return base, h


def backto(x, h):
    """header phis of h the value comes from"""
    out, seen, todo = set(), set(), [x]
    while todo:
        x = strip(todo.pop())
        if x in seen or x.kind != "inst":
            continue
        seen.add(x)
        if x.opc == "phi":
            if x.bb is h:
                out.add(x)
            else:
                todo += [y for y, _ in x.inc]
        elif x.opc == "select":
            todo += x.ops[1:]
    return out


def dest(v, i):
    """(address written, [indices], source address or None) of a store/memcpy"""
    return (i.ops[1], i.ops[0]) if i.opc == "store" else (i.args[0], i.args[1])


def crunch(r, v, types):
    """the message table is packed"""
    msz = v.p.m.sizeof("%struct.msgpath")
    cand = []
    for h in types:
        cp = [c for c in memcpys(v, v.loops[h]) if any(q.startswith("database.msgs") for q in v.p.s.apath(c.args[0], 1))]
        if cp:
            cand.append((h, cp))
    n = [i for i in v.stores("database.n_msgs") if i.opc == "store"]
    if len(cand) != 1:
        r.notes.append("packing of the message table not recognised")
        return None
    h, cp = cand[0]
    body = v.loops[h]
    w = cp[0].where
    L = v.covers(r, h, {"database.n_msgs"}, "C13:crunch:loop", "messages")
    tst = [i for i in v.stores("database.type[]", within=body)]
    r.require(bool(tst), "C13:crunch:type", "message types move with the messages", "%s (%s): the types of the messages are not moved with the messages" % (w, v.f.name))
    if L is None or L.phi is None:
        return cp
    # the type that decides: read at the old place
    ty = {i for i in v.loads("database.type[]", within=body) if v.idx(i.ops[0]) is L.phi}
    js = others(v, h)
    for delta, far in ((1, True), (6, True), (0, False)):
        pins = {x: 5 for x in js}
        pins[L.phi] = 5 + delta
        for name in ("MTY_FILE", "MTY_MBOX", "MTY_IMAP", "MTY_DEAD"):
            val = v.p.enum(name)
            s = v.round(h, lambda i: B(val) if i in ty else B(pins[i]) if i in pins else None)
            key = "C13:crunch:%s" % name
            on = [c for c in cp if c.bb in s.blocks]
            ton = [c for c in tst if c.bb in s.blocks]
            if name == "MTY_DEAD":
                if far:
                    r.require(not on and not ton, key, "dead messages are not kept", "%s (%s): a dead message is moved along as if it were live" % (w, v.f.name))
                bk = [v.back(s, x) for x in js]
                if len(js) == 1 and bk[0] is not None:
                    r.require(bk[0] == B(5), key + ":count", "dead messages take no place", "%s (%s): a dead message still takes up a place in the message table" % (w, v.f.name))
                continue
            if far:
                r.require(bool(on) and not v.skips(s, h, on), key, "%s: message moved down" % name, "%s (%s): a live message (%s) is not moved to its new place" % (w, v.f.name, name))
                if tst:
                    r.require(bool(ton) and not v.skips(s, h, ton), key + ":type", "%s: type moved down" % name, "%s (%s): the type of a live message (%s) is not moved with it" % (w, v.f.name, name))
            bk = [v.back(s, x) for x in js]
            if len(js) == 1 and bk[0] is not None:
                r.require(bk[0] == B(6), key + ":count", "%s: keeps one place" % name, "%s (%s): a live message (%s) %s" % (w, v.f.name, name, "is overwritten by the next one" if bk[0] == B(5) else "leaves a gap"))
    for c in cp + tst:
        d, src = dest(v, c)
        if c.opc == "store":
            src = strip(src)
            src = src.ops[0] if src.kind == "inst" and src.opc == "load" else None
        if src is None or len(js) != 1:
            r.notes.append("packing at %s not recognised" % c.where)
            continue
        di, si = v.idx(d), v.idx(src)
        if di in (L.phi, js[0]) and si in (L.phi, js[0]):
            r.require(di is js[0] and si is L.phi, "C13:crunch:move", "moved from the old to the new place at %s" % c.where, "%s (%s): a message is not moved from its old place to its new one" % (c.where, v.f.name))
        sp = v.p.s.apath(src, 1)
        bad = [q for q in sp if q.startswith("database.") and not q.startswith("database.msgs[]" if c.opc == "call" else "database.type[]")]
        r.require(not bad, "C13:crunch:source", "source of the move at %s" % c.where, "%s (%s): moved from %s" % (c.where, v.f.name, "|".join(bad)))
        if c.opc == "call" and c.args[2].kind == "int" and msz:
            r.require(c.args[2].c == msz, "C13:crunch:whole", "whole entries are moved", "%s (%s): only %d of %d bytes of a message entry are moved" % (c.where, v.f.name, c.args[2].c, msz))
    if len(js) == 1:
        init = [strip(x) for x, b in js[0].inc if b not in body]
        r.require(all(x.kind == "int" and x.c == 0 for x in init), "C13:crunch:first", "packing starts at place 0", "%s (%s): packing does not start at the first place" % (w, v.f.name))
        r.require(bool(n), "C13:crunch:n", "number of messages updated", "%s (%s): the number of messages is not reduced by a purge" % (w, v.f.name))
        for i in n:
            x = strip(i.ops[0])
            if x is js[0] or x is L.phi or x.kind == "int" or (x.kind == "inst" and x.opc in ("add", "sub")):
                r.require(x is js[0], "C13:crunch:n", "number of messages updated", "%s (%s): the number of messages after a purge is not the number of live ones" % (i.where, v.f.name))
    return cp


def table_of(v, ptr, rx):
    q = v.p.s.apath(ptr, 8)
    m = {rx.match(x) and rx.match(x).groups() for x in q}
    return m.pop() if len(m) == 1 else None


def lists(v, ptr):
    q = {re.sub(r"(match[01])\..*$", r"\1", x) for x in v.p.s.apath(ptr, 1)}
    m = {LST.match(x) and LST.match(x).groups() for x in q}
    return m.pop() if len(m) == 1 else None


def tables(r, v, nidx):
    p = v.p
    ins = {}
    unknown = []
    for c in v.f.calls("insert_index_on_encoding"):
        k = lists(v, c.args[0])
        if k is None:
            unknown.append(c)
        else:
            ins.setdefault(k, []).append(c)
    want = [(t, "match0") for t in TABLES] + [("msg_ids", "match1")]
    for k in want:
        if k not in ins:
            if unknown or not ins:
                r.notes.append("renumbering of %s.%s not recognised" % k)
                r.floor_waived = True
            else:
                r.bad("C13:list:%s.%s" % k, "%s: the message list %s of table %s is not renumbered in a purge" % (v.f.name, k[1], k[0]))
    if nidx is None:
        return
    arr, hren = nidx
    for k, cs in ins.items():
        one_list(r, v, k, cs, arr)
    for t in TABLES:
        table(r, v, t, [k for k in ins if k[0] == t], ins)


def one_list(r, v, k, cs, arr):
    name = "%s.%s" % k
    hs = {v.inner(c.bb) for c in cs}
    if len(hs) != 1 or None in hs:
        r.notes.append("renumbering loop of %s not recognised" % name)
        return
    h = hs.pop()
    body = v.loops[h]
    w = cs[0].where
    rd = [c for c in v.f.calls("int_list_reader_read") if c.bb in body]
    if len(rd) != 1:
        r.notes.append("reading of the list %s not recognised" % name)
        return
    rd = rd[0]
    cell = strip(rd.args[1])
    new = [i for b in body for i in b.insts if i.opc == "load" and v.base(i.ops[0]) is arr]
    for i in new:
        ix = v.idx(i.ops[0])
        if ix is not None and ix.kind == "inst" and ix.opc == "load":
            r.require(strip(ix.ops[0]) is cell, "C13:list:%s:index" % name, "%s: looked up by the old number" % name, "%s (%s): the new number is looked up for another message than the one read from the list" % (i.where, v.f.name))
    for c in cs:
        x = strip(c.args[1])
        if x in new:
            r.ok("%s: new number stored" % name)
        elif x.kind == "inst" and x.opc == "load" and strip(x.ops[0]) is cell:
            r.bad("C13:list:%s:value" % name, "%s (%s): the old message number is put into the list %s" % (c.where, v.f.name, name))
        else:
            r.notes.append("%s: number inserted at %s not recognised" % (name, c.where))
    for val in (-1, 0, 7):
        s = v.round(h, lambda i: B(val) if i in new else B(1) if i is rd else None)
        on = [c for c in cs if c.bb in s.blocks]
        if val < 0:
            r.require(not on, "C13:list:%s:dead" % name, "%s: dead messages dropped" % name, "%s (%s): a dead message stays in the list %s" % (w, v.f.name, name))
        else:
            r.require(bool(on) and not v.skips(s, h, on), "C13:list:%s:live" % name, "%s: live messages kept (new number %d)" % (name, val),
                      "%s (%s): the message with new number %d is dropped from the list %s" % (w, v.f.name, val, name))
    s = v.round(h, lambda i: B(0) if i is rd else None)
    r.require(not [c for c in cs if c.bb in s.blocks], "C13:list:%s:end" % name, "%s: nothing stored at the end of the list" % name, "%s (%s): something is put into the list %s after its end" % (w, v.f.name, name))
    # the reader is set up on the same list, from its old contents
    reader = strip(rd.args[0])
    init = [c for c in v.f.calls("matches_int_list_reader_init", "int_list_reader_init") if strip(c.args[0]) is reader and sym.inst_dominates(v.dom, c, rd)]
    init = [c for c in init if not any(d is not c and sym.inst_dominates(v.dom, c, d) for d in init)]
    for c in init:
        if c.cname == "matches_int_list_reader_init":
            q = lists(v, c.args[1])
            if q is not None:
                r.require(q == k, "C13:list:%s:read" % name, "%s: read from itself" % name, "%s (%s): the list %s is rebuilt from %s" % (c.where, v.f.name, name, "%s.%s" % q))
        # emptied after that, and filled from the start
        for fld in ("n", "highest", "msginfo"):
            st = [i for i in v.stores(".%s.%s" % (k[1], fld)) if lists(v, i.ops[1]) == k and sym.inst_dominates(v.dom, i, cs[0])]
            if fld != "msginfo":
                r.require(any(i.ops[0].kind == "int" and i.ops[0].c == 0 for i in st), "C13:list:%s:%s" % (name, fld), "%s.%s reset" % (name, fld),
                          "%s (%s): %s of the list %s is not reset before it is rebuilt" % (w, v.f.name, fld, name))
            else:
                r.require(bool(st), "C13:list:%s:%s" % (name, fld), "%s.%s renewed" % (name, fld), "%s (%s): the list %s is rebuilt on top of the list being read" % (w, v.f.name, name))
            if c.cname == "matches_int_list_reader_init":
                for i in st:
                    if fld in ("n", "msginfo") and i.bb in around_tok(v, c.bb):
                        r.require(sym.inst_dominates(v.dom, c, i), "C13:list:%s:order" % name, "%s: read before it is reset" % name,
                                  "%s (%s): the list %s is emptied before it is read" % (i.where, v.f.name, name))
    if not init:
        r.notes.append("start of reading of %s not recognised" % name)


def around_tok(v, b):
    h = v.inner(b)
    return v.loops[h] if h is not None else ()


def table(r, v, t, ks, ins):
    """every word is visited; empty words are removed; the table stays searchable"""
    if not ks:
        return
    f = v.f
    c0 = ins[ks[0]][0]
    a = v.around(c0.bb)
    if len(a) < 2:
        r.notes.append("loop over the words of %s not recognised" % t)
        return
    h = a[1]
    body = v.loops[h]
    w = c0.where
    L = v.covers(r, h, {"database.%s.size" % t, "database.%s.tokens.size" % t}, "C13:table:%s:loop" % t, "places of table " + t)
    tok = [i for i in v.f.insts() if i.opc == "load" and i.ty == "ptr" and table_of(v, i.ops[0], TOK) == (t,)]
    slot = [i for i in tok if i.bb in body]
    ns = {m: [i for i in v.loads(".%s.n" % m, within=body) if lists(v, i.ops[0]) == (t, m)] for _, m in ks}
    clear = [i for i in v.f.insts() if i.opc == "store" and i.bb in body and table_of(v, i.ops[1], TOK) == (t,)]
    dec = [i for i in v.stores("database.%s.n" % t, "database.%s.tokens.n" % t) if i.bb in body]
    names = ["match0", "match1"] if t == "msg_ids" else ["match0"]
    for val in ((0, 0), (4, 0), (0, 4), (4, 4)) if len(names) == 2 else ((0,), (4,)):
        have = dict(zip(names, val))

        def pin(i):
            if i in slot:
                return B(NZ)
            for m, ld in ns.items():
                if i in ld:
                    return B(have[m])
            return None
        s = v.round(h, pin)
        for m in names:
            c = ins.get((t, m))
            if c:
                inits = [x for x in f.calls("int_list_reader_read") if x.bb in body and x.bb in s.blocks and v.inner(x.bb) is v.inner(c[0].bb)]
                r.require(bool(inits) and not v.skips(s, h, inits), "C13:table:%s:%s" % (t, m), "every word of %s: %s renumbered" % (t, m), "%s (%s): the list %s of some words of table %s is not renumbered" % (w, f.name, m, t))
        on = [i for i in clear if i.bb in s.blocks and i.ops[0].kind == "null"]
        empty = not any(val)
        if empty:
            if not clear:
                r.require(False, "C13:table:%s:gone" % t, "", "%s (%s): words of table %s that no message contains any more are kept" % (w, f.name, t))
                continue
            r.require(bool(on) and not v.skips(s, h, on), "C13:table:%s:gone" % t, "%s: words without messages removed" % t, "%s (%s): words of table %s that no message contains any more are kept" % (w, f.name, t))
            if dec:
                r.require(not v.skips(s, h, [i for i in dec if i.bb in s.blocks]), "C13:table:%s:n" % t, "%s: number of words reduced" % t, "%s (%s): the number of words of %s is not reduced with each removed word" % (w, f.name, t))
            else:
                r.require(bool(v.stores("database.%s.n" % t, "database.%s.tokens.n" % t)), "C13:table:%s:n" % t, "%s: number of words reduced" % t, "%s (%s): the number of words of %s is not reduced when words are removed" % (w, f.name, t))
        else:
            r.require(not on and not [i for i in dec if i.bb in s.blocks], "C13:table:%s:keep" % t, "%s: words with messages kept (%s)" % (t, "/".join(map(str, val))),
                      "%s (%s): a word of table %s that live messages contain (%s) is removed" % (w, f.name, t, ", ".join("%s: %d" % x for x in have.items())))
    for i in dec:
        g = v.lin(i.ops[0])
        if len(g.atoms()) == 1:
            r.require(g.const == -1, "C13:table:%s:n" % t, "%s: number of words reduced" % t, "%s (%s): the number of words of %s is changed by %+d for each removed word" % (i.where, f.name, t, g.const))
    for i in clear:
        ix = v.idx(i.ops[1])
        if L is not None and L.phi is not None and ix is not None and v.lin(ix).atoms() and all(v.lin.val(x) is L.phi for x in v.lin(ix).atoms()):
            r.require(ix is L.phi, "C13:table:%s:slot" % t, "%s: the word's own place is cleared" % t, "%s (%s): the wrong place of table %s is cleared" % (i.where, f.name, t))
    close(r, v, t, h, slot, tok, ns, clear)


def close(r, v, t, h, slot, tok, ns, clear):
    """holes left by removed words are closed, so that the others can still be found"""
    f, body = v.f, v.loops[h]
    mv = [i for i in f.insts() if i.opc == "store" and i.ty != "x" and table_of(v, i.ops[1], TOK) == (t,) and i.bb not in body and i.ops[0].kind != "null"]
    mv = [i for i in mv if strip(i.ops[0]) in tok]
    allst = [i for i in f.insts() if i.opc == "store" and table_of(v, i.ops[1], TOK) == (t,) and i.bb not in body]
    key = "C13:holes:" + t
    if not mv:
        if clear and not allst and not list(f.calls("rehash")):
            r.bad(key, "%s: holes left by removed words of table %s are not closed, so words beyond them can no longer be found" % (f.name, t))
        else:
            r.notes.append("closing of holes in %s not recognised" % t)
        return
    if len(mv) != 1:
        r.notes.append("closing of holes in %s not recognised" % t)
        return
    mv = mv[0]
    w = mv.where
    ar = [x for x in v.around(mv.bb)]
    # the loop over the words: counted over the size; the search loop is inside, the repetition outside
    scan = [x for x in ar if v.counted(x) is not None and v.counted(x).phi is not None and v.bound(v.counted(x), {"database.%s.size" % t, "database.%s.tokens.size" % t})]
    if not scan:
        r.notes.append("loop that closes holes in %s not recognised" % t)
        return
    hs = scan[0]
    L = v.counted(hs)
    v.covers(r, hs, {"database.%s.size" % t, "database.%s.tokens.size" % t}, key + ":loop", "places of table " + t)
    sb = v.loops[hs]
    own = {i for i in tok if i.bb in sb and v.idx(i.ops[0]) is L.phi}
    oth = {i for i in tok if i.bb in sb and i not in own}
    hv = set(v.loads("[].hashval", within=sb))
    mk = set(v.loads("database.%s.mask" % t, "database.%s.tokens.mask" % t, within=sb))
    sz = set(v.loads("database.%s.size" % t, "database.%s.tokens.size" % t, within=sb))
    null = [i for i in allst if i.bb in sb and i.ops[0].kind == "null" and v.idx(i.ops[1]) is L.phi]
    r.require(bool(null), key + ":old", "%s: the old place of a moved word is cleared" % t, "%s (%s): a word of %s that is moved also stays in its old place" % (w, f.name, t))
    flags = others(v, hs)
    out = [x for x in v.around(hs) if x is not hs]
    if out and not flags:
        ex = [e for e in v.exits(hs) if e.term.opc != "unreachable"]
        z = [Sccp(f, entry=e, args={}, cap=24) for e in ex]
        if not any(out[0] in x.blocks for x in z):
            out = []
    if not flags and not out:
        r.bad(key + ":repeat", "%s (%s): closing holes in %s is not repeated after words were moved, so words beyond the holes they leave cannot be found" % (w, f.name, t))
    if not hv or not mk or not oth:
        r.notes.append("closing of holes in %s: natural place not recognised" % t)
        return
    jx = v.idx(mv.ops[1])
    for i, nat, places in ((7, 2, {2, 3, 4, 5, 6}), (1, 6, {6, 7, 0})):
        for hole in (0, 1):
            def pin(x):
                if x in own:
                    return B(NZ)
                if x in oth:
                    return B(0) if hole else B(NZ)
                if x in hv:
                    return B(nat + 8 * 3)
                if x in mk:
                    return B(7)
                if x in sz:
                    return B(8)
                if x is L.phi:
                    return B(i)
                if x in flags:
                    return B(0)
                return None
            s = v.round(hs, pin)
            if hole:
                r.require(mv.bb in s.blocks and not v.skips(s, hs, [mv]), key + ":move", "%s: a word is moved into the hole before it" % t, "%s (%s): a word of %s is not moved into a hole between its natural place and its place" % (w, f.name, t))
                if null:
                    r.require(not v.skips(s, hs, [x for x in null if x.bb in s.blocks]), key + ":old", "%s: the old place of a moved word is cleared" % t, "%s (%s): a word of %s that is moved also stays in its old place" % (w, f.name, t))
                x = s.get(jx) if jx is not None else None
                if x is not None:
                    r.require(x == B(nat), key + ":first", "%s: the search for holes starts at the natural place" % t, "%s (%s): the search for a hole in %s starts at place %s instead of the natural place %d" % (w, f.name, t, sorted(x, key=str), nat))
                for q in flags:
                    if len(flags) == 1:
                        bk = v.back(s, q)
                        if bk is not None:
                            r.require(0 not in bk, key + ":again", "%s: a move is noted" % t, "%s (%s): that a word of %s was moved is not noted, so holes it leaves stay open" % (w, f.name, t))
                            hp = again(r, v, t, key, hs, q, bk)
            else:
                r.require(mv.bb not in s.blocks, key + ":over", "%s: no word is overwritten" % t, "%s (%s): a word of %s may be moved onto another one" % (w, f.name, t))
                if len(flags) == 1:
                    bk = v.back(s, flags[0])
                    if bk is not None:
                        r.require(bk == B(0), key + ":ends", "%s: no move, no repetition" % t, "%s (%s): closing holes in %s is repeated for ever" % (w, f.name, t))
                # all the places between are looked at
                looked, known = walk(v, s, hs, oth, pin, i)
                if known and looked:
                    miss = places - looked
                    extra = {y for y in looked if not isinstance(y, int) or not 0 <= y < 8}
                    r.require(not miss and not extra, key + ":places", "%s: places %s..%s searched for holes" % (t, nat, i),
                              "%s (%s): when closing holes in %s, places %s between the natural place %d and place %d of a table of 8 are %s" % (w, f.name, t, sorted(miss or extra), nat, i, "not looked at" if miss else "outside the table"))
    # entered whenever a word was removed
    removed = v.round(h, lambda x: B(NZ) if x in slot else B(0) if any(x in y for y in ns.values()) or x in others(v, h) else None)
    fl = {x: v.back(removed, x) for x in others(v, h)}
    ex = {e for e in v.exits(h) if e.term.opc != "unreachable"}
    L1 = v.counted(h)
    if len(ex) == 1 and all(b is not None for b in fl.values()):
        e = ex.pop()
        s = Sccp(f, pin=lambda x: fl.get(x), entry=e, args={}, cap=24)
        top = [c for c in v.around(mv.bb)][-1]
        if top in s.blocks:
            stop = reach_without(s, e, v.loops[top])
            r.require(not stop, key + ":enter", "%s: holes are closed whenever a word was removed" % t, "%s (%s): after removing a word from %s the holes are not always closed" % (w, f.name, t))
        else:
            r.require(False, key + ":enter", "", "%s (%s): after removing a word from %s the holes are not closed" % (w, f.name, t))


def walk(v, s, hs, oth, pin, own):
    """places looked at by the search loop, step by step, when all are occupied"""
    looked = set()
    for x in oth:
        if x.bb not in s.blocks:
            continue
        h = v.inner(x.bb)
        if h is hs or h not in v.loops[hs]:
            continue
        phis = [i for i in h.insts if i.opc == "phi"]
        if len(phis) != 1:
            return set(), False
        j = phis[0]
        cur = set()
        for y, b in j.inc:
            if b not in v.loops[h] and (b, h) in s.edges:
                cur |= s.get(y) or {None}
        if len(cur) != 1 or None in cur:
            return set(), False
        cur = cur.pop()
        for _ in range(12):
            z = v.round(h, lambda i: B(cur) if i is j else pin(i))
            if x.bb in z.blocks:
                ix = v.idx(x.ops[0])
                got = z.get(ix) if ix is not None else None
                if got is None:
                    return set(), False
                looked |= got
            n = v.back(z, j)
            if n is None or len(n) > 1:
                return set(), False
            if not n:
                break
            cur, = n
    return looked, True


def reach_without(s, start, through):
    seen, todo = set(), [start]
    while todo:
        b = todo.pop()
        if b in seen or b in through:
            continue
        seen.add(b)
        if b.term.opc == "ret":
            return True
        todo += [y for (a, y) in s.edges if a is b]
    return False


def again(r, v, t, key, hs, flag, val):
    """a pass that moved something is followed by another pass; one that moved nothing is the last"""
    out = [x for x in v.around(hs) if x is not hs]
    w = hs.insts[-1].where
    ex = {e for e in v.exits(hs) if e.term.opc != "unreachable"}
    if not out:
        r.require(False, key + ":repeat", "", "%s (%s): closing holes in %s is not repeated after words were moved, so words beyond the holes they leave cannot be found" % (w, v.f.name, t))
        return
    ho = out[0]
    if len(ex) != 1:
        return
    e = ex.pop()
    init = [strip(x) for x, b in flag.inc if b not in v.loops[hs]]
    r.require(all(x.kind == "int" and x.c == 0 for x in init), key + ":reset", "%s: each pass starts anew" % t, "%s (%s): the note that a word of %s was moved is not reset for each pass" % (w, v.f.name, t)) if all(x.kind == "int" for x in init) else None
    for fv, cont in ((val, True), (B(0), False)):
        s = Sccp(v.f, pin=lambda x: fv if x is flag else None, entry=e, avoid=[ho], args={}, cap=24)
        body = v.loops[ho]
        seen, todo, left, rep = set(), [e], False, False
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            for y in b.succs:
                if (b, y) not in s.edges and y is not ho:
                    continue
                if y is ho and (b in s.blocks):
                    rep = True
                elif y not in body:
                    left = True
                else:
                    todo.append(y)
        if e not in body:
            left = True
        if cont:
            r.require(not left, key + ":repeat", "%s: repeated while words move" % t, "%s (%s): closing holes in %s may stop although words were moved in the last pass" % (w, v.f.name, t))
        else:
            r.require(left, key + ":stop", "%s: ends" % t, "%s (%s): closing holes in %s never ends" % (w, v.f.name, t))


def mboxes(r, v):
    """dead mailboxes are dropped, the others and the messages in them renumbered"""
    f = v.f
    pl = v.loads("database.mboxen[].path")
    cps = [c for c in memcpys(v) if isalloc(v.base(c.args[0])) and any(q.startswith("database.mboxen[]") for q in v.p.s.apath(c.args[1], 1))]
    tabs = [i for i in v.stores("database.mboxen")]
    if not cps or len({v.inner(c.bb) for c in cps}) != 1:
        if not cps and not tabs:
            r.notes.append("dead mailboxes are not dropped")
        else:
            r.notes.append("packing of the mailbox table not recognised")
        return
    h = v.inner(cps[0].bb)
    if h is None:
        return
    w = cps[0].where
    L = v.covers(r, h, {"database.n_mboxen"}, "C13:mbox:loop", "mailboxes")
    if L is None or L.phi is None:
        return
    fl = fills(v, h)
    pins = pinned(v, h)
    own = {i for i in pl if i.bb in v.loops[h] and v.idx(i.ops[0]) is L.phi}
    msz = v.p.m.sizeof("%struct.mbox")
    cnt = None
    mapd = None
    for alive in (True, False):
        s = v.round(h, lambda i: B(NZ if alive else 0) if i in own else B(pins[i]) if i in pins else None)
        on = [c for c in cps if c.bb in s.blocks]
        if alive:
            r.require(bool(on) and not v.skips(s, h, on), "C13:mbox:keep", "existing mailboxes are kept", "%s (%s): an existing mailbox is dropped from the table" % (w, f.name))
        else:
            r.require(not on, "C13:mbox:drop", "dead mailboxes are dropped", "%s (%s): a dead mailbox is kept" % (w, f.name))
        for base, st in fl.items():
            o = [i for i in st if i.bb in s.blocks]
            if alive and o:
                vals = [s.get(i.ops[0]) for i in o]
                c = [x for x in pins if x is not L.phi and all(y == B(pins[x]) for y in vals)]
                if c:
                    cnt, mapd = c[0], base
                    bk = v.back(s, cnt)
                    if bk is not None:
                        r.require(bk == B(pins[cnt] + 1), "C13:mbox:next", "each mailbox gets a place of its own", "%s (%s): two mailboxes get the same new place, or a gap is left" % (w, f.name))
                    for i in o:
                        ix = v.idx(i.ops[1])
                        if ix in (L.phi, cnt):
                            r.require(ix is L.phi, "C13:mbox:map", "noted under the old number", "%s (%s): the new place of a mailbox is noted under a wrong number" % (i.where, f.name))
                    for i in on:
                        d, sidx = v.idx(i.args[0]), v.idx(i.args[1])
                        if d in (L.phi, cnt) and sidx in (L.phi, cnt):
                            r.require(d is cnt and sidx is L.phi, "C13:mbox:move", "mailboxes are moved to the new place", "%s (%s): a mailbox is not moved to the place noted for it" % (i.where, f.name))
                elif all(y is not None and all(isinstance(z, int) for z in y) for y in vals):
                    r.require(False, "C13:mbox:number", "", "%s (%s): the new number noted for a mailbox is not its new place" % (o[0].where, f.name))
        if not alive and cnt is not None:
            bk = v.back(s, cnt)
            if bk is not None:
                r.require(bk == B(pins[cnt]), "C13:mbox:gap", "dead mailboxes take no place", "%s (%s): a dead mailbox still takes up a number" % (w, f.name))
    for c in cps:
        if c.args[2].kind == "int" and msz:
            r.require(c.args[2].c == msz, "C13:mbox:whole", "whole entries are moved", "%s (%s): only %d of %d bytes of a mailbox entry are moved" % (c.where, f.name, c.args[2].c, msz))
    if mapd is None:
        if not any(isalloc(b) for b in fl):
            fi = v.stores(".src.mbox.file_index")
            r.require(bool(fi), "C13:mbox:index", "messages follow their mailbox", "%s (%s): messages are not renumbered when mailboxes move" % (w, f.name))
        r.notes.append("table of new mailbox numbers not recognised")
        return
    # the messages follow
    fi = [i for i in v.stores(".src.mbox.file_index") if i.bb not in v.loops[h]]
    if not fi:
        r.require(False, "C13:mbox:index", "", "%s (%s): messages are not renumbered when mailboxes move" % (w, f.name))
        return
    h2 = v.inner(fi[0].bb)
    if h2 is None:
        return
    L2 = v.covers(r, h2, {"database.n_msgs"}, "C13:mbox:msgs", "messages")
    ty = set(v.loads("database.type[]", within=v.loops[h2]))
    for i in fi:
        x = strip(i.ops[0])
        if x.kind == "inst" and x.opc == "load":
            if v.base(x.ops[0]) is mapd:
                ix = v.idx(x.ops[0])
                ok = ix is not None and ix.kind == "inst" and ix.opc == "load" and all(q.endswith(".src.mbox.file_index") for q in v.ap(ix))
                if ok or (ix is not None and (ix is (L2 and L2.phi) or ix.kind == "inst" and ix.opc == "load")):
                    r.require(ok, "C13:mbox:lookup", "looked up by the old mailbox number", "%s (%s): the new mailbox number of a message is looked up for a wrong mailbox" % (i.where, f.name))
                if ok and L2 and L2.phi is not None:
                    a, b = msgidx(v, ix.ops[0]), msgidx(v, i.ops[1])
                    if a is L2.phi and b is not None or b is L2.phi and a is not None:
                        r.require(a is b, "C13:mbox:same", "stored for the message it was looked up for", "%s (%s): the new mailbox number is stored for another message" % (i.where, f.name))
    for name in ("MTY_DEAD", "MTY_FILE", "MTY_MBOX", "MTY_IMAP"):
        val = v.p.enum(name)
        s = v.round(h2, lambda i: B(val) if i in ty else None)
        on = [i for i in fi if i.bb in s.blocks]
        if name == "MTY_MBOX":
            # (the assertion ends the run, it does not skip the message)
            r.require(bool(on) and not v.skips(s, h2, on), "C13:mbox:renumber", "messages in mailboxes are renumbered", "%s (%s): a message in a mailbox keeps the old number of its mailbox" % (fi[0].where, f.name))
        elif ty and name in ("MTY_FILE", "MTY_IMAP"):
            r.require(not on, "C13:mbox:others", "%s: left alone" % name, "%s (%s): a message of type %s is treated as one in a mailbox" % (fi[0].where, f.name, name))
    n = v.stores("database.n_mboxen")
    r.require(bool(n), "C13:mbox:count", "number of mailboxes updated", "%s (%s): the number of mailboxes is not updated" % (w, f.name))
    for i in n:
        x = strip(i.ops[0])
        if x.kind == "inst" and x.opc == "phi" and x.bb in v.loops:
            h3 = x.bb
            o3 = {q for q in pl if q.bb in v.loops[h3]}
            if o3:
                c3 = v.counted(h3)
                bad = c3 is not None and c3.phi is x
                for alive in (True, False):
                    s = v.round(h3, lambda q: B(NZ if alive else 0) if q in o3 else B(9) if q is x else None)
                    bk = v.back(s, x)
                    if bk is not None and bk != B(10 if alive else 9):
                        bad = True
                r.require(not bad, "C13:mbox:count", "number of mailboxes updated", "%s (%s): the number of mailboxes after a purge is not the number of existing ones" % (i.where, f.name))
        elif x.kind == "inst" and x.opc == "load" and v.ap(x) <= {"database.n_mboxen"}:
            r.require(False, "C13:mbox:count", "", "%s (%s): the number of mailboxes after a purge is not the number of existing ones" % (i.where, f.name))
    r.require(bool(tabs), "C13:mbox:table", "the packed table replaces the old one", "%s (%s): the packed table of mailboxes is not used" % (w, f.name))
    for i in tabs:
        x = strip(i.ops[0])
        if isalloc(x):
            r.require(x is v.base(cps[0].args[0]), "C13:mbox:table", "the packed table replaces the old one", "%s (%s): the table of mailboxes is replaced by another array" % (i.where, f.name))
    # skipped only if nothing is dead
    for x in {strip(i.ops[0]) for i in n}:
        if x.kind != "inst" or x.opc != "phi" or x.bb not in v.loops:
            continue
        ex = {e for e in v.exits(x.bb) if e.term.opc != "unreachable"}
        nl = v.loads("database.n_mboxen")
        if len(ex) != 1 or not nl:
            continue
        e = ex.pop()
        for alive in (2, 0):
            s = Sccp(f, pin=lambda q: B(alive) if q is x else B(3) if q in nl else None, entry=e, args={}, cap=24)
            hit = reach_without(s, e, v.loops[h])
            r.require(not hit, "C13:mbox:when", "mailboxes are packed whenever one is dead", "%s (%s): dead mailboxes are not always dropped (%d of 3 existing)" % (w, f.name, alive))


def msgidx(v, ptr):
    st = [x for x in v.p.s.gepsteps(ptr)[1] if x[0] == "[]"]
    return strip(st[0][1]) if st else None


def order(r, v, nidx, moves):
    """new numbers are given out before anything is moved"""
    if nidx is None or not moves:
        return
    h = nidx[1]
    for c in moves:
        s = Sccp(v.f, entry=c.bb, args={}, cap=4)
        r.require(h not in s.blocks, "C13:order", "numbers are given out before messages move", "%s (%s): messages are moved before the new numbers are given out" % (c.where, v.f.name))


def main(r):
    p = inlined_prog(keep={"update_database", "write_database", "cull_dead_messages", "build_mbox_lists", "new_database_from_file", "new_database", "free_database",
                           "parse_rc_file", "search_top", "dump_database", "main", "lock_database", "unlock_database", "unlock_and_exit", "check_message_list_for_duplicates", "build_message_list", "build_imap_message_list", "imap_start", "glob_and_expand_paths", "classify_file", "split_on_colons", "member_of"})
    v = View(p, "main")
    cu, up, wr = list(v.f.calls("cull_dead_messages")), list(v.f.calls("update_database")), list(v.f.calls("write_database"))
    if not cu:
        r.require(False, "C13:main:call", "", "main: dead messages are never purged")
        return
    if len(cu) != 1 or len(up) != 1 or not wr:
        r.notes.append("calls of cull_dead_messages, update_database or write_database in main not recognised")
        return
    cu, up = cu[0], up[0]
    r.require(sym.inst_dominates(v.dom, up, cu), "C13:main:order", "purging follows the update", "%s (main): messages are purged before the update has found out which are dead" % cu.where)
    s = Sccp(v.f, pin=lambda i: B(NZ) if i is cu else B(0) if i is up else None, entry=cu.bb, args={}, cap=24)
    r.require(not v.avoidable(s, cu.bb, wr), "C13:main:write", "a purge that dropped messages is written", "%s (main): a purge that dropped messages is not always written to the database" % cu.where)
    for w in wr:
        s = Sccp(v.f, entry=w.bb, args={}, cap=24)
        r.require(cu.bb not in s.blocks, "C13:main:before", "nothing is purged after writing", "%s (main): messages are purged after the database was written" % cu.where)
    c = Cli(p)
    opt = [o for o in ("-p", "--purge") if o in c.opts]
    if not opt:
        r.notes.append("option -p not recognised")
        return
    for o in opt:
        for h, vals in c.opts[o]["phi"].items():
            if all(x.kind == "int" and x.c != 0 for x in vals):
                one = {x.c for x in vals}
                for val, must in ((one, True), ({0}, False)):
                  for upd in (0, 1):
                    z = Sccp(v.f, pin=lambda i: frozenset(val) if i is h else B(upd) if i is up else None, entry=up.bb, args={}, cap=24)
                    if must:
                        r.require(not v.avoidable(z, up.bb, [cu]), "C13:main:on", "option %s purges" % o, "%s (main): with option %s dead messages are not always purged" % (cu.where, o))
                    else:
                        r.require(cu.bb not in z.blocks, "C13:main:off", "without option %s nothing is purged" % o, "%s (main): messages are purged without option %s" % (cu.where, o))
        if not c.opts[o]["phi"]:
            r.notes.append("variable set by option %s not recognised" % o)
