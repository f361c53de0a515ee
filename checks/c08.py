"""C08: each part of a message is found by its own search key and no other."""
import re
import tokview, searchview, sym, loopinfo
from build import AnalysisBroken
from facts import value_sets
from prog import phi_edge_atoms, cv
from sccp import Sccp, NZ
from cdep import CDep, cond_loads
from util import init_bytes, leaves, strip

FLOOR = 30
HDR = {"to": "to:", "cc": "cc:", "from": "from:", "subject": "subject:", "message_id": "message-id:",
       "in_reply_to": "in-reply-to:", "references": "references:", "date": "date:"}
TAB = {"to": "to", "cc": "cc", "from": "from", "subject": "subject", "bytes": "body", "filename": "attachment_name"}
IDS = {"message_id": True, "in_reply_to": False, "references": False}


def source(p, v):
    """names of the message parts a text value may come from"""
    out = set()
    for q in p.s.paths(v):
        for m in re.finditer(r"(?:headers|hdrs)\.(\w+)|data\.normal\.(bytes)|\.(filename)|\.hdrs(?![\w.])", q):
            out.add(m.group(1) or m.group(2) or m.group(3) or "to")
    return out


def guards(r, p, f, adds, rec):
    """whether a part is indexed depends only on that part itself (and the kind of the attachment)"""
    r.rule("whether a part of a message is indexed never depends on another part")
    cd = CDep(f)
    for c in adds + rec:
        own = {"rfc822"} if c in rec else set().union(*[source(p, x) for x in c.args if x.ty == "ptr"])
        if not own:
            continue
        bad = {}
        for b, s in cd.all(c.bb):
            if b.term.ops:
                for l in cond_loads(b.term.ops[0]):
                    if l.opc == "load":
                        for q in source(p, l) | {"size" for y in p.s.paths(l) if re.search(r"\.(len|date)$", y)}:
                            if q not in own and not (q == "bytes" and c in rec):
                                bad.setdefault(q, b.term.where)
        for q, w in bad.items():
            r.bad("C08:guard:%s:%s" % (sorted(own)[0], q), "%s (tokenise_message): whether %s is indexed depends on the message's %s (condition at %s)" %
                  (c.where, "an attached message" if c in rec else "text of " + sorted(own)[0], q, w))
        if not bad:
            r.ok("%s: indexing of %s depends on nothing else" % (c.where, sorted(own)))


def indexing(r, p):
    r.rule("every word added to a word table comes from the part of the message that table stands for, under the index of that message")
    f = p.fn("tokenise_message")
    adds = [c for c in f.calls("add_token_in_file", "add_token2_in_file")]
    if not adds:
        raise AnalysisBroken("tokenise_message adds no tokens")
    CT = {k: v for k, v in p.t.enums.items() if k.startswith("CT_")}
    cts = value_sets(f, lambda x: any(q.endswith(".ct") for q in p.s.paths(x)), CT.values())
    seen, idseen, ct_of = set(), {}, {}
    for c in adds:
        two = c.cname == "add_token2_in_file"
        a = c.args
        txt = [x for x in a if x.ty == "ptr" and source(p, x)]
        tabs = {m.group(1) for x in a for q in p.s.paths(x) for m in [re.match(r"database\.(\w+)$", q)] if m and m.group(1) != "hash_key"}
        src = set().union(*[source(p, x) for x in txt]) if txt else set()
        if len(src) != 1 or len(tabs) != 1:
            r.notes.append("%s: words from %s go to %s: not resolved" % (c.where, sorted(src), sorted(tabs)))
            continue
        s, t = next(iter(src)), next(iter(tabs))
        want = "msg_ids" if s in IDS else TAB.get(s)
        if want is None:
            r.notes.append("%s: unknown message part %s" % (c.where, s))
            continue
        r.require(t == want, "C08:index:%s->%s" % (s, t), "%s: text of %s goes to table %s" % (c.where, s, t),
                  "%s (tokenise_message): text of the message's %s is added to the word table for %s" % (c.where, s, t))
        ints = [x for x in a if x.ty == "i32"]
        if ints:
            r.require(p.s.paths(ints[0]) == {"arg0"}, "C08:index:number:%s" % s, "%s: words of %s carry the message's own number" % (c.where, s),
                      "%s (tokenise_message): words of %s are recorded under another number than the message's" % (c.where, s))
        seen.add((s, t))
        if two and len(a) >= 5:
            k = a[-1]
            if k.kind == "int":
                idseen.setdefault(s, set()).add(bool(k.c))
        ct_of.setdefault(s, []).append((c, cts.get(c.bb, frozenset())))
    for s, t in list(TAB.items()) + [(s, "msg_ids") for s in IDS]:
        r.require((s, t) in seen, "C08:index:missing:%s" % s, "text of %s is indexed" % s,
                  "tokenise_message (db.c): the message's %s is never added to the word table for %s" % (s, t))
    for s, v in idseen.items():
        r.require(v == {IDS[s]}, "C08:index:own-id:%s" % s, "%s %s as the message's own identifier" % (s, "counts" if IDS[s] else "does not count"),
                  "tokenise_message (db.c): identifiers from %s %s entered as the message's own Message-ID" % (s, "are not" if IDS[s] else "are"))
    # bodies: plain and HTML text; attachment names of every part
    if "bytes" in ct_of:
        kinds = set().union(*[k for _, k in ct_of["bytes"]])
        for nm in ("CT_TEXT_PLAIN", "CT_TEXT_HTML"):
            if nm in CT:
                r.require(CT[nm] in kinds, "C08:body:%s" % nm, "%s parts are indexed as body" % nm, "tokenise_message (db.c): parts of kind %s are not indexed as body text" % nm)
        other = {k for k, v in CT.items() if v in kinds} - {"CT_TEXT_PLAIN", "CT_TEXT_HTML"}
        r.require(not other, "C08:body:other", "only text parts are indexed as body", "tokenise_message (db.c): parts of kind %s are indexed as body text" % sorted(other))
    if "filename" in ct_of:
        kinds = set().union(*[k for _, k in ct_of["filename"]])
        miss = {k for k, v in CT.items() if v not in kinds}
        r.require(not miss, "C08:filename", "attachment names of every kind of part are indexed", "tokenise_message (db.c): attachment names are not indexed for parts of kind %s" % sorted(miss))
    rec = [c for c in f.calls("tokenise_message")]
    r.require(bool(rec), "C08:embedded", "embedded messages are indexed", "tokenise_message (db.c): attached messages are not indexed")
    for c in rec:
        r.require(p.s.paths(c.args[0]) == {"arg0"}, "C08:embedded:number", "%s: embedded message indexed under the outer message's number" % c.where,
                  "%s (tokenise_message): an attached message is indexed under another number" % c.where)
        k = cts.get(c.bb, frozenset())
        if "CT_MESSAGE_RFC822" in CT:
            r.require(CT["CT_MESSAGE_RFC822"] in k, "C08:embedded:kind", "%s: done for attached messages" % c.where, "%s: attached messages are not descended into" % c.where)
    guards(r, p, f, adds, rec)
    # word characters: words and whole addresses
    r.rule("address headers are split both into words and into whole addresses; word-character table has the documented classes")
    masks = {}
    tabname = None
    for i in f.insts():
        if i.opc != "and":
            continue
        for x, y in ((i.ops[0], i.ops[1]), (i.ops[1], i.ops[0])):
            z = y
            while z.kind == "inst" and z.opc in sym.CASTS:
                z = z.ops[0]
            if z.kind == "inst" and z.opc == "load":
                b, st = p.s.gepsteps(z.ops[0])
                if b.kind == "global" and b.s is None and p.m.sizeof(b.ty) == 256:
                    tabname = b
                    ix = [q[1] for q in st if q[0] == "[]"]
                    for q in ix:
                        w = q
                        while w.kind == "inst" and w.opc in sym.CASTS:
                            w = w.ops[0]
                        if w.kind == "inst" and w.opc == "load":
                            for s in source(p, w.ops[0]):
                                masks.setdefault(s, set()).add(x.c if x.kind == "int" else None)
    if masks:
        for s in [s for s in masks if None in masks[s]]:
            r.notes.append("character class used for %s is not constant" % s)
        for s in ("to", "cc", "from"):
            if None in masks.get(s, ()):
                continue
            r.require(masks.get(s) == {1, 2}, "C08:mask:%s" % s, "%s indexed as words and as addresses" % s,
                      "tokenise_message (db.c): %s is split with character classes %s, not as words and as whole addresses" % (s, sorted(masks.get(s, ()))))
        for s in ("subject", "bytes"):
            if None in masks.get(s, ()):
                continue
            r.require(masks.get(s) == {1}, "C08:mask:%s" % s, "%s indexed as words" % s,
                      "tokenise_message (db.c): %s is split with character classes %s, not as words" % (s, sorted(masks.get(s, ()))))
        tb = init_bytes(tabname._x.get("init"), p.m)
        if tb is not None:
            for ch, want in (("+", 2), ("-", 2), (".", 2), ("@", 2), ("_", 3)):
                got = tb[ord(ch)] & 3
                r.require(got == want, "C08:class:%s" % ch, "class of %r is %d" % (ch, want), "db.c: character %r has word class %d instead of %d" % (ch, got, want))
            for ch in " \t\n,;:<>()\"'/=~^":
                r.require(tb[ord(ch)] & 3 == 0, "C08:class:%r" % ch, "%r separates words" % ch, "db.c: character %r counts as part of a word" % ch)
    else:
        r.notes.append("word-character table not recognised")
    # callers: number and record agree
    r.rule("a message is tokenised under the number of the record that describes it")
    for g in p.defined():
        if g is f:
            continue
        for c in g.calls("tokenise_message"):
            recs = set()
            for i in g.insts():
                if i.opc == "store":
                    b, st = p.s.gepsteps(i.ops[1])
                    if st and any(q.startswith(("database.msgs[]", "msgpath.")) and q.endswith(".date") for q in p.s.apath(i.ops[1], p.m.sizeof(i.ops[0].ty))):
                        idx = [x[1] for x in st if x[0] == "[]"]
                        if idx and (sym.reach([i.bb]) & {c.bb} or sym.reach([c.bb]) & {i.bb}):
                            recs.add(_idx(p, idx[0]))
            n = _idx(p, c.args[0])
            if recs:
                r.require(n in recs, "C08:number:%s" % g.name, "%s (%s): tokenised under the number of the record filled in" % (c.where, g.name),
                          "%s (%s): the message is tokenised under a number that is not the index of its record" % (c.where, g.name))
            else:
                r.notes.append("%s: no record store next to tokenise_message" % c.where)


def _idx(p, v):
    while v.kind == "inst" and v.opc in ("sext", "zext", "freeze"):
        v = v.ops[0]
    return p.s.expr(v)


def parsing(r, p):
    r.rule("each header field of the parsed message is taken from the header line of that name (matched with its colon, without regard to case)")
    f = p.fn("data_to_rfc822")
    # state: name of the header line matched most recently
    IN = {f.blocks[0]: frozenset(["?"])}
    wl = [f.blocks[0]]
    tests = {}

    def const_len(v, s):
        if v.kind == "int":
            return v.c
        for q in p.s.paths(v):
            m = re.match(r'strlen\("(.*)"\)$', q)
            if m:
                return len(m.group(1))
        return None
    for c in f.calls("strncasecmp", "strncmp", "strcasecmp", "strcmp"):
        for a in c.args[:2]:
            if a.kind == "global" and a.s is not None and a.s.endswith(":"):
                tests[c] = a.s.lower()
                if c.cname == "strncasecmp" and len(c.args) == 3:
                    n = const_len(c.args[2], a.s)
                    if n is not None:
                        r.require(n == len(a.s), "C08:hdrlen:%s" % a.s, "%s: header name %r compared whole" % (c.where, a.s),
                                  "%s (data_to_rfc822): only %d characters of header name %r are compared" % (c.where, n, a.s))
                r.require(c.cname == "strncasecmp", "C08:hdrcase:%s" % a.s, "%s: %r matched as case-insensitive prefix" % (c.where, a.s),
                          "%s (data_to_rfc822): header name %r is compared with %s" % (c.where, a.s, c.cname))
    if len(tests) < 3:
        r.notes.append("header names are not matched against constant strings: routing of header lines not judged")
        return
    while wl:
        b = wl.pop()
        for s in b.succs:
            st = IN[b]
            for pred, x, y in phi_edge_atoms(b, s):
                if not isinstance(x, int) and x in tests and cv(y) == 0:
                    if pred == "eq":
                        st = frozenset([tests[x]])
            o = IN.get(s)
            n = st if o is None else o | st
            if n != o:
                IN[s] = n
                wl.append(s)
    roots = {}
    stores = []
    for i in f.insts():
        if i.opc != "store":
            continue
        sz = p.m.sizeof(i.ops[0].ty)
        base, st = p.s.gepsteps(i.ops[1])
        for q in p.s.apath(i.ops[1], sz):
            m = re.match(r"(?:rfc822\.hdrs|headers)\.(\w+)$", q)
            if m:
                stores.append((m.group(1), i))
                roots.setdefault(base, 0)
                roots[base] += 1
            elif not st and base.kind == "inst" and base.opc == "call" and sz == 8:
                stores.append((base, i))
    main = max(roots, key=roots.get) if roots else None
    got = set()
    for k, i in stores:
        if not isinstance(k, str):
            if k is not main:
                continue
            k = p.t.field("headers", 0, 8)
        if i.ops[0].kind in ("null", "zero") or (i.ops[0].kind == "int" and i.ops[0].c == 0):
            continue
        names = IN.get(i.bb, frozenset())
        if k == "flags":
            v = i.ops[0]
            if "or(" in "|".join(p.s.paths(v)):
                r.require(names <= {"status:", "x-status:"}, "C08:hdr:flags", "%s: flags taken from %s" % (i.where, sorted(names)),
                          "%s (data_to_rfc822): flags set while handling header %s" % (i.where, sorted(names)))
                got |= {"flags" + n for n in names}
            continue
        want = HDR.get(k)
        if want is None:
            continue
        got.add(k)
        r.require(names == {want}, "C08:hdr:%s" % k, "%s: %s taken from header %s" % (i.where, k, want),
                  "%s (data_to_rfc822): %s is set from header line(s) %s instead of %r" % (i.where, k, sorted(names), want))
    for k in HDR:
        r.require(k in got, "C08:hdrmissing:%s" % k, "header %s is recorded" % HDR[k], "data_to_rfc822 (rfc822.c): header %r is no longer recorded" % HDR[k])
    for n in ("status:", "x-status:"):
        r.require("flags" + n in got, "C08:hdrmissing:%s" % n, "header %s sets flags" % n, "data_to_rfc822 (rfc822.c): header %r no longer sets the message's flags" % n)


def searching(r, p):
    r.rule("each search key letter consults exactly the tables the manual assigns to it, for exact and for substring words; no key = body, subject, to, cc, from")
    f = p.fn("do_search")
    kc = set(searchview.key_char(p, f))
    if not kc:
        r.notes.append("no comparison of a key letter with the documented letters: key routing not judged")
        return
    lps = sym.loops(f)
    kb = next(iter(kc)).bb
    body = max((bs for bs in lps.values() if kb in bs), key=len, default=set())
    cols = [c for c in f.calls("strchr") if len(c.args) == 2 and c.args[1].kind == "int" and c.args[1].c == 58 and c.bb in body]
    uses, exact = [], {}
    for i in f.insts():
        if i.opc == "load" and i.bb in body:
            for q in p.s.paths(i):
                m = re.match(r"read_db\.(\w+?)(?:\.(enc\w*_offsets))?\[\]$", q)
                if m:
                    uses.append((m.group(1), m.group(2), i))
    dom = p.dom(f)
    cmps = {}
    vague = [i for i in f.insts() if i.opc == "load" and i.bb in body and
             any(re.search(r"\.enc\w*_offsets\[\]$", q) and not q.startswith("read_db.") for q in p.s.paths(i))]
    for c in f.calls("strcmp"):
        if c.bb in body and any("read_db.data" in q for a in c.args for q in p.s.paths(a)) and \
                not any(x.kind == "inst" and x.opc == "load" and re.match(r"read_db\.\w+\.tok_offsets\[\]", q) for a in c.args for x in leaves(a) for q in p.s.paths(x)):
            vague.append(c)
        for a in c.args:
            for x in leaves(a):
                if x.kind == "inst" and x.opc == "load":
                    for q in p.s.paths(x):
                        m = re.match(r"read_db\.(\w+)\.tok_offsets\[\]", q)
                        if m:
                            cmps.setdefault(m.group(1), []).append(c)
    if vague:
        r.notes.append("%s: the table consulted is chosen at run time: completeness of lookups not judged" % vague[0].where)
    EXP = {"b": {"body"}, "s": {"subject"}, "t": {"to"}, "c": {"cc"}, "f": {"from"}, "a": {"to", "cc", "from"}, "n": {"attachment_name"},
           "m": {"msg_ids"}, "d": {"date_table"}, "z": {"size_table"}, "p": {"path_offsets"}, "F": {"msg_type_and_flags"}, "r": {"to", "cc"},
           "": {"to", "cc", "from", "subject", "body"}}
    WORD = {"to", "cc", "from", "subject", "body", "attachment_name", "msg_ids"}
    SING = {"date_table", "size_table"}
    for L, want in EXP.items():
        if L == "r" and not any(ord("r") == c for b in f.blocks for c in _consts(b, kc)):
            continue
        if L:
            S = Sccp(f, lambda i: {ord(L)} if i in kc else ({NZ} if i in cols else None))
        else:
            S = Sccp(f, lambda i: {0} if i in cols else None)
            if not cols:
                continue
        got, gx, gs = set(), set(), set()
        for t, e, i in uses:
            if not S.reaches(i):
                continue
            if t in WORD or t in SING or t == "path_offsets" or (t == "msg_type_and_flags" and L == "F"):
                got.add(t)
            if e:
                if any(sym.dominates(dom, c.bb, i.bb) for c in cmps.get(t, ())):
                    gx.add(t)
                else:
                    gs.add(t)
        nm = "key '%s:'" % L if L else "a word without key"
        extra, miss = got - want, want - got
        if not vague:
          r.require(not miss, "C08:key:%s:missing" % L, "%s consults %s" % (nm, sorted(want)),
                  "do_search (search.c): %s does not consult %s" % (nm, ", ".join(sorted(miss))))
        r.require(not extra, "C08:key:%s:extra" % L, "%s consults nothing else" % nm,
                  "do_search (search.c): %s also consults %s" % (nm, ", ".join(sorted(extra))))
        w = (want & WORD) - {"msg_ids"}
        if w and cmps and not vague:
            r.require(gx >= w - miss, "C08:key:%s:exact" % L, "%s: exact words looked up" % nm,
                      "do_search (search.c): %s: exact words are not looked up in %s" % (nm, sorted(w - gx)))
            r.require(gs >= w - miss, "C08:key:%s:substring" % L, "%s: substrings looked up" % nm,
                      "do_search (search.c): %s: substring words are not looked up in %s" % (nm, sorted(w - gs)))
    # every word of a consulted table is looked at
    r.rule("a lookup goes through all words of the table")
    from c06 import bound_paths
    for h, bs in lps.items():
        L = loopinfo.counted(p.s, h, bs, dom)
        if L is None or L.phi is None or L.phi.ty == "ptr" or L.bound_exit is None:
            continue
        tabs = set()
        for b in bs:
            for i in b.insts:
                if i.opc == "load":
                    for q in p.s.paths(i):
                        m = re.match(r"read_db\.(\w+)\.tok_offsets\[\]$", q)
                        if m and any(x[0] == "[]" and strip(x[1]) is L.phi for x in p.s.gepsteps(i.ops[0])[1]):
                            tabs.add(m.group(1))
        if len(tabs) != 1:
            continue
        t = tabs.pop()
        c = loopinfo.covers_from_zero(L)
        y = bound_paths(p, L)
        w = h.insts[-1].where
        if c is None or len(y) != 1:
            r.notes.append("%s: range of the lookup loop over %s not resolved" % (w, t))
            continue
        r.require(y == {"read_db.%s.n" % t} and c[0] == 0 and c[2] == 0, "C08:scan:%s" % t, "%s: all words of %s are looked at" % (w, t),
                  "%s (do_search): the lookup in table %s covers positions %d up to %s%+d" % (w, t, c[0], sorted(y)[0], c[2]))
    # the posting list followed is that of the word compared
    r.rule("the message list followed is the one of the word that matched (same table, same position); message-ID search follows the list of the message's own IDs")
    for t, e, i in uses:
        if not e:
            continue
        b, st = p.s.gepsteps(i.ops[0])
        ix = [z[1] for z in st if z[0] == "[]"]
        toks = [j for j in f.insts() if j.opc == "load" and "read_db.%s.tok_offsets[]" % t in p.s.paths(j) and sym.inst_dominates(dom, j, i)]
        if ix and toks:
            keys = {_idx(p, z[1]) for j in toks for z in p.s.gepsteps(j.ops[0])[1] if z[0] == "[]"}
            r.require(_idx(p, ix[-1]) in keys, "C08:posting:%s" % t, "%s: %s list of the matching word" % (i.where, t),
                      "%s (do_search): the message list read for a word of %s is not at that word's position" % (i.where, t))
        elif not toks:
            r.bad("C08:posting:%s" % t, "%s (do_search): message list of table %s read without comparing a word of that table" % (i.where, t))
        if t == "msg_ids":
            r.require(e == "enc1_offsets", "C08:posting:own-ids", "%s: message-ID search uses own identifiers" % i.where,
                      "%s (do_search): message-ID search follows the list of all references instead of the message's own identifiers" % i.where)


def _consts(b, kc):
    for i in b.insts:
        if i.opc == "icmp" and i.ops[1].kind == "int":
            yield i.ops[1].c
        elif i.opc == "switch":
            for c, _ in i.cases:
                yield c


def run(r, tier):
    p = tokview.view()
    indexing(r, p)
    parsing(r, p)
    q = searchview.view()
    searching(r, q)
    r.scope = {"units": len(p.built.units), "functions": ["tokenise_message", "data_to_rfc822", "do_search"]}
