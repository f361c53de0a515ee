"""C22: IMAP folders are read in full, messages fetched are the ones indexed, and the server is changed only when delivering."""
import sym, loopinfo
from prog import inlined_prog, base_prog
from rounds import B, NZ, Sccp
from text import Text, CMP
from util import strip

FLOOR = 60
KEEP = {"imap_ll_build", "imap_ll_command", "imap_ll_status", "imap_ll_is_trycreate", "imap_select", "imap_ll_freeline", "imap_ll_pprint", "imap_ll_append", "split_on_colons", "is_globber_array_match",
        "imap_ll_waitline", "create_folder", "find_capability_list_from_greeting", "find_capability_list_in_untagged_response", "need_capability", "have_capability", "ask_for_capabilities",
        "imap_ll_starttls", "imap_login", "imap_ll_write", "imap_fetch_message_raw", "data_to_rfc822", "imap_ll_connect", "imap_ll_pipe_connect", "format_cmd", "imap_ll_logout", "mktoken"}
_prog = []
TL = ("imap_ll_tokenlist.first", "imap_ll_tokenlist.next")


def prog():
    if not _prog:
        _prog.append(inlined_prog(keep=KEEP))
    return _prog[0]


class Imap(Text):
    def __init__(self, name):
        Text.__init__(self, prog(), name)
        self._tok = {}
        self.late = {}
        self.heads = set(self.loops)

    def field(self, i):
        q = {x.split(".")[-1] for x in self.ap(i)}
        return q.pop() if len(q) == 1 else None

    def tok(self, x, d=0):
        """a token as (root, field, field, ...)"""
        x = strip(x)
        if x in self._tok:
            return self._tok[x]
        out = (x,)
        if x.kind == "inst" and x.opc == "load" and d < 12:
            f = self.field(x)
            if f in ("first", "next", "last", "leaf", "leaflen", "type", "parent"):
                out = self.tok(self.base(x.ops[0]), d + 1) + (f,)
        elif x.kind == "inst" and x.opc == "phi" and x.bb not in self.heads:
            s = {self.tok(y, d + 1) for y, b in x.inc} if d < 4 else set()
            if len(s) == 1:
                out = s.pop()
        self._tok[x] = out
        return out

    def words(self, c, s=None):
        """words of a command built: [(kind, text or value, length value)]"""
        out, a = [], list(c.args)
        k = 0
        P = self.p
        N = {P.enum(n): n for n in ("TLTYPE_TAGGED", "TLTYPE_UNTAGGED", "TLTYPE_LIST", "TLTYPE_SQLIST", "TLTYPE_ATOM", "TLTYPE_STRING", "TLTYPE_SUB", "TLTYPE_END", "TLTYPE_POP", "TLTYPE_CONTINUATION")}
        while k < len(a):
            t = strip(a[k])
            if t.kind != "int" or t.c not in N:
                return None
            n = N[t.c]
            if n in ("TLTYPE_ATOM", "TLTYPE_STRING"):
                if k + 2 >= len(a):
                    return None
                rt = self.roots(a[k + 1], s)
                txt = {self.lit(x) for x in rt}
                out.append((n, txt.pop() if len(txt) == 1 and None not in txt else tuple(sorted(txt)) if None not in txt else None, a[k + 1], a[k + 2]))
                k += 3
            elif n == "TLTYPE_SUB":
                out.append((n, None, a[k + 1], None))
                k += 2
            else:
                if n == "TLTYPE_END":
                    break
                out.append((n, None, None, None))
                k += 1
        return out

    def commands(self, s=None):
        """[(imap_ll_command call, build call, words)]"""
        out = []
        for c in self.f.calls("imap_ll_command"):
            if s is not None and c.bb not in s.blocks:
                continue
            b = [x for x in self.roots(c.args[1]) if x.kind == "inst" and x.opc == "call" and x.cname == "imap_ll_build"]
            out.append((c, b[0] if len(b) == 1 else None, self.words(b[0], s) if len(b) == 1 else None))
        return out

    def verb(self, w):
        return " ".join(x[1] for x in w or [] if x[0] == "TLTYPE_ATOM" and isinstance(x[1], str)).upper()

    def model(self, m, more=None):
        """pins for tokens: {chain: (type, leaf) or None for absent}; chains start with the root value"""
        P = self.p

        def pin(i):
            if more:
                x = more(i)
                if x is not None:
                    return x
            if m.get((i,)):
                return B(NZ)
            if i.opc == "load":
                t = self.tok(i)
                if len(t) > 1:
                    o = t[:-1]
                    if t[-1] == "type" and m.get(o):
                        return B(P.enum("TLTYPE_" + m[o][0]))
                    if t[-1] in ("first", "next"):
                        if t in m:
                            return B(0) if m[t] is None else B(NZ)
                    if t[-1] == "leaf" and m.get(o):
                        return B(NZ) if m[o][1] is not None else B(0)
            if i.opc == "call" and i.cname in CMP:
                for a in i.args[:2]:
                    t = self.tok(a)
                    if len(t) > 1 and t[-1] == "leaf" and m.get(t[:-1]) and m[t[:-1]][1] is not None:
                        return self.comp(i, m[t[:-1]][1])
            return None
        return pin

    def response_loops(self):
        """{header: (phi over responses, command)}"""
        out = {}
        for h in self.loops:
            for q in h.insts:
                if q.opc == "phi" and q.ty == "ptr":
                    for x, b in q.inc:
                        if b not in self.loops[h]:
                            t = self.tok(x)
                            if len(t) >= 2 and t[1] == "first" and all(z == "next" for z in t[2:]) and t[0].kind == "inst" and t[0].opc == "call" and t[0].cname == "imap_ll_command":
                                out[h] = (q, t[0])
                                if len(t) > 2:
                                    self.late[h] = len(t) - 2
        return out

    def ends(self, x, s=None):
        """tokens a pointer can be"""
        return {self.tok(y) for y in self.roots(x, s, stop=tuple(i for h in self.heads for i in h.insts if i.opc == "phi"))}


def run(r, tier):
    r.rule("every message of every IMAP folder is listed; a message is fetched or copied only by its UID under the UIDVALIDITY it was indexed with; folders are opened for writing only to deliver")
    for part in (listing, fetch, copying, select, clear, append, login, starttls, start, lowlevel, nulls, parse822):
        part(r)


def opt(r, name, why=None):
    if not prog().has(name):
        r.notes.append("%s not present" % name)
        return None
    return Imap(name)


def uncond(r, v, s, start, insts, key, what, msg):
    on = [i for i in insts if i.bb in s.blocks]
    r.require(bool(on) and not v.avoidable(s, start, on), key, what, msg)


def selmode(r, v, want, key, what):
    """the write flag given to imap_select"""
    for c in v.f.calls("imap_select"):
        x = strip(c.args[3])
        if x.kind == "int":
            r.require(bool(x.c) == bool(want), key + ":mode", "%s: folder opened %s" % (what, "for writing" if want else "read-only"), "%s (%s): the folder is opened %s" % (c.where, v.f.name, "read-only although it is to be changed" if want else "for writing although it is only read"))
        else:
            r.notes.append("mode of opening a folder at %s not recognised" % c.where)


def peek(r, v):
    """no command marks messages as seen"""
    for c, b, w in v.commands():
        for x in w or []:
            if x[0] == "TLTYPE_ATOM" and isinstance(x[1], str):
                t = x[1].upper()
                r.require(not (t.startswith("BODY[") or t in ("RFC822", "RFC822.TEXT")), "C22:peek:" + v.f.name, "reading leaves the flags as they are", "%s (%s): %s marks the messages read as seen" % (b.where, v.f.name, x[1]))


CORE = [("UNTAGGED", None), ("ATOM", "1"), ("ATOM", "FETCH"), ("LIST", None)]


def outer_model(L, words=("1", "FETCH"), types=("ATOM", "ATOM", "LIST")):
    a = (L, "first")
    b = a + ("next",)
    c = b + ("next",)
    return {(L,): ("UNTAGGED", None), a: (types[0], words[0]), b: (types[1], words[1]), c: (types[2], None), c + ("first",): ("ATOM", "UID")}


def inner_loop(v, h, L):
    for k, body in v.loops.items():
        if k is h or k not in v.loops[h]:
            continue
        for q in k.insts:
            if q.opc == "phi" and q.ty == "ptr":
                ini = {v.tok(x) for x, b in q.inc if b not in body}
                if ini == {(L, "first", "next", "next", "first")}:
                    return k, q
    return None, None


def item(P, word, typ, val):
    n = (P, "next")
    return {(P,): ("ATOM", word), n: (typ, val), n + ("next",): ("ATOM", "X"), n + ("first",): ("ATOM", "Y")}


def listing(r):
    v = opt(r, "build_imap_message_list")
    if not v:
        return
    f = v.f
    sel = list(f.calls("imap_select"))
    rl = v.response_loops()
    if len(sel) != 1 or len(rl) != 1:
        r.notes.append("scan of an IMAP folder not recognised")
        return
    sel = sel[0]
    (h, (L, cmd)), = rl.items()
    w = sel.where
    selmode(r, v, 0, "C22:list", "indexing")
    peek(r, v)
    # every configured folder that is not omitted
    top = v.outer(sel.bb)
    om = list(f.calls("is_globber_array_match"))
    if top is None:
        r.notes.append("loop over the IMAP folders not recognised")
    else:
        c = v.counted(top)
        cz = c and c.phi is not None and loopinfo.covers_from_zero(c)
        if cz:
            r.require(cz[0] == 0 and cz[2] == 0 and not c.other_exits, "C22:list:every", "every IMAP folder is scanned", "%s (build_imap_message_list): only folders [%s, n%+d) of the IMAP folders are scanned%s" % (top.insts[-1].where, cz[0], cz[2], ", and the scan may stop early" if c.other_exits else ""))
        else:
            r.notes.append("range of the loop over the IMAP folders not recognised")
        for o in (0, 1):
            s = v.round(top, lambda i: B(o) if i in om else None)
            if o and om:
                r.require(sel.bb not in s.blocks, "C22:list:omit", "omitted folders are not scanned", "%s (build_imap_message_list): an IMAP folder matching an omit pattern is scanned" % w)
            elif not o:
                r.require(sel.bb in s.blocks and not v.skips(s, top, [sel]), "C22:list:scan", "other folders are scanned", "%s (build_imap_message_list): an IMAP folder is not always scanned" % w)
        if not om:
            r.bad("C22:list:omit", "%s (build_imap_message_list): the omit patterns are not looked at" % w)
        for c in om:
            a = strip(c.args[0])
            if a.kind in ("arg", "null"):
                r.require(a is f.params[2], "C22:list:omit", "omit patterns used", "%s (build_imap_message_list): the omit patterns are not used" % c.where)
            x, y = v.name(c.args[1]), v.name(sel.args[1])
            r.require(x == y, "C22:list:omit", "the folder scanned is the one judged", "%s (build_imap_message_list): omit patterns are matched against something else than the folder" % c.where)
    ex = strip(sel.args[4]) if len(sel.args) > 4 else None
    exl = [i for i in f.insts() if i.opc == "load" and ex is not None and ex.kind == "inst" and ex.opc == "alloca" and strip(i.ops[0]) is ex]
    if top is not None:
        for n in (1, 2, 1000):
            s = v.round(top, lambda i: B(0) if i in om else B(n) if i in exl else B(NZ) if i is sel or i.opc == "call" and i.cname == "imap_ll_build" else None)
            r.require(cmd.bb in s.blocks and not v.skips(s, top, [cmd]), "C22:list:exists", "a folder of %d messages is scanned" % n, "%s (build_imap_message_list): a folder of %d messages is not always scanned" % (cmd.where, n))
    # the request
    for c, b, ws in v.commands():
        if ws:
            t = v.verb(ws)
            if t.startswith("UID FETCH"):
                r.require("1:*" in t.split(), "C22:list:all", "all messages are asked for", "%s (build_imap_message_list): not all messages of a folder are asked for (%s)" % (b.where, t))
                r.require("FLAGS" in t, "C22:list:flags", "flags are asked for", "%s (build_imap_message_list): flags are not asked for, so deleted messages are listed" % b.where)
            elif t:
                r.require(t.startswith("UID"), "C22:list:uid", "UIDs are asked for", "%s (build_imap_message_list): the request %s gives no UIDs" % (b.where, t))
    # a message is listed if it has a UID and is not deleted
    k, P = inner_loop(v, h, L)
    add = [i for b in v.loops[h] for i in b.insts if i.opc == "store" and any(q.endswith("msgpath_array.n") for q in v.ap(i))]
    if k is None or not add:
        r.notes.append("response to the scan of an IMAP folder not recognised")
        return
    phis = [q for q in k.insts if q.opc == "phi" and q is not P]
    flagl = [x for x in v.loops if x is not k and x in v.loops[k]]
    # UID item
    s = v.round(k, v.model(item(P, "UID", "ATOM", "17")))
    uid = [q for q in phis if q.ty == "ptr" and any(v.ends(x, s) == {(P, "next", "leaf")} for x, b in q.inc if b in v.loops[k] and (b, k) in s.edges)]
    dele = [q for q in phis if q.ty != "ptr"]
    r.require(any(b in v.loops[k] and x is k for b, x in s.edges), "C22:list:items", "all items of a response are looked at", "%s (build_imap_message_list): the items of a response after UID are not looked at, so flags that follow it are missed" % k.insts[-1].where)
    if len(uid) != 1:
        if not any(v.tok(x) == (P, "next", "leaf") for b in s.blocks if b in v.loops[k] for x in b.insts if x.opc == "load") or [q for q in phis if q.ty == "ptr"] and all((P, "next", "leaf") not in v.ends(x) for q in phis for x, b in q.inc if b in v.loops[k]):
            r.bad("C22:list:uid", "%s (build_imap_message_list): the UID of a message is not taken from the response" % w)
        else:
            r.notes.append("UID of an IMAP message not recognised")
        return
    uid = uid[0]
    if not dele:
        s = v.round(h, v.model(outer_model(L), lambda i: B(NZ) if i is uid or i.opc == "call" and i.cname in ("malloc", "realloc") else None))
        r.require(bool([i for i in add if i.bb in s.blocks]), "C22:list:add", "a message is listed", "%s (build_imap_message_list): no message is ever listed" % add[0].where)
    if len(dele) != 1:
        r.notes.append("mark of deleted IMAP messages not recognised")
        return
    dele = dele[0]
    for q, what, val in ((uid, "UID", "null"), (dele, "deletion mark", 0)):
        for x, b in q.inc:
            if b not in v.loops[k]:
                x = strip(x)
                if x.kind == "int" or x.kind in ("null", "zero"):
                    r.require(x.kind != "int" or x.c == 0, "C22:list:reset", "%s reset for every message" % what, "%s (build_imap_message_list): the %s is not reset for every message" % (k.insts[-1].where, what))
                elif x.kind == "inst" and x.opc == "phi" and x.bb is h:
                    r.bad("C22:list:reset", "%s (build_imap_message_list): the %s of one message is kept for the next" % (k.insts[-1].where, what))
    for word, typ, val in (("FLAGS", "LIST", None), ("INTERNALDATE", "STRING", "x"), ("FLAGS", "ATOM", "x")):
        s = v.round(k, v.model(item(P, word, typ, val)))
        got = {e for x, b in uid.inc if b in v.loops[k] and (b, k) in s.edges for e in v.ends(x, s)}
        r.require(got <= {(uid,)}, "C22:list:uid", "only UID gives the UID", "%s (build_imap_message_list): %s is taken for the UID" % (w, word))
        r.require(not v.leaves(s, k), "C22:list:items", "all items of a response are looked at", "%s (build_imap_message_list): the items of a response after %s are not looked at" % (k.insts[-1].where, word))
    # deletion flag
    for fl in flagl:
        q = [x for x in fl.insts if x.opc == "phi" and x.ty == "ptr"]
        d = [x for x in fl.insts if x.opc == "phi" and x.ty != "ptr"]
        if len(q) != 1 or len(d) != 1:
            r.notes.append("flags of IMAP messages not recognised")
            continue
        for word, want in (("\\Deleted", 1), ("\\Seen", 0), ("\\Draft", 0)):
            for was in (0, 1):
                s = v.round(fl, v.model({(q[0],): ("ATOM", word)}, lambda i: B(was) if i is d[0] else None))
                b = v.back(s, d[0])
                if b:
                    r.require(bool(want or was) == (0 not in b), "C22:list:deleted", "%s: deleted %d" % (word, want or was), "%s (build_imap_message_list): a message with the flag %s is %s" % (fl.insts[-1].where, word, "not taken as deleted" if want or was else "taken as deleted"))
                r.require(not v.leaves(s, fl) or want, "C22:list:flags", "all flags are looked at", "%s (build_imap_message_list): the flags after %s are not looked at" % (fl.insts[-1].where, word))
    for u, d in ((NZ, 0), (0, 0), (NZ, 1)):
        s = v.round(h, v.model(outer_model(L), lambda i: B(u) if i is uid else B(d) if i is dele else B(NZ) if i.opc == "call" and i.cname in ("malloc", "realloc") else None))
        on = [i for i in add if i.bb in s.blocks]
        if u and not d:
            r.require(bool(on) and not v.skips(s, h, on), "C22:list:add", "a message is listed", "%s (build_imap_message_list): a message with a UID that is not deleted is not listed" % add[0].where)
        else:
            r.require(not on, "C22:list:not", "a message %s is left out" % ("marked as deleted" if d else "without UID"), "%s (build_imap_message_list): a message %s is listed" % (add[0].where, "marked as deleted" if d else "without UID"))
        oth = [e for e in v.leaves(s, h) if e[0] is not h]
        r.require(not oth, "C22:list:stop", "all responses are looked at", "%s (build_imap_message_list): the scan stops before the last response" % h.insts[-1].where)
    for m in (outer_model(L, ("5", "EXISTS")), outer_model(L, types=("STRING", "ATOM", "LIST")), {(L, "first"): None}, outer_model(L, ("BYE", "x")) | {(L, "first", "next"): None}):
        s = v.round(h, v.model(m))
        r.require(not [i for i in add if i.bb in s.blocks and m.get((L, "first", "next"), ("", ""))[1] != "FETCH"] if m.get((L, "first", "next")) else True, "C22:list:other", "other responses are no messages", "%s (build_imap_message_list): another response is taken for a message" % add[0].where)
        r.require(not [e for e in v.leaves(s, h) if e[0] is not h], "C22:list:stop", "other responses do not end the scan", "%s (build_imap_message_list): the scan stops at another response" % h.insts[-1].where)
    for i in add:
        g = v.lin(i.ops[0])
        if len(g.atoms()) <= 1:
            r.require(g.const == 1 and g.atoms(), "C22:list:count", "counted once", "%s (build_imap_message_list): a listed message is counted %d times" % (i.where, g.const))
    # what is noted
    for i in v.stores("msgpath_array.paths[].type", within=v.loops[h]):
        x = strip(i.ops[0])
        if x.kind == "int":
            r.require(x.c == v.p.enum("MTY_IMAP"), "C22:list:type", "noted as IMAP message", "%s (build_imap_message_list): an IMAP message is noted as another type" % i.where)
    path = [i for i in v.stores(".src.mpf.path", ".src.mbox", ".src.mpf", within=v.loops[h])]
    for i in path:
        x = None
        for c in f.calls("sprintf", "snprintf"):
            if v.obj(c.args[0]) & v.obj(i.ops[0]):
                x = c
        if x is None:
            r.notes.append("name noted for IMAP messages not recognised")
            continue
        a = x.args[1:] if x.cname == "sprintf" else x.args[2:]
        if v.lit(a[0]) != "%s:%s:%s":
            r.notes.append("name noted for IMAP messages not recognised: %s" % v.lit(a[0]))
            continue
        ok = strip(a[1]) is sel and uid in [strip(y) for y in (a[2], *v.roots(a[2], None, (uid,)))] and v.name(a[3]) == v.name(sel.args[1])
        r.require(ok, "C22:list:name", "noted as UIDVALIDITY:UID:folder", "%s (build_imap_message_list): IMAP messages are not noted as UIDVALIDITY:UID:folder" % x.where)
    r.require(bool(path), "C22:list:name", "name noted", "build_imap_message_list: the name of an IMAP message is not noted")
    # failures
    st = [c for c in f.calls("imap_ll_status")]
    for what, pin in (("cannot be opened", lambda i: B(0) if i is sel else None), ("gives no response", lambda i: B(NZ) if i is sel else B(0) if i is cmd else None)):
        s = v.round(top, pin) if top is not None else Sccp(f, pin=pin, args={}, cap=16)
        r.require(not [i for i in add if i.bb in s.blocks], "C22:list:fail", "nothing listed if a folder %s" % what, "%s (build_imap_message_list): messages are listed although the folder %s" % (w, what))
        if top is not None:
            L2 = v.counted(top)
            oth = [e for e in v.leaves(s, top) if not (L2 and L2.bound_exit and e[0] is L2.bound_exit[0])]
            r.require(not oth, "C22:list:next", "the next folder is scanned if one %s" % what, "%s (build_imap_message_list): the scan ends at a folder that %s" % (w, what))


def seps(v):
    """the strchr(':') calls that take a recorded name apart: (first, second)"""
    cs = [c for c in v.f.calls("strchr", "index") if strip(c.args[1]).kind == "int" and strip(c.args[1]).c == ord(":")]
    a = [c for c in cs if strip(c.args[0]).kind == "arg"]
    b = [c for c in cs if c not in a]
    if len(a) != 1 or len(b) != 1:
        return None
    return a[0], b[0]


def validity(r, v, key, name, sel, action, what):
    """nothing is done unless the folder's UIDVALIDITY is the one recorded"""
    f = v.f
    mem = [c for c in f.calls("memcmp", "strncmp", "strcmp", "bcmp") if any(sel in v.roots(a) for a in c.args[:2])]
    lens = [c for c in f.calls("strlen") if sel in v.roots(c.args[0])]
    ic = [i for i in f.insts() if i.opc == "icmp" and i.pred in ("eq", "ne") and any(strip(o) in lens for o in i.ops)]
    # actual[n] being the terminator says the same as strlen(actual) == n after a match over n bytes
    term = [i for i in f.insts() if i.opc == "load" and i.ty == "i8" and sel in v.obj(i.ops[0])]
    w = sel.where
    if not mem:
        r.bad(key + ":validity", "%s (%s): the UIDVALIDITY of the folder is not compared with the one recorded" % (w, name))
        return

    def go(m, ln, selv=NZ):
        def pin(i):
            if i in mem:
                return B(m)
            if i in ic:
                return B(int((i.pred == "eq") == ln))
            if i in term:
                return B(0 if ln else 49)
            if i is sel:
                return B(selv)
            if i.opc == "call" and i.cname in ("strchr", "index", "imap_ll_build"):
                return B(NZ)
            return None
        return Sccp(f, pin=pin, args={}, cap=24)
    s = go(1, True)
    r.require(action.bb not in s.blocks, key + ":validity", "%s only under the UIDVALIDITY recorded" % what, "%s (%s): %s although UIDVALIDITY changed" % (action.where, name, what))
    full = all(c.cname == "strcmp" for c in mem)
    if not full:
        s = go(0, False)
        r.require(bool(ic or term) and action.bb not in s.blocks, key + ":validity", "all of UIDVALIDITY is compared", "%s (%s): %s although UIDVALIDITY changed (only a part of it is compared)" % (action.where, name, what))
    s = go(0, True)
    uncond(r, v, s, f.blocks[0], [action], key + ":go", "%s if UIDVALIDITY is unchanged" % what, "%s (%s): not always %s although UIDVALIDITY is the same" % (action.where, name, what))
    s = go(0, True, 0)
    r.require(action.bb not in s.blocks, key + ":closed", "not %s if the folder cannot be opened" % what, "%s (%s): %s although the folder cannot be opened" % (action.where, name, what))
    sp = seps(v)
    if not sp:
        r.notes.append("parts of the recorded name in %s not recognised" % name)
        return
    a, b = sp
    A0 = strip(a.args[0])
    for c in mem:
        o = [strip(x) for x in c.args[:2] if sel not in v.roots(x)]
        for x in o:
            if x.kind == "arg":
                r.require(x is A0, key + ":validity", "the UIDVALIDITY recorded is compared", "%s (%s): something else than the recorded UIDVALIDITY is compared" % (c.where, name))
            elif v.base(x) in (a, b):
                r.bad(key + ":validity", "%s (%s): something else than the recorded UIDVALIDITY is compared" % (c.where, name))
        if c.cname != "strcmp":
            n = v.lin(c.args[2])
            d = n.add(v.lin(a), -1).add(v.lin(A0), 1)
            if not d.atoms():
                r.require(d.const == 0, key + ":validity", "its length is that of the first part", "%s (%s): UIDVALIDITY is compared over a length that is off by %+d" % (c.where, name, d.const))
    for i in term:
        x = v.idx(i.ops[0])
        if x is not None:
            d = v.lin(x).add(v.lin(a), -1).add(v.lin(A0), 1)
            if not d.atoms():
                r.require(d.const == 0, key + ":validity", "its length is that of the first part", "%s (%s): the length of UIDVALIDITY is compared with one that is off by %+d" % (i.where, name, d.const))
    for i in ic:
        o = [x for x in i.ops if strip(x) not in lens]
        for x in o:
            d = v.lin(x).add(v.lin(a), -1).add(v.lin(A0), 1)
            if not d.atoms():
                r.require(d.const == 0, key + ":validity", "its length is that of the first part", "%s (%s): the length of UIDVALIDITY is compared with one that is off by %+d" % (i.where, name, d.const))
    # folder and UID
    g = v.lin(sel.args[1]).add(v.lin(b), -1)
    if not g.atoms():
        r.require(g.const == 1, key + ":folder", "the folder is the last part", "%s (%s): the wrong part of the recorded name is used as the folder" % (w, name))
    elif strip(sel.args[1]).kind == "arg" or v.base(sel.args[1]) is a:
        r.bad(key + ":folder", "%s (%s): the wrong part of the recorded name is used as the folder" % (w, name))
    g = v.lin(b.args[0]).add(v.lin(a), -1)
    if not g.atoms():
        r.require(g.const == 1, key + ":parts", "the second part follows the first", "%s (%s): the recorded name is not taken apart at its colons" % (b.where, name))
    for c, bl, ws in v.commands():
        k = [x for x in ws or [] if x[0] == "TLTYPE_ATOM" and x[1] is None]
        for x in k:
            g = v.lin(x[2]).add(v.lin(a), -1)
            n = v.lin(x[3]).add(v.lin(b), -1).add(v.lin(a), 1)
            if not g.atoms():
                r.require(g.const == 1, key + ":uid", "the UID is the second part", "%s (%s): the wrong part of the recorded name is used as the UID" % (bl.where, name))
            if not n.atoms():
                r.require(n.const == -1, key + ":uid", "all of the UID", "%s (%s): the length of the UID is off by %+d" % (bl.where, name, n.const + 1))
            elif strip(x[3]).kind == "int":
                r.bad(key + ":uid", "%s (%s): the UID is sent with the wrong length" % (bl.where, name))
        if ws is not None and not k:
            r.notes.append("UID sent by %s not recognised" % name)
    return sp


def fetch(r):
    v = opt(r, "imap_fetch_message_raw")
    if not v:
        return
    f, name = v.f, "imap_fetch_message_raw"
    A = f.params
    sel = list(f.calls("imap_select"))
    cmds = v.commands()
    if len(sel) != 1 or len(cmds) != 1 or len(A) != 4:
        r.notes.append("%s not recognised" % name)
        return
    sel, (cmd, bl, ws) = sel[0], cmds[0]
    selmode(r, v, 0, "C22:fetch", "fetching")
    peek(r, v)
    sp = validity(r, v, "C22:fetch", name, sel, cmd, "fetched")
    if ws:
        t = v.verb(ws)
        r.require(t.startswith("UID FETCH"), "C22:fetch:cmd", "fetched by UID", "%s (%s): messages are not fetched by UID (%s)" % (bl.where, name, t))
        r.require("BODY.PEEK[]" in t or "BODY[]" in t or "RFC822" in t.split(), "C22:fetch:body", "the whole message is asked for", "%s (%s): not the whole message is asked for (%s)" % (bl.where, name, t))
    rl = v.response_loops()
    cb = [i for i in f.insts() if i.opc == "call" and not i.cname and strip(i.callee) is A[2]]
    if len(rl) != 1 or not cb:
        r.notes.append("response to a fetch not recognised")
        return
    (h, (L, c0)), = rl.items()
    cbw = cb[0].where
    # no response or a refusal
    st = list(f.calls("imap_ll_status"))
    okc = [c for c in f.calls("strcmp", "strcasecmp") if any(x in st for a in c.args[:2] for x in v.roots(a))]
    for what, pin in (("the server does not respond", lambda i: B(0) if i is cmd else None), ("the server refuses", lambda i: B(NZ) if i is cmd else v.comp(i, "NO") if i in okc else None)):
        s = Sccp(f, pin=pin, args={}, cap=16)
        on = [i for i in cb if i.bb in s.blocks]
        if what.endswith("refuses") and not okc:
            r.notes.append("status of the response to a fetch not looked for")
            continue
        r.require(not on, "C22:fetch:fail", "nothing is passed on if %s" % what, "%s (%s): something is passed on although %s" % (cbw, name, what))
    k, P = inner_loop(v, h, L)
    if k is None:
        r.notes.append("items of the response to a fetch not recognised")
        return
    phis = [q for q in k.insts if q.opc == "phi" and q is not P]
    got = {}
    for word, typ in (("UID", "ATOM"), ("BODY[]", "STRING"), ("FLAGS", "LIST")):
        s = v.round(k, v.model(item(P, word, typ, "17")))
        r.require(not v.leaves(s, k), "C22:fetch:items", "all items of a response are looked at", "%s (%s): the items of a response after %s are not looked at" % (k.insts[-1].where, name, word))
        for q in phis:
            e = {z for x, b in q.inc if b in v.loops[k] and (b, k) in s.edges for z in v.ends(x, s)}
            got[word, q] = e
    uid = [q for q in phis if got["UID", q] == {(P, "next", "leaf")}]
    uln = [q for q in phis if got["UID", q] == {(P, "next", "leaflen")}]
    raw = [q for q in phis if got["BODY[]", q] == {(P, "next", "leaf")}]
    rln = [q for q in phis if got["BODY[]", q] == {(P, "next", "leaflen")}]
    if len(uid) != 1 or len(raw) != 1 or uid[0] is raw[0]:
        known = all(all(len(e) > 1 and e[-1] in ("leaf", "leaflen") or e[0] in phis for e in got[k2]) for k2 in got)
        if known and not raw:
            r.bad("C22:fetch:raw", "%s (%s): the text of the message is not taken from BODY[]" % (cbw, name))
        elif known and not uid:
            r.bad("C22:fetch:uid", "%s (%s): the UID of a response is not looked at" % (cbw, name))
        else:
            r.notes.append("UID or text of a fetched message not recognised")
        return
    uid, raw = uid[0], raw[0]
    for q, what in ((uid, "UID"), (raw, "text")):
        for word in ("UID", "BODY[]", "FLAGS"):
            if (word == "UID") != (q is uid) or word == "FLAGS":
                if not (word == "BODY[]" and q is raw):
                    r.require(got[word, q] <= {(q,)}, "C22:fetch:items", "%s not taken from %s" % (what, word), "%s (%s): the %s of a message is taken from %s" % (cbw, name, what, word))
        for x, b in q.inc:
            if b not in v.loops[k]:
                x = strip(x)
                if x.kind == "inst" and x.opc == "phi" and x.bb is h:
                    r.bad("C22:fetch:reset", "%s (%s): the %s of one response is kept for the next" % (k.insts[-1].where, name, what))
    for c in cb:
        x = v.roots(c.args[0], None, (raw, uid))
        if x in ([raw], [uid]):
            r.require(x == [raw], "C22:fetch:raw", "the text of the message is passed on", "%s (%s): something else than the text of the message is passed on" % (c.where, name))
        y = v.roots(c.args[1], None, tuple(phis))
        if rln and len(y) == 1 and (y[0] in phis or y[0].kind == "inst" and y[0].opc in ("add", "sub")):
            r.require(y[0] in rln, "C22:fetch:len", "with its length", "%s (%s): the text of the message is passed on with a wrong length" % (c.where, name))
        y = y[0] if len(y) == 1 else None
        if y is not None and y.kind == "inst" and y.opc == "call" and y.cname == "strlen":
            r.bad("C22:fetch:len", "%s (%s): the text of the message is passed on up to its first NUL byte only" % (c.where, name))
        if not rln and y is not None and y in phis:
            sB = v.round(k, v.model(item(P, "BODY[]", "STRING", "17")))
            for x, b in y.inc:
                if b in v.loops[k] and (b, k) in sB.edges:
                    for z in v.roots(x, sB, (y,)):
                        g = v.lin(z)
                        at = [v.lin.val(a) for a in g.atoms()]
                        if len(at) == 1 and v.tok(at[0]) == (P, "next", "leaflen"):
                            r.require(g.const == 0, "C22:fetch:len", "over its length", "%s (%s): the text of the message is passed on with a length that is off by %+d" % (c.where, name, g.const))
        z = strip(c.args[2])
        if z.kind == "arg":
            r.require(z is A[3], "C22:fetch:arg", "with the caller's argument", "%s (%s): the caller's argument is not passed on" % (c.where, name))
    # which message
    mem = [c for c in f.calls("memcmp", "strncmp", "strcmp", "bcmp") if c.bb in v.loops[h] and c.bb not in v.loops[k] and any(uid in v.roots(a, None, (uid,)) for a in c.args[:2])]
    ic = [i for b in v.loops[h] if b not in v.loops[k] for i in b.insts if i.opc == "icmp" and i.pred in ("eq", "ne") and any(x in uln for o in i.ops for x in v.roots(o, None, tuple(uln)))]
    if not mem:
        r.bad("C22:fetch:which", "%s (%s): the text is passed on without a look at whose it is" % (cbw, name))
        return

    def go(u, t, m, ln):
        def more(i):
            if i is uid:
                return B(u)
            if i is raw:
                return B(t)
            if i in mem:
                return B(m)
            if i in ic:
                return B(int((i.pred == "eq") == ln))
            return None
        return v.round(h, v.model(outer_model(L), more), cap=24)
    s = go(NZ, NZ, 0, True)
    s2 = Sccp(f, pin=v.model(outer_model(L), lambda i: B(NZ) if i in (uid, raw) else B(0) if i in mem else B(int(i.pred == "eq")) if i in ic else None), entry=h, args={}, cap=24)
    on = [i for i in cb if i.bb in s2.blocks]
    r.require(bool(on), "C22:fetch:pass", "the message asked for is passed on", "%s (%s): the text of the message asked for is not passed on" % (cbw, name))
    r.require(not v.skips(s2, h, on), "C22:fetch:pass", "the message asked for is always passed on", "%s (%s): the text of the message asked for is not always passed on" % (cbw, name))
    for u, t, m, ln, why in ((0, NZ, 0, True, "has no UID"), (NZ, 0, 0, True, "has no text"), (NZ, NZ, 1, True, "has another UID"), (NZ, NZ, 0, False, "has a longer or shorter UID")):
        if why.endswith("shorter UID") and all(c.cname == "strcmp" for c in mem):
            continue
        s2 = Sccp(f, pin=v.model(outer_model(L), lambda i: B(u) if i is uid else B(t) if i is raw else B(m) if i in mem else B(int((i.pred == "eq") == ln)) if i in ic else None), entry=h, args={}, cap=24, avoid=v.exits(h) if False else ())
        on = [i for i in cb if i.bb in s2.blocks]
        if why.endswith("shorter UID") and not ic:
            on = cb
        r.require(not on, "C22:fetch:which", "a response that %s is passed over" % why, "%s (%s): a response that %s is taken for the message asked for" % (cbw, name, why))
    if sp:
        a, b = sp
        for c in mem:
            o = [x for x in c.args[:2] if uid not in v.roots(x, None, (uid,))]
            for x in o:
                g = v.lin(x).add(v.lin(a), -1)
                if not g.atoms():
                    r.require(g.const == 1, "C22:fetch:which", "the UID recorded is compared", "%s (%s): something else than the recorded UID is compared" % (c.where, name))
                elif strip(x).kind == "arg" or v.base(x) is b:
                    r.bad("C22:fetch:which", "%s (%s): something else than the recorded UID is compared" % (c.where, name))
            if c.cname != "strcmp" and not [x for x in v.roots(c.args[2], None, tuple(uln)) if x in uln]:
                n = v.lin(c.args[2]).add(v.lin(b), -1).add(v.lin(a), 1)
                if not n.atoms():
                    r.require(n.const == -1, "C22:fetch:which", "over its length", "%s (%s): the UID is compared over a length that is off by %+d" % (c.where, name, n.const + 1))
        for i in ic:
            for o in i.ops:
                if not [x for x in v.roots(o, None, tuple(uln)) if x in uln]:
                    n = v.lin(o).add(v.lin(b), -1).add(v.lin(a), 1)
                    if not n.atoms():
                        r.require(n.const == -1, "C22:fetch:which", "length of the UID compared", "%s (%s): the length of the UID is compared with one that is off by %+d" % (i.where, name, n.const + 1))


def copying(r):
    v = opt(r, "imap_copy_message")
    if not v:
        return
    f, name = v.f, "imap_copy_message"
    sel = list(f.calls("imap_select"))
    cmds = v.commands()
    if len(sel) != 1 or not cmds or len(f.params) != 3:
        r.notes.append("%s not recognised" % name)
        return
    first = [c for c in cmds if not any(d is not c and sym.inst_dominates(v.dom, d[0], c[0]) for d in cmds)]
    selmode(r, v, 0, "C22:copy", "copying")
    validity(r, v, "C22:copy", name, sel[0], first[0][0], "copied")
    for c, b, ws in cmds:
        if ws:
            t = v.verb(ws)
            r.require(t.startswith("UID COPY"), "C22:copy:cmd", "copied by UID", "%s (%s): messages are not copied by UID (%s)" % (b.where, name, t))
            to = [x for x in ws if x[0] == "TLTYPE_STRING"]
            for x in to:
                if strip(x[2]).kind == "arg":
                    r.require(strip(x[2]) is f.params[2], "C22:copy:to", "to the results folder", "%s (%s): messages are not copied to the results folder" % (b.where, name))
                elif v.base(x[2]).kind in ("arg", "inst") and v.base(x[2]) is not f.params[2]:
                    r.bad("C22:copy:to", "%s (%s): messages are not copied to the results folder" % (b.where, name))
    trycreate(r, v, "C22:copy", name, f.params[2], cmds)


def trycreate(r, v, key, name, folder, cmds):
    f = v.f
    tc = list(f.calls("imap_ll_is_trycreate"))
    cr = list(f.calls("create_folder"))
    if tc and not cr and not any("CREATE" in v.verb(w) for c, b, w in v.commands()) and all(w is not None for c, b, w in v.commands()):
        r.bad(key + ":create", "%s (%s): a missing results folder is not created" % (tc[0].where, name))
        return
    if not tc or not cr:
        r.notes.append("creation of the results folder in %s not recognised" % name)
        return
    for t in (0, 1):
        def pin(i):
            if i in tc:
                return B(t)
            if i.opc == "call" and i.cname in ("imap_select", "imap_ll_command", "imap_ll_build", "strchr"):
                return B(NZ)
            if i.opc == "call" and i.cname == "memcmp":
                return B(0)
            return None
        s = Sccp(f, pin=pin, args={}, cap=24)
        if t:
            r.require(all(c.bb in s.blocks and not v.avoidable(s, tc[0].bb, [c]) for c in cr), key + ":create", "a missing results folder is created", "%s (%s): a missing results folder is not created" % (tc[0].where, name))
            again = [c for c, b, w in cmds if sym.inst_dominates(v.dom, cr[0], c)]
            r.require(bool(again) and not v.avoidable(s, cr[0].bb, again), key + ":again", "and the message is delivered to it", "%s (%s): after the results folder has been created the message is not delivered to it" % (cr[0].where, name))
            for c, b, w in cmds:
                if c in again and b is not None:
                    r.require(any(b is b2 for c2, b2, w2 in cmds if c2 not in again), key + ":again", "by the same command", "%s (%s): after the results folder has been created another command is sent" % (c.where, name))
        else:
            r.require(not [c for c in cr if c.bb in s.blocks], key + ":create", "no folder is created otherwise", "%s (%s): the results folder is created although it exists" % (cr[0].where, name))
    for c in cr:
        x = strip(v.base(c.args[1]))
        if x.kind == "arg" or any(y.kind == "inst" and y.opc == "call" and y.cname in ("strchr", "index") for y in [x]):
            r.require(x is folder, key + ":create", "the results folder is created", "%s (%s): another folder than the results folder is created" % (c.where, name))


def select(r):
    v = opt(r, "imap_select")
    if not v:
        return
    f, name = v.f, "imap_select"
    A = f.params
    cmds = v.commands()
    if len(cmds) != 1 or len(A) != 5:
        r.notes.append("imap_select not recognised")
        return
    cmd, bl, _ = cmds[0]
    w = cmd.where
    F = {k: [i for i in f.insts() if i.opc == "load" and any(q.endswith("imap_ll." + k) for q in v.ap(i)) and sym.inst_dominates(v.dom, i, cmd) | (i.bb in _before(v, cmd))] for k in ("selected_folder", "selected_folder_namelen", "selected_folder_writable", "selected_folder_uidvalidity")}
    mem = [c for c in f.calls("memcmp", "strncmp", "strcmp") if any(i in F["selected_folder"] for a in c.args[:2] for i in v.roots(a))]
    ic = [i for i in f.insts() if i.opc == "icmp" and i.pred in ("eq", "ne") and any(strip(o) in F["selected_folder_namelen"] for o in i.ops)]

    def go(open_=1, m=0, ln=True, wr=1, need=0, more=None):
        def pin(i):
            if more:
                x = more(i)
                if x is not None:
                    return x
            if i in F["selected_folder"]:
                return B(NZ if open_ else 0)
            if i in mem:
                return B(m)
            if i in ic:
                return B(int((i.pred == "eq") == ln))
            if i in F["selected_folder_writable"]:
                return B(wr)
            if i.opc == "call" and i.cname in ("malloc", "strdup", "imap_ll_build"):
                return B(NZ)
            return None
        return Sccp(f, pin=pin, args={A[3]: B(need)}, cap=24)
    for ch, what in ((dict(open_=0), "none is selected"), (dict(m=1), "another one is selected"), (dict(ln=False), "another one is selected, whose name starts alike"), (dict(wr=0, need=1), "it is selected for reading only")):
        for need in (0, 1):
            if "need" in ch and need != ch["need"]:
                continue
            if "ln" in ch and mem and all(c.cname == "strcmp" for c in mem):
                continue
            s = go(**dict(ch, need=need))
            ok = cmd.bb in s.blocks and not v.avoidable(s, f.blocks[0], [cmd])
            if "ln" in ch and not ic:
                ok = cmd.bb in s.blocks and not mem
            r.require(ok, "C22:select:send", "a folder is selected if %s" % what, "%s (%s): a folder is not selected although %s" % (w, name, what))
    for i in ic:
        o = [x for x in i.ops if strip(x) not in F["selected_folder_namelen"]]
    for c in mem:
        o = [strip(x) for x in c.args[:2] if not any(y in F["selected_folder"] for y in v.roots(x))]
        if o and o[0].kind == "arg":
            r.require(o[0] is A[1], "C22:select:name", "the folder asked for is compared", "%s (%s): something else than the folder asked for is compared" % (c.where, name))
    for need, word in ((0, "EXAMINE"), (1, "SELECT")):
        s = go(open_=0, need=need)
        ws = v.words(bl, s)
        t = v.verb(ws)
        if t:
            r.require(t == word, "C22:select:mode:%d" % need, "%s to %s" % (word, "write" if need else "read"), "%s (%s): a folder is opened by %s to be %s" % (bl.where, name, t, "changed" if need else "read"))
        for x in ws or []:
            if x[0] == "TLTYPE_STRING" and strip(x[2]).kind == "arg":
                r.require(strip(x[2]) is A[1], "C22:select:folder", "the folder asked for is opened", "%s (%s): another folder is opened than the one asked for" % (bl.where, name))
    # after failure nothing is remembered
    st = list(f.calls("imap_ll_status"))
    okc = [c for c in f.calls("strcmp", "strcasecmp") if any(x in st for a in c.args[:2] for x in v.roots(a))]
    rl = v.response_loops()
    # values the function returns and where it stores
    null = [i for i in v.stores("imap_ll.selected_folder") if strip(i.ops[0]).kind in ("null", "zero")]
    for what, pin in (("the server does not respond", lambda i: B(0) if i is cmd else None), ("the server refuses", lambda i: B(NZ) if i is cmd else v.comp(i, "NO") if i in okc else None)):
        if what.endswith("refuses") and not okc:
            r.notes.append("status of the response to SELECT not looked for")
            continue
        for open_ in (0, 1):
            s = go(open_=open_, m=1, more=pin)
            res = v.result(s)
            if res is None:
                keep = [i for i in v.stores("imap_ll.selected_folder") if i.bb in s.blocks and strip(i.ops[0]).kind not in ("null", "zero")]
                r.require(not keep, "C22:select:fail", "no result if %s" % what, "%s (%s): a folder counts as opened although %s" % (w, name, what))
            else:
                r.require(res == B(0), "C22:select:fail", "no result if %s" % what, "%s (%s): a folder counts as opened although %s" % (w, name, what))
            if open_:
                r.require(bool(null) and not v.avoidable(s, f.blocks[0], [i for i in null if i.bb in s.blocks]), "C22:select:forget", "the old folder is forgotten if %s" % what,
                          "%s (%s): if %s, the old folder still counts as selected although the server has none selected" % (w, name, what))
    ret = [i for b in f.blocks if b.term.opc == "ret" and b.term.ops for i in v.roots(b.term.ops[0])]
    if len(rl) != 1:
        r.notes.append("response to SELECT not recognised")
        return
    (h, (L, c0)), = rl.items()
    tokU = (L, "first", "next", "first", "next")
    um = {(L,): ("UNTAGGED", None), (L, "first"): ("ATOM", "OK"), (L, "first", "next"): ("SQLIST", None), (L, "first", "next", "first"): ("ATOM", "UIDVALIDITY"), tokU: ("ATOM", "7")}
    s = v.round(h, v.model(um))
    uv = [q for q in h.insts if q.opc == "phi" and q.ty == "ptr" and q is not L]
    ex = [q for q in h.insts if q.opc == "phi" and q.ty == "i64"]
    if len(uv) != 1:
        r.notes.append("UIDVALIDITY of a folder not recognised")
        return
    uv = uv[0]

    def back(s, q):
        return {z for x, b in q.inc if b in v.loops[h] and (b, h) in s.edges for z in v.ends(x, s)}
    r.require(back(s, uv) == {tokU + ("leaf",)}, "C22:select:uidvalidity", "UIDVALIDITY is taken from the response", "%s (%s): UIDVALIDITY is not taken from the response" % (h.insts[-1].where, name))
    for word in ("UIDNEXT", "UNSEEN", "PERMANENTFLAGS"):
        m = dict(um)
        m[(L, "first", "next", "first")] = ("ATOM", word)
        s = v.round(h, v.model(m))
        r.require(back(s, uv) <= {(uv,)}, "C22:select:uidvalidity", "not from " + word, "%s (%s): %s is taken for UIDVALIDITY" % (h.insts[-1].where, name, word))
        r.require(not [e for e in v.leaves(s, h) if e[0] is not h], "C22:select:all", "all responses are looked at", "%s (%s): the responses after %s are not looked at" % (h.insts[-1].where, name, word))
    m = {(L,): ("UNTAGGED", None), (L, "first"): ("ATOM", "12"), (L, "first", "next"): ("ATOM", "EXISTS")}
    s = v.round(h, v.model(m))
    r.require(not [e for e in v.leaves(s, h) if e[0] is not h], "C22:select:all", "the responses after EXISTS are looked at", "%s (%s): the responses after EXISTS are not looked at" % (h.insts[-1].where, name))
    for q in ex:
        m = dict(m)
        m[(L, "first", "next")] = ("ATOM", "EXISTS")
        s = v.round(h, v.model(m))
        r.require(not [e for e in v.leaves(s, h) if e[0] is not h], "C22:select:all", "the responses after EXISTS are looked at", "%s (%s): the responses after EXISTS are not looked at" % (h.insts[-1].where, name))
        e = back(s, q)
        conv = {z[0] for z in e}
        ok = len(conv) == 1 and all(x.kind == "inst" and x.opc == "call" and x.cname in ("strtol", "atol", "atoi", "strtoul") and v.tok(x.args[0]) == (L, "first", "leaf") for x in conv)
        r.require(ok, "C22:select:exists", "the number of messages is taken from EXISTS", "%s (%s): the number of messages is not taken from EXISTS" % (h.insts[-1].where, name))
        m[(L, "first", "next")] = ("ATOM", "RECENT")
        s = v.round(h, v.model(m))
        r.require(back(s, q) <= {(q,)}, "C22:select:exists", "not from RECENT", "%s (%s): RECENT is taken for the number of messages" % (h.insts[-1].where, name))
    # after the responses
    for u in (0, NZ):
        s = Sccp(f, pin=lambda i: B(u) if i is uv else B(NZ) if i.opc == "call" and i.cname in ("malloc", "strdup") else None, entry=h, avoid=[b for b in v.loops[h] if b is not h], args={}, cap=24)
        res = v.result(s)
        if u == 0:
            if res is None:
                dup = [c for c in f.calls("strdup", "new_string") if c.bb in s.blocks and uv in v.roots(c.args[0], None, (uv,))]
                r.require(not dup, "C22:select:none", "no result without UIDVALIDITY", "%s (%s): a folder counts as opened although its UIDVALIDITY is not known" % (h.insts[-1].where, name))
                continue
            r.require(res == B(0), "C22:select:none", "no result without UIDVALIDITY", "%s (%s): a folder counts as opened although its UIDVALIDITY is not known" % (h.insts[-1].where, name))
            continue
        r.require(res is None or 0 not in res, "C22:select:ok", "UIDVALIDITY returned", "%s (%s): a folder that could be opened counts as not opened" % (h.insts[-1].where, name))
        for fld, ok, what in (("selected_folder_uidvalidity", lambda x: x.kind == "inst" and x.opc == "call" and x.cname in ("strdup", "new_string") and uv in v.roots(x.args[0], None, (uv,)), "UIDVALIDITY"),
                              ("selected_folder_namelen", lambda x: x in (A[2],) or x.kind == "inst" and x.opc == "call" and x.cname == "strlen" and strip(x.args[0]) is A[1], "length of the name"),
                              ("selected_folder_writable", lambda x: x is A[3], "mode")):
            stt = [i for i in v.stores("imap_ll." + fld) if i.bb in s.blocks]
            uncond(r, v, s, h, stt, "C22:select:keep:" + fld, "%s of the open folder noted" % what, "%s (%s): the %s of the folder opened is not noted" % (h.insts[-1].where, name, what))
            for i in stt:
                rt = v.roots(i.ops[0], None, (uv,))
                if all(x.kind in ("arg", "int", "null") or x.kind == "inst" and x.opc in ("call", "load", "phi") for x in rt):
                    r.require(all(ok(x) for x in rt), "C22:select:keep:" + fld, "the right %s noted" % what, "%s (%s): a wrong %s is noted for the folder opened" % (i.where, name, what))
        stt = [i for i in v.stores("imap_ll.selected_folder_exists") if i.bb in s.blocks]
        uncond(r, v, s, h, stt, "C22:select:keep:exists", "number of messages noted", "%s (%s): the number of messages in the folder opened is not noted" % (h.insts[-1].where, name))
        for i in stt:
            x = strip(i.ops[0])
            if ex and x.kind in ("int", "arg"):
                r.bad("C22:select:keep:exists", "%s (%s): a wrong number of messages is noted for the folder opened" % (i.where, name))
        pex = [i for i in f.insts() if i.opc == "store" and strip(i.ops[1]) is A[4]]
        for st0, more, hh in (("opened", None, h), ("that is open already", 1, f.blocks[0])):
            q = Sccp(f, pin=lambda i: (B(NZ) if i in F["selected_folder"] or i in F["selected_folder_writable"] else B(0) if i in mem else B(int(i.pred == "eq")) if i in ic else None) if more else B(NZ) if i is uv or i.opc == "call" and i.cname in ("malloc", "strdup") else None, entry=hh, avoid=[] if more else [b for b in v.loops[h] if b is not h], args={A[4]: B(NZ)}, cap=24)
            uncond(r, v, q, hh, [i for i in pex if i.bb in q.blocks], "C22:select:exists:told", "the number of messages of a folder %s is told" % st0, "%s (%s): the number of messages of a folder %s is not told, so it is taken as empty or not" % (h.insts[-1].where, name, st0))
        stt = [i for i in v.stores("imap_ll.selected_folder") if i.bb in s.blocks and strip(i.ops[0]).kind not in ("null", "zero")]
        uncond(r, v, s, h, stt, "C22:select:keep:name", "name of the open folder noted", "%s (%s): the name of the folder opened is not noted" % (h.insts[-1].where, name))
        cp = [c for c in f.calls("memcpy", "strcpy", "llvm.memcpy.p0.p0.i64") if c.bb in s.blocks]
        for c in cp:
            x = strip(c.args[1])
            if x.kind == "arg":
                r.require(x is A[1], "C22:select:keep:name", "name of the open folder noted", "%s (%s): a wrong name is noted for the folder opened" % (c.where, name))


def _before(v, cmd):
    """blocks that can come before the command"""
    out, todo = set(), [cmd.bb]
    while todo:
        b = todo.pop()
        for p in b.preds:
            if p not in out:
                out.add(p)
                todo.append(p)
    return out


def clear(r):
    v = opt(r, "imap_clear_folder")
    if not v:
        return
    f, name = v.f, "imap_clear_folder"
    sel = list(f.calls("imap_select"))
    if len(sel) != 1:
        r.notes.append("imap_clear_folder not recognised")
        return
    selmode(r, v, 1, "C22:clear", "clearing")
    if strip(sel[0].args[1]).kind == "arg":
        r.require(strip(sel[0].args[1]) is f.params[1], "C22:clear:folder", "the results folder is opened", "%s (%s): another folder is opened" % (sel[0].where, name))
    s = Sccp(f, pin=lambda i: B(0) if i is sel[0] else None, args={}, cap=8)
    cm = v.commands()
    r.require(not [c for c, b, w in cm if c.bb in s.blocks], "C22:clear:closed", "nothing is deleted if the folder cannot be opened", "%s (%s): messages are deleted in whatever folder is selected if the results folder cannot be opened" % (sel[0].where, name))
    s = Sccp(f, pin=lambda i: B(NZ) if i is sel[0] else None, args={}, cap=8)
    verbs = {}
    for c, b, w in cm:
        if w is None:
            r.notes.append("commands of imap_clear_folder not recognised")
            return
        verbs[v.verb(w).split(" ")[0]] = (c, v.verb(w))
    sto = [x for k, x in verbs.items() if k in ("STORE", "UID")]
    exp = [x for k, x in verbs.items() if k == "EXPUNGE"]
    r.require(bool(sto) and all(not v.avoidable(s, f.blocks[0], [c]) and "1:*" in t and "\\DELETED" in t and "FLAGS" in t and "-FLAGS" not in t for c, t in sto), "C22:clear:mark", "all old results are marked as deleted", "%s (%s): not all old results are marked as deleted" % (sel[0].where, name))
    r.require(bool(exp) and not v.avoidable(s, f.blocks[0], [exp[0][0]]), "C22:clear:expunge", "and removed", "%s (%s): old results are not removed" % (sel[0].where, name))
    if sto and exp:
        r.require(sym.inst_dominates(v.dom, sto[0][0], exp[0][0]), "C22:clear:order", "in this order", "%s (%s): old results are removed before they are marked" % (exp[0][0].where, name))


def append(r):
    v = opt(r, "imap_append_new_message")
    if not v:
        return
    f, name = v.f, "imap_append_new_message"
    A = f.params
    cmds = v.commands()
    if len(A) != 7 or not cmds:
        r.notes.append("imap_append_new_message not recognised")
        return
    FL = [("\\Seen", 4), ("\\Answered", 5), ("\\Flagged", 6)]
    builds = {}
    for c in f.calls("imap_ll_build"):
        for w in v.words(c) or []:
            if w[0] == "TLTYPE_ATOM" and isinstance(w[1], str) and w[1].startswith("\\"):
                builds[w[1]] = c
    ap = list(f.calls("imap_ll_append"))
    for fl, k in FL:
        c = builds.get(fl)
        if c is None:
            r.bad("C22:append:" + fl[1:], "%s: the flag %s is not passed on" % (name, fl))
            continue
        use = [a for a in ap if c in v.roots(a.args[1])] or [c]
        for on in (0, 1):
            for other in (0, 1):
                s = Sccp(f, args={A[j]: B((on if j == k else other) * NZ if False else (on if j == k else other)) for _, j in FL}, cap=8)
                hit = [u for u in use if u.bb in s.blocks]
                if on:
                    r.require(bool(hit) and not v.avoidable(s, f.blocks[0], hit), "C22:append:" + fl[1:], "%s passed on" % fl, "%s (%s): the flag %s is not passed on" % (c.where, name, fl))
                else:
                    r.require(not hit, "C22:append:" + fl[1:], "%s only if set" % fl, "%s (%s): the flag %s is set although the message does not have it" % (c.where, name, fl))
    for c, b, ws in cmds:
        if not ws:
            r.notes.append("command of imap_append_new_message not recognised")
            continue
        t = v.verb(ws)
        r.require(t.startswith("APPEND"), "C22:append:cmd", "appended", "%s (%s): messages are not appended (%s)" % (b.where, name, t))
        st = [x for x in ws if x[0] == "TLTYPE_STRING"]
        if len(st) == 2:
            if strip(st[0][2]).kind == "arg" or st[0][1]:
                r.require(strip(st[0][2]) is A[1], "C22:append:to", "to the results folder", "%s (%s): messages are not appended to the results folder" % (b.where, name))
            if strip(st[1][2]).kind == "arg":
                r.require(strip(st[1][2]) is A[2], "C22:append:text", "the message itself", "%s (%s): something else than the message is appended" % (b.where, name))
            r.require(strip(st[1][3]) is A[3], "C22:append:len", "over its whole length", "%s (%s): the message is appended with another length (a message may have NUL bytes)" % (b.where, name))
        sub = [k for k, x in enumerate(ws) if x[0] == "TLTYPE_SUB"]
        if builds:
            r.require(len(sub) == 1 and ws[sub[0] - 1][0] == "TLTYPE_STRING" and sub[0] < len(ws) - 1, "C22:append:flags", "with its flags", "%s (%s): the flags are not sent with the message" % (b.where, name))
    sel = list(f.calls("imap_select"))
    for x in sel:
        s = Sccp(f, pin=lambda i: B(0) if i is x else None, args={}, cap=8)
        r.require(not v.avoidable(s, f.blocks[0], [c for c, b, w in cmds]), "C22:append:missing", "delivered even if the folder does not exist yet", "%s (%s): a message is lost if the results folder does not exist yet" % (x.where, name))
    s = Sccp(f, args={}, cap=8)
    r.require(not v.avoidable(s, f.blocks[0], [c for c, b, w in cmds if c.bb in s.blocks]), "C22:append:always", "every message is appended", "%s (%s): a message is not always appended" % (cmds[0][0].where, name))
    trycreate(r, v, "C22:append", name, A[1], cmds)
    c = opt(r, "create_folder")
    if c:
        for x, b, ws in c.commands():
            if ws:
                st = [y for y in ws if y[0] == "TLTYPE_STRING"]
                r.require(c.verb(ws) == "CREATE" and (not st or strip(st[0][2]).kind != "arg" or strip(st[0][2]) is c.f.params[1]), "C22:create", "the folder named is created", "%s (create_folder): the folder is not created" % b.where)
        if not c.commands():
            r.bad("C22:create", "create_folder: the folder is not created")


def caps(v):
    return {c: v.lit(c.args[1]) for c in v.f.calls("have_capability", "need_capability")}


def login(r):
    v = opt(r, "imap_login")
    if not v:
        return
    f, name = v.f, "imap_login"
    A = f.params
    P = v.p
    ok, denied, err = (P.enum("imap_login_" + x) for x in ("ok", "denied", "error"))
    wl = list(f.calls("imap_ll_waitline"))
    cmds = [c for c in v.commands() if v.verb(c[2]).startswith("LOGIN")]
    tls = list(f.calls("imap_ll_starttls"))
    cp = caps(v)
    if len(wl) != 1 or len(cmds) != 1:
        r.notes.append("imap_login not recognised")
        return
    g = wl[0]
    cmd, bl, ws = cmds[0]
    st = list(f.calls("imap_ll_status"))
    SUCC, FAIL, CERT, PROC = (P.t.enums.get("IMAP_LL_STARTTLS_" + x) for x in ("SUCCESS", "FAILED", "FAILED_CERT", "FAILED_PROCEED"))

    def go(greet="OK", has=("STARTTLS", "LITERAL+", "AUTH=PLAIN"), t=None, user=NZ, pw=NZ, status="OK", greeting=NZ):
        def pin(i):
            if i is g:
                return B(greeting)
            if i in cp:
                return B(1 if cp[i] in has else 0)
            if i in tls:
                return B(t if t is not None else SUCC)
            if i.opc == "call":
                if i.cname in ("find_capability_list_from_greeting", "find_capability_list_in_untagged_response", "imap_ll_build", "imap_ll_command", "ask_for_capabilities"):
                    return B(NZ)
                if i.cname in CMP:
                    for a in i.args[:2]:
                        k = v.tok(a)
                        if k[-1] == "leaf" and k[0] is g:
                            return v.comp(i, greet)
                        if [x for x in v.roots(a) if x in st]:
                            return v.comp(i, status)
            if i.opc == "load" and v.tok(i)[0] is g:
                k = v.tok(i)
                if k == (g, "first"):
                    return B(NZ)
                if k == (g, "first", "type"):
                    return B(P.enum("TLTYPE_ATOM"))
            return None
        a = {}
        if len(A) >= 5:
            a = {A[1]: B(user), A[3]: B(pw)}
        return Sccp(f, pin=pin, args=a, cap=24)

    def res(s, want, key, what, msg, no_login=False, must=False):
        x = v.result(s)
        if x is not None:
            r.require(x == B(*want), key, what, "%s (%s): %s" % (cmd.where, name, msg))
        if no_login:
            r.require(cmd.bb not in s.blocks, key, what + " (no password sent)", "%s (%s): the password is sent although %s" % (cmd.where, name, no_login))
        if must:
            r.require(cmd.bb in s.blocks and not v.avoidable(s, f.blocks[0], [cmd]), key, what, "%s (%s): no login is attempted" % (cmd.where, name))
    res(go(greeting=0), (err,), "C22:login:greeting", "no greeting: error", "a connection without greeting counts as logged in", "the server gave no greeting")
    res(go("BYE"), (err,), "C22:login:bye", "BYE: error", "a refused connection counts as logged in", "the server said BYE")
    res(go("XYZ"), (err,), "C22:login:other", "other greeting: error", "a strange greeting counts as logged in", "the greeting was not understood")
    res(go("PREAUTH"), (ok,), "C22:login:preauth", "PREAUTH: ok", "a preauthenticated connection is refused", "none is needed")
    res(go("PREAUTH", has=()), (err,), "C22:login:literal", "LITERAL+ is required", "a server without LITERAL+ is used, which will not take literals")
    if FAIL is not None:
        if tls:
            for t, why in ((FAIL, "TLS could not be set up"), (CERT, "the certificate of the server is not valid")):
                res(go(t=t), (err,), "C22:login:tls:%d" % t, "TLS failed: error", "a connection is used although " + why, why)
            s = go(t=SUCC)
            r.require(cmd.bb in s.blocks and not v.avoidable(s, f.blocks[0], tls), "C22:login:starttls", "TLS is used if offered", "%s (%s): the password is sent in clear although the server offers TLS" % (cmd.where, name))
            ask = list(f.calls("ask_for_capabilities"))
            r.require(bool([c for c in ask if c.bb in s.blocks]) and not v.avoidable(s, tls[0].bb, ask), "C22:login:again", "capabilities are asked for again under TLS", "%s (%s): after TLS has been set up the capabilities heard before it are still trusted" % (tls[0].where, name))
            s = go(has=("LITERAL+", "AUTH=PLAIN"))
            r.require(not [c for c in tls if c.bb in s.blocks], "C22:login:starttls", "and not otherwise", "%s (%s): TLS is started although the server does not offer it" % (tls[0].where, name))
            for c in tls:
                if len(A) == 7:
                    for k, a, what in ((1, 5, "TLS settings"), (2, 6, "name of the server")):
                        x = strip(c.args[k])
                        if x.kind in ("arg", "null", "zero"):
                            r.require(x is A[a], "C22:login:server", "%s passed on" % what, "%s (%s): the %s is not passed on, so the certificate is not checked against it" % (c.where, name, what))
        else:
            r.bad("C22:login:starttls", "%s (%s): TLS is never started" % (cmd.where, name))
    res(go(has=("STARTTLS", "AUTH=PLAIN")), (err,), "C22:login:literal", "LITERAL+ is required", "a server without LITERAL+ is used", "the server does not take literals")
    res(go(user=0), (denied,), "C22:login:none", "no user name: denied", "a login without user name succeeds", "no user name is given")
    res(go(pw=0), (denied,), "C22:login:none", "no password: denied", "a login without password succeeds", "no password is given")
    res(go(status="OK"), (ok,), "C22:login:ok", "OK: logged in", "a successful login counts as failed", must=True)
    res(go(status="NO"), (denied,), "C22:login:no", "NO: denied", "a refused login does not count as denied")
    res(go(status="BAD"), (err,), "C22:login:bad", "BAD: error", "a failed login does not count as an error")
    sv = [x for x in ws or [] if x[0] == "TLTYPE_STRING"]
    r.require(not [x for x in ws or [] if x[0] == "TLTYPE_ATOM" and strip(x[2]).kind == "arg"], "C22:login:quoted", "user name and password go as strings", "%s (%s): a user name or password with special characters is sent as it is" % (bl.where, name))
    if len(sv) == 2 and len(A) >= 5:
        for x, a, n, what in ((sv[0], 1, 2, "user name"), (sv[1], 3, 4, "password")):
            if strip(x[2]).kind == "arg":
                r.require(strip(x[2]) is A[a], "C22:login:words", "%s sent" % what, "%s (%s): something else is sent as the %s" % (bl.where, name, what))
            if strip(x[3]).kind == "arg":
                r.require(strip(x[3]) is A[n], "C22:login:words", "length of the %s" % what, "%s (%s): the %s is sent with a wrong length" % (bl.where, name, what))


def starttls(r):
    if not prog().has("imap_ll_starttls"):
        r.notes.append("imap_ll_starttls not present")
        return
    v = Imap("imap_ll_starttls")
    f, name = v.f, "imap_ll_starttls"
    A = f.params
    P = v.p
    SUCC, FAIL, CERT, PROC = (P.enum("IMAP_LL_STARTTLS_" + x) for x in ("SUCCESS", "FAILED", "FAILED_CERT", "FAILED_PROCEED"))
    con = list(f.calls("SSL_connect"))
    ver = list(f.calls("SSL_get_verify_result"))
    peer = [c for c in f.insts() if c.opc == "call" and c.cname and c.cname.startswith("SSL_get") and "peer_certificate" in c.cname]
    cn = list(f.calls("X509_NAME_get_text_by_NID"))
    cmpn = [c for c in f.calls("strcasecmp", "strcmp", "strncasecmp") if not [x for a in c.args[:2] for x in v.roots(a) if x.kind == "inst" and x.opc == "call" and x.cname == "imap_ll_status"]]
    st = [c for c in f.calls("strcmp", "strcasecmp") if c not in cmpn]
    stored = [i for i in v.stores("imap_ll.ssl") if strip(i.ops[0]).kind not in ("null", "zero")]
    if len(con) != 1:
        r.notes.append("imap_ll_starttls not recognised")
        return
    w = con[0].where
    if not stored:
        r.bad("C22:tls:use", "%s (%s): after TLS has been set up the connection goes on in clear" % (w, name))
        return
    if not ver and not peer:
        r.bad("C22:tls:verify", "%s (%s): the certificate of the server is not verified" % (w, name))
        return
    exact = [c for c in cmpn if any(strip(a) is A[2] for a in c.args[:2])]
    suffix = [c for c in cmpn if c not in exact]
    c0 = [i for i in f.insts() if i.opc == "load" and i.ty == "i8" and v.obj(i.ops[0]) & {strip(v.base(c.args[2])) for c in cn}]
    lens = [i for i in f.insts() if i.opc == "icmp" and i.pred in ("uge", "ult", "ule", "ugt", "sge", "slt") and any(x.kind == "inst" and x.opc == "call" and x.cname == "strlen" for o in i.ops for x in v.roots(o))]

    def go(status="OK", c=1, ver_=0, peer_=NZ, cn_=5, server=NZ, ex=0, ch=ord("m"), suf=1, cmd=NZ, longer=None, err=1):
        def pin(i):
            if i.opc == "call":
                if i in con:
                    return B(c)
                if i in ver:
                    return B(ver_)
                if i in peer:
                    return B(peer_)
                if i in cn:
                    return B(cn_)
                if i in exact:
                    return B(ex)
                if i in suffix:
                    return B(suf)
                if i in st:
                    return v.comp(i, status)
                if i.cname == "imap_ll_command":
                    return B(cmd)
                if i.cname in ("SSL_new", "imap_ll_build"):
                    return B(NZ)
                if i.cname == "SSL_get_error":
                    return B(err)
            if i in c0:
                return B(ch)
            if i in lens and longer is not None:
                # is the name of the server at least as long as that of the certificate?
                a = [x for o in i.ops[:1] for x in v.roots(o)]
                srv = any(x.kind == "inst" and x.opc == "call" and x.cname == "strlen" and strip(x.args[0]) is A[2] for x in a)
                ge = longer if srv else None
                if ge is None:
                    return None
                return B(int({"uge": ge, "ugt": ge, "sge": ge, "ult": not ge, "ule": not ge, "slt": not ge}[i.pred]))
            return None
        return Sccp(f, pin=pin, args={A[2]: B(server)}, cap=24)

    def req(s, succ, key, what, msg):
        x = v.result(s)
        on = [i for i in stored if i.bb in s.blocks]
        if succ:
            if x is not None:
                r.require(x == B(SUCC) and bool(on), key, what, "%s (%s): %s" % (w, name, msg))
        else:
            r.require((x is None or not x & B(SUCC, PROC)) and not on, key, what, "%s (%s): %s" % (w, name, msg))
    req(go(), True, "C22:tls:ok", "a good certificate with the server's name is accepted", "a good certificate with the name of the server is refused")
    req(go(c=-1), False, "C22:tls:connect", "TLS failure ends it", "a failed TLS handshake is taken as a success, or the connection is used without TLS")
    req(go(ver_=18), False, "C22:tls:verify", "a certificate that does not verify is refused", "a certificate that does not verify is accepted")
    req(go(ver_=10), False, "C22:tls:verify", "an expired certificate is refused", "an expired certificate is accepted")
    req(go(peer_=0), False, "C22:tls:peer", "a missing certificate is refused", "a missing certificate is accepted")
    req(go(cn_=-1), False, "C22:tls:name", "a certificate without name is refused", "a certificate without name is accepted")
    req(go(ex=1), False, "C22:tls:name", "a certificate with another name is refused", "a certificate with the name of another server is accepted")
    if suffix:
        req(go(ex=1, ch=ord("*"), suf=1), False, "C22:tls:wild", "a wildcard for another domain is refused", "a wildcard certificate for another domain is accepted")
        req(go(ex=1, ch=ord("*"), suf=0, longer=True), True, "C22:tls:wild", "a wildcard for the domain is accepted", "a wildcard certificate for the domain of the server is refused")
        req(go(ex=1, ch=ord("m"), suf=0, longer=True), False, "C22:tls:wild", "only * is a wildcard", "a certificate whose name ends like that of the server is accepted")
        if lens:
            req(go(ex=1, ch=ord("*"), suf=0, longer=False), False, "C22:tls:wild", "a wildcard longer than the name is refused", "a wildcard certificate longer than the name of the server is compared outside the name")
        else:
            r.bad("C22:tls:wild", "%s (%s): a wildcard certificate longer than the name of the server is compared outside the name" % (suffix[0].where, name))
    for c in exact:
        o = [x for x in c.args[:2] if strip(x) is not A[2]]
        r.require(c.cname == "strcasecmp" and all(v.obj(x) & {strip(v.base(y.args[2])) for y in cn} for x in o), "C22:tls:name", "the name in the certificate is compared in full", "%s (%s): not the whole name in the certificate is compared with that of the server" % (c.where, name)) if cn else None
    for c in suffix:
        for i, j in ((0, 1), (1, 0)):
            g = v.lin(c.args[i])
            at = {v.lin.val(a): g[a] for a in g.atoms()}
            if A[2] in at:
                n = [x for x in at if x is not A[2]]
                if len(n) == 2 and all(x.kind == "inst" and x.opc == "call" and x.cname == "strlen" for x in n) and sorted(at[x] for x in n) == [-1, 1]:
                    m = [x for x in n if at[x] == -1][0]
                    d = v.lin(c.args[j]).add(v.lin(m.args[0]), -1)
                    if not d.atoms():
                        r.require(d.const == g.const, "C22:tls:wild", "the end of the server's name is compared with all of the certificate's after *", "%s (%s): a wildcard certificate is compared with the end of the server's name off by %+d" % (c.where, name, g.const - d.const))
    x = v.result(go(status="NO"))
    if x is not None:
        r.require(x == B(PROC), "C22:tls:refused", "a refusal is told from a failure", "%s (%s): the server's refusal to start TLS is not told from success or failure" % (w, name))
    req(go(cmd=0), False, "C22:tls:silent", "no response is a failure", "a server that does not respond to STARTTLS counts as one that refused, so the password may be sent in clear")


def start(r):
    v = opt(r, "imap_start")
    if not v:
        return
    f = v.f
    lg = list(f.calls("imap_login"))
    ctx = [c for c in f.calls("SSL_CTX_set_verify")]
    if len(lg) != 1:
        r.notes.append("imap_start not recognised")
        return
    new = [c for c in f.insts() if c.opc == "call" and c.cname == "SSL_CTX_new"]
    P = v.p
    if new:
        s = Sccp(f, pin=lambda i: B(NZ) if i in new else None, args={}, cap=8)
        r.require(bool(ctx) and all(strip(c.args[1]).kind == "int" and strip(c.args[1]).c & 1 for c in ctx) and not v.avoidable(s, f.blocks[0], ctx) if ctx else False, "C22:start:verify", "certificates are verified", "%s (imap_start): certificates of servers are not verified" % (ctx or new)[0].where)
        loc = [c for c in f.insts() if c.opc == "call" and c.cname and (c.cname.startswith("SSL_CTX_load_verify") or c.cname.startswith("SSL_CTX_set_default_verify") or "cert_store" in c.cname)]
        r.require(bool(loc) and not v.avoidable(s, f.blocks[0], loc), "C22:start:trust", "the system's certificates are trusted", "%s (imap_start): no trusted certificates are known, so no server is accepted" % new[0].where)
        for c in ctx:
            x = strip(c.args[2])
            r.require(x.kind in ("null", "zero") or x.kind != "func", "C22:start:callback", "without exceptions", "%s (imap_start): the result of verifying certificates can be overruled" % c.where)
    con, pc = list(f.calls("imap_ll_connect")), list(f.calls("imap_ll_pipe_connect"))
    if con and pc and len(f.params) == 4:
        for pp, sv in ((0, NZ), (NZ, NZ), (NZ, 0)):
            s = Sccp(f, pin=lambda i: B(NZ) if i in new else None, args={f.params[0]: B(pp), f.params[1]: B(sv)}, cap=8)
            a, b = [c for c in pc if c.bb in s.blocks], [c for c in con if c.bb in s.blocks]
            r.require(bool(a if pp else b) and not (b if pp else a), "C22:start:pipe", "a pipe is preferred to a server", "%s (imap_start): %s" % ((a + b + con)[0].where, "the pipe command set is not used" if pp else "the server is not connected to"))
        for cc, k in ((pc, 0), (con, 1)):
            for c in cc:
                x = strip(c.args[0])
                if x.kind == "arg":
                    r.require(x is f.params[k], "C22:start:pipe", "to the place set", "%s (imap_start): not the server or command set is used" % c.where)
    for val, want in (("ok", NZ), ("denied", 0), ("error", 0)):
        s = Sccp(f, pin=lambda i: B(P.enum("imap_login_" + val)) if i is lg[0] else B(NZ) if i.opc == "call" and i.cname in ("SSL_CTX_new", "imap_ll_connect", "imap_ll_pipe_connect") else None, args={}, cap=8)
        x = v.result(s)
        if x is not None:
            r.require((0 not in x) if want else x == B(0), "C22:start:" + val, "login %s: %s" % (val, "connection" if want else "none"), "%s (imap_start): a connection is %s after login gave '%s'" % (lg[0].where, "not returned" if want else "used", val))
    if len(lg[0].args) == 7 and len(f.params) == 4:
        for k, a, what in ((1, 2, "user name"), (3, 3, "password"), (6, 1, "name of the server")):
            x = strip(lg[0].args[k])
            if x.kind in ("arg", "null", "zero"):
                r.require(x is f.params[a], "C22:start:args", "%s passed on" % what, "%s (imap_start): the %s is not passed on" % (lg[0].where, what))


def lowlevel(r):
    p = base_prog()
    # a command is over when its own tagged response has come
    v = opt(r, "imap_ll_command")
    if v:
        f, name = v.f, "imap_ll_command"
        wl = list(f.calls("imap_ll_waitline"))
        wr = list(f.calls("imap_ll_write"))
        TG = v.p.enum("TLTYPE_TAGGED")
        if len(wl) != 1 or v.inner(wl[0].bb) is None:
            r.notes.append("imap_ll_command not recognised")
        else:
            h = v.inner(wl[0].bb)
            ty = [i for i in f.insts() if i.opc == "load" and v.tok(i) == (wl[0], "type")]
            link = [i for i in f.insts() if i.opc == "store" and strip(i.ops[0]) is wl[0]]
            for t in ("UNTAGGED", "CONTINUATION", "TAGGED"):
                s = Sccp(f, pin=lambda i: B(NZ) if i in wl else B(v.p.enum("TLTYPE_" + t)) if i in ty else None, entry=h, args={}, cap=8)
                out = [b for b in s.blocks if b.term.opc == "ret"]
                if t == "TAGGED":
                    r.require(bool(out), "C22:command:end", "ends at the tagged response", "%s (%s): a command does not end at its tagged response" % (wl[0].where, name))
                    r.require((h, h) not in s.edges and not any(b in v.loops[h] and x is h for b, x in s.edges), "C22:command:end", "and no later", "%s (%s): after the tagged response more is waited for" % (wl[0].where, name))
                else:
                    r.require(not out, "C22:command:end", "%s response: waits on" % t.lower(), "%s (%s): a command ends before its tagged response has come, so the next one gets its responses" % (wl[0].where, name))
                first = [i for i in f.insts() if i.opc == "load" and v.field(i) == "first" and strip(v.base(i.ops[0])).kind == "inst" and strip(v.base(i.ops[0])).opc == "call" and strip(v.base(i.ops[0])).cname == "mktoken"]
                for had in (0, NZ):
                    s1 = Sccp(f, pin=lambda i: B(NZ) if i in wl else B(v.p.enum("TLTYPE_" + t)) if i in ty else B(had) if i in first else None, entry=h, args={}, cap=8)
                    k1 = {v.field(i) for i in link if i.bb in s1.blocks}
                    if first:
                        want, not_ = ("next", "first") if had else ("first", "next")
                        r.require(want in k1 and not_ not in k1, "C22:command:keep", "%s response kept in its place" % t.lower(), "%s (%s): the %s response is not kept behind the ones before it" % (wl[0].where, name, "next" if had else "first"))
                    r.require("last" in k1, "C22:command:last", "last response noted", "%s (%s): a response is not noted as the last one" % (wl[0].where, name))
                keep = [i for i in link if i.bb in s.blocks]
                nx = [i for i in keep if v.field(i) in ("next", "first")]
                r.require(bool(nx), "C22:command:keep", "%s response kept" % t.lower(), "%s (%s): a response is not kept" % (wl[0].where, name))
            s = Sccp(f, pin=lambda i: B(0) if i in wl else B(NZ) if i.opc == "call" and i.cname in ("malloc", "imap_ll_write", "mktoken") else None, args={}, cap=8)
            x = v.result(s)
            if x is not None:
                r.require(x == B(0), "C22:command:none", "no response: none", "%s (%s): a lost connection counts as a response" % (wl[0].where, name))
            fc = list(f.calls("format_cmd"))
            if fc and wr:
                end = {}
                for i in f.insts():
                    if i.opc == "store" and strip(i.ops[0]).kind == "int" and i.ops[0].ty == "i8":
                        g = v.lin(i.ops[1]).add(v.lin(fc[0]), -1)
                        if not g.atoms():
                            end[g.const] = strip(i.ops[0]).c
                if end:
                    r.require(end.get(0) == 13 and end.get(1) == 10, "C22:command:crlf", "commands end with CR LF", "%s (%s): a command does not end with CR LF" % (fc[0].where, name))
                    for c in wr:
                        g = v.lin(c.args[2]).add(v.lin(fc[0]), -1)
                        if not g.atoms():
                            r.require(g.const == 2, "C22:command:crlf", "all of the command is sent", "%s (%s): a command is not sent over its length (%+d)" % (c.where, name, g.const - 2))
            if wr:
                s = Sccp(f, pin=lambda i: B(0) if i in wr else B(NZ) if i.opc == "call" and i.cname == "malloc" else None, args={}, cap=8)
                x = v.result(s)
                r.require(x is None or x == B(0), "C22:command:write", "not sent: no response", "%s (%s): a command that could not be sent counts as answered" % (wr[0].where, name))
    # strings with special characters go as literals
    v = opt(r, "format_cmd")
    if v:
        f, name = v.f, "format_cmd"
        found = False
        for h, body in v.loops.items():
            ch = [i for b in body for i in b.insts if i.opc == "load" and i.ty == "i8"]
            if not ch:
                continue
            found = True
            w = h.insts[-1].where
            cc = v.counted(h)
            cz = cc and cc.phi is not None and loopinfo.covers_from_zero(cc)
            if cz:
                r.require(cz[0] == 0 and cz[2] == 0, "C22:string:all", "all bytes are looked at", "%s (%s): only the bytes [%s, n%+d) of a string are looked at" % (w, name, cz[0], cz[2]))
            bad = []
            for c in list(range(0, 32)) + [34, 92, 127] + list(range(128, 256)):
                sc = c - 256 if c > 127 else c
                s = v.round(h, lambda i: B(sc & 0xff) if i in ch else None)
                go_on = any(b in body and x is h for b, x in s.edges)
                if go_on:
                    bad.append(c)
            r.require(not bad, "C22:string:literal", "strings with special characters go as literals", "%s (%s): a string with %s is sent quoted, where it does not arrive as it is" % (w, name, ", ".join("'%s'" % chr(c) if 32 <= c < 127 else "the byte %d" % c for c in bad[:4])))
        if not found:
            r.notes.append("quoting of strings not recognised")
        lit = [c for c in f.calls("sprintf") if "{%" in (v.lit(c.args[1]) or "")]
        for c in lit:
            r.require("+}\r\n" in v.lit(c.args[1]), "C22:string:form", "literals are sent without waiting", "%s (%s): a literal is not announced as {n+}" % (c.where, name))
            rt = v.roots(c.args[2])
            r.require(all(v.tok(x)[-1] == "leaflen" for x in rt) or not all(x.kind == "inst" and x.opc in ("load", "add", "sub") for x in rt), "C22:string:len", "with their length", "%s (%s): a literal is announced with a wrong length" % (c.where, name))
        tg = [i for i in v.stores("imap_ll.current_tag_number")]
        for i in tg:
            g = v.lin(i.ops[0])
            at = [v.lin.val(a) for a in g.atoms()]
            if len(at) == 1 and at[0].kind == "inst" and at[0].opc == "load":
                r.require(g.const != 0, "C22:tag:new", "every command has a new tag", "%s (%s): a command has the tag of the one before" % (i.where, name))
        if not tg:
            r.bad("C22:tag:new", "%s: commands do not have tags of their own" % name)
    # everything is sent, in pieces if need be
    v = opt(r, "imap_ll_write")
    if v:
        f = v.f
        for c in list(f.calls("write", "SSL_write", "send")):
            h = v.inner(c.bb)
            if h is None:
                r.bad("C22:write:all", "%s (imap_ll_write): what is not sent at once is not sent at all" % c.where)
                continue
            ph = [q for q in h.insts if q.opc == "phi" and q.ty == "ptr"]
            P0 = strip(c.args[1])
            if P0.kind == "arg":
                r.bad("C22:write:all", "%s (imap_ll_write): after a part has been sent, sending does not go on behind it" % c.where)
                continue
            if P0 not in ph:
                r.notes.append("progress of sending not recognised")
                continue
            s = v.round(h, lambda i: B(5) if i is c else None)
            nx = set()
            for x, b in P0.inc:
                if b in v.loops[h] and (b, h) in s.edges:
                    for y in v.roots(x, s, (P0,)):
                        nx.add(y)
            for y in nx:
                if y is P0:
                    continue
                g = v.lin(y).add(v.lin(P0), -1)
                at = [v.lin.val(a) for a in g.atoms()]
                r.require(g.const == 0 and len(at) == 1 and strip(at[0]) is c, "C22:write:all", "sending goes on where it stopped", "%s (imap_ll_write): after a part has been sent, sending does not go on behind it" % c.where)
            # left only by an error or the end of the text
            bound = [i for i in v.f.insts() if i.opc == "icmp" and f.params[2] in [strip(o) for o in i.ops]]
            after = [a for a, b in s.edges if a in v.loops[h] and b not in v.loops[h] and sym.dominates(v.dom, c.bb, a) and strip(a.term.ops[0] if a.term.opc == "br" and len(a.term.succ) == 2 else c) not in bound]
            r.require(not after, "C22:write:all", "sending does not stop after a part", "%s (imap_ll_write): after a part has been sent the rest is not sent" % c.where)
            g = v.lin(c.args[2]).add(v.lin(P0), 1)
            at = [v.lin.val(a) for a in g.atoms()]
            if len(at) == 1:
                r.require(g.const == 0 and strip(at[0]) is f.params[2], "C22:write:len", "up to the end", "%s (imap_ll_write): not everything is sent" % c.where)
    # capabilities
    for n in ("have_capability", "need_capability"):
        v = opt(r, n)
        if not v:
            continue
        f = v.f
        s = Sccp(f, args={f.params[0]: B(0)}, cap=8)
        x = v.result(s)
        if x is not None:
            r.require(x == B(0), "C22:capability", "%s: a missing capability is missing" % n, "%s: a capability the server does not have counts as there" % n)
        cmpc = [c for c in f.calls("strcmp", "strcasecmp")]
        if len(cmpc) == 1 and v.inner(cmpc[0].bb) is not None:
            h = v.inner(cmpc[0].bb)
            for m in (0, 1):
                s = Sccp(f, pin=lambda i: B(m) if i in cmpc else B(NZ) if i.opc == "load" and i.ty == "ptr" or i.opc == "phi" and i.bb is h else None, entry=h, args={f.params[0]: B(NZ), f.params[1]: B(NZ)}, cap=8)
                x = v.result(s)
                if m == 0:
                    r.require(x is None or x == B(1), "C22:capability", "%s: one that matches is there" % n, "%s (%s): a capability the server has counts as missing" % (cmpc[0].where, n))
                else:
                    r.require(not x or 1 not in x, "C22:capability", "%s: one that does not match is not" % n, "%s (%s): any capability counts as the one looked for" % (cmpc[0].where, n))
                    r.require(any(b in v.loops[h] and y is h for b, y in s.edges), "C22:capability", "%s: all are looked at" % n, "%s (%s): only the first capability is looked at" % (cmpc[0].where, n))
    for n, want in (("find_capability_list_in_untagged_response", ("first", "next")), ("find_capability_list_from_greeting", ("first", "next", "first", "next"))):
        v = opt(r, n)
        if v:
            for b in v.f.blocks:
                if b.term.opc == "ret":
                    for x in v.roots(b.term.ops[0], None, tuple(q for h in v.heads for q in h.insts if q.opc == "phi")):
                        t = v.tok(x)
                        if len(t) > 1 and (t[0].kind == "arg" or t[0].kind == "inst" and t[0].opc == "phi"):
                            r.require(t[1:] == want, "C22:capability:list", "%s: the list starts behind the word CAPABILITY" % n, "%s (%s): the list of capabilities does not start behind the word CAPABILITY" % (b.term.where, n))
    # status
    v = opt(r, "imap_ll_status")
    if v:
        f = v.f
        s = Sccp(f, args={f.params[0]: B(0)}, cap=8)
        for b in s.blocks:
            if b.term.opc == "ret":
                t = {v.lit(x) for x in v.roots(b.term.ops[0], s)}
                r.require("OK" not in t and "NO" not in t, "C22:status:none", "no response is not OK", "%s (imap_ll_status): no response counts as %s" % (b.term.where, t))
        for b in f.blocks:
            if b.term.opc == "ret":
                for x in v.roots(b.term.ops[0]):
                    t = v.tok(x)
                    if len(t) > 1:
                        r.require(t[1:] == ("last", "first", "leaf"), "C22:status:last", "the status is the first word of the last response", "%s (imap_ll_status): the status is taken from elsewhere (%s)" % (b.term.where, ".".join(t[1:])))
                    elif v.lit(x):
                        r.require(v.lit(x) != "OK", "C22:status:none", "no status is not OK", "%s (imap_ll_status): a response without status counts as OK" % b.term.where)
    v = opt(r, "imap_ll_is_trycreate")
    if v:
        f = v.f
        stc = list(f.calls("imap_ll_status"))
        a = f.params[0]
        n = (a, "last", "first", "next")
        full = {n: ("SQLIST", None), n + ("first",): ("ATOM", "TRYCREATE"), (a, "last", "first"): ("ATOM", "NO"), (a, "last"): ("TAGGED", None)}
        for status, m, want, why in (("NO", full, 1, "NO [TRYCREATE]"), ("OK", full, 0, "OK"), ("NO", dict(full, **{}) | {n + ("first",): ("ATOM", "ALERT")}, 0, "NO [ALERT]"), ("NO", full | {n: None}, 0, "NO alone")):
            pin = v.model(m, lambda i: v.comp(i, status) if i.opc == "call" and i.cname in CMP and [x for q in i.args[:2] for x in v.roots(q) if x in stc] else None)
            s = Sccp(f, pin=pin, args={a: B(NZ)}, cap=8)
            x = v.result(s)
            if x is not None and x != B(0, 1):
                r.require((0 not in x) == bool(want), "C22:trycreate", "%s: %d" % (why, want), "imap_ll_is_trycreate: the response %s is %s as a request to create the folder" % (why, "not taken" if want else "taken"))
    # a line belongs to a command only if it has its tag
    v = opt(r, "imap_ll_waitline")
    if v:
        f = v.f
        TG = v.p.enum("TLTYPE_TAGGED")
        mk = [c for c in f.calls("mktoken") if strip(c.args[0]).kind == "int" and strip(c.args[0]).c == TG]
        tags = [i for i in f.insts() if i.opc == "icmp" and i.pred in ("eq", "ne") and any(x.kind == "inst" and x.opc == "load" and any(q.endswith("current_tag_number") for q in v.ap(x)) for o in i.ops for x in v.roots(o))]
        if not mk:
            r.notes.append("tagged lines not recognised")
        else:
            r.require(bool(tags), "C22:tag", "tags are compared", "%s (imap_ll_waitline): the tag of a line is not compared with that of the command" % mk[0].where)
            if tags:
                s = Sccp(f, pin=lambda i: B(int(i.pred != "eq")) if i in tags else None, args={}, cap=4)
                r.require(not [c for c in mk if c.bb in s.blocks], "C22:tag", "lines with another tag are not taken", "%s (imap_ll_waitline): a line with the tag of another command is taken for the response" % mk[0].where)


def nulls(r):
    """a missing response is never looked into"""
    names = [f.name for f in prog().defined() if f.file and f.file.endswith(("imap.c", "imapinterface.c"))] if hasattr(next(iter(prog().defined())), "file") else None
    if names is None:
        names = [f.name for f in prog().defined() if any(i.opc == "call" and i.cname in ("imap_ll_command", "imap_ll_waitline") for i in f.insts())]
    deref = {}
    for fn in ("imap_ll_status", "imap_ll_is_trycreate", "imap_ll_freeline", "imap_ll_pprint", "find_capability_list_in_untagged_response", "find_capability_list_from_greeting"):
        if prog().has(fn):
            v = Imap(fn)
            k = 1 if fn == "find_capability_list_from_greeting" else 0
            s = Sccp(v.f, args={v.f.params[k]: B(0)}, pin=lambda i: v.comp(i, "BAD") if i.opc == "call" and i.cname in CMP and any(x.kind == "inst" and x.opc == "call" and x.cname == "imap_ll_status" for a in i.args[:2] for x in v.roots(a)) else None, cap=8)
            deref[fn] = (k, any(i.opc == "load" and i.bb in s.blocks and strip(v.p.s.gepsteps(i.ops[0])[0]) is v.f.params[k] for b in v.f.blocks for i in b.insts))
    for n in sorted(set(names)):
        f = prog().fn(n)
        if not any(i.opc == "call" and i.cname in ("imap_ll_command", "imap_ll_waitline", "ask_for_capabilities") for i in f.insts()):
            continue
        v = Imap(n)
        for c in f.calls("imap_ll_command", "imap_ll_waitline", "ask_for_capabilities"):
            def pin(i):
                if i is c:
                    return B(0)
                if i.opc == "call" and i.cname in ("imap_ll_build", "malloc", "strdup", "imap_select"):
                    return B(NZ)
                if i.opc == "call" and i.cname == "imap_ll_is_trycreate" and strip(i.args[0]) is c:
                    return B(0)
                if i.opc == "call" and i.cname in CMP:
                    for a in i.args[:2]:
                        for x in v.roots(a):
                            if x.kind == "inst" and x.opc == "call" and x.cname == "imap_ll_status" and v.roots(x.args[0]) == [c]:
                                return v.comp(i, "BAD")
                return None
            s = Sccp(f, pin=pin, args={}, cap=8)
            bad = None
            for b in s.blocks:
                for i in b.insts:
                    if i.opc in ("load", "store"):
                        base = strip(v.p.s.gepsteps(i.ops[1] if i.opc == "store" else i.ops[0])[0])
                        if base is c or base.kind == "inst" and base.opc == "phi" and s.get(base) == B(0) and c in v.roots(base, s) and len(v.roots(base, s)) == 1:
                            bad = i
                    elif i.opc == "call" and i.cname in deref and deref[i.cname][1]:
                        k = deref[i.cname][0]
                        a = strip(i.args[k])
                        if a is c or a.kind == "inst" and a.opc == "phi" and s.get(a) == B(0) and v.roots(a, s) == [c]:
                            bad = i
            r.require(bad is None, "C22:none:%s" % n, "%s: no response to %s is not looked into" % (n, c.cname), "%s (%s): a missing response to the command sent at %s is looked into (the server may hang up at any time)" % (bad.where if bad else "", n, c.where))


    # responses may be shorter than expected
    for n in sorted(set(names)):
        if prog().has(n):
            v = Imap(n)
            for h, (L, cmd) in v.response_loops().items():
                r.require(h not in v.late, "C22:first:%s" % n, "%s: the first response is looked at" % n, "%s (%s): the first response is not looked at" % (h.insts[-1].where, n))
                short(r, v, h, L)
            freed(r, v)


def freed(r, v):
    """a response is not used after it has been freed"""
    f = v.f

    memo = {}

    def origin(x):
        """the responses a value may point into, with the depth (0: the response itself)"""
        x = strip(x)
        if x in memo:
            return memo[x]
        memo[x] = frozenset()
        out = set()
        for y in v.roots(x):
            t = v.tok(y)
            if t[0].kind == "inst" and t[0].opc == "call":
                if t[0].cname in ("imap_ll_command", "imap_ll_waitline", "ask_for_capabilities"):
                    out.add((t[0], len(t) > 1))
                else:
                    out.add((None, False))
            elif t[0].kind == "inst" and t[0].opc == "phi" and len(t) > 1:
                out |= {(c, True) for c, d in origin(t[0])}
            elif t[0].kind not in ("null", "zero"):
                out.add((None, False))
        memo[x] = frozenset(out)
        return memo[x]

    def of(x):
        o = {c for c, d in origin(x)}
        if len(o) != 1 or None in o:
            return None
        return (o.pop(),) + (("x",) if any(d for c, d in origin(x)) else ())
    use = {}
    for i in f.insts():
        if i.opc == "load":
            t = of(i)
            if t and len(t) > 1:
                use.setdefault(t[0], []).append(i)
        elif i.opc in ("call", "ret") or i.opc == "store":
            for a in (i.args if i.opc == "call" else i.ops[:1]):
                t = of(a) if a.ty == "ptr" else None
                if t:
                    use.setdefault(t[0], []).append(i)
    for fr in f.calls("imap_ll_freeline"):
        t = of(fr.args[0])
        if not t or len(t) != 1:
            continue
        c = t[0]
        seen, todo = set(), []
        after = set(fr.bb.insts[fr.bb.insts.index(fr) + 1:])
        if c not in after:
            todo = list(fr.bb.succs)
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            if c.bb is b:
                after |= set(b.insts[:b.insts.index(c)])
                continue
            after |= set(b.insts)
            todo += b.succs
        bad = [u for u in use.get(c, []) if u in after and u is not fr]
        r.require(not bad, "C22:freed:%s" % f.name, "%s: the response to %s is not used after it is freed at %s" % (f.name, c.where, fr.where), "%s (%s): a response is used after it has been freed (at %s)" % (bad[0].where if bad else "", f.name, fr.where))


def short(r, v, h, L):
    body = v.loops[h]
    full = outer_model(L, ("1", "FETCH"))
    a = (L, "first")
    todo = [(h, dict(full, **{}) | {x: None}, x) for x in (a, a + ("next",), a + ("next", "next"))]
    k, P = inner_loop(v, h, L)
    if k is not None:
        for word in ("UID", "FLAGS", "BODY[]"):
            todo.append((k, {(P,): ("ATOM", word), (P, "next"): None}, (P, "next")))
    for hd, m, x in todo:
        s = v.round(hd, v.model(m))
        bad = [i for b in s.blocks if b in body for i in b.insts if i.opc == "load" and v.tok(i)[:-1] == x]
        r.require(not bad, "C22:short:%s" % v.f.name, "%s: a response of %d words is not looked into further" % (v.f.name, len(x) - 2), "%s (%s): a response that ends early is looked into beyond its end (NULL)" % (bad[0].where if bad else "", v.f.name))


def parse822(r):
    v = opt(r, "make_rfc822_from_imap")
    if not v:
        return
    f = v.f
    c = list(f.calls("imap_fetch_message_raw"))
    if len(c) != 1:
        r.notes.append("make_rfc822_from_imap not recognised")
        return
    x = strip(c[0].args[0])
    if x.kind == "arg":
        r.require(x is f.params[0], "C22:parse:path", "the message asked for is fetched", "%s (make_rfc822_from_imap): another message is fetched" % c[0].where)
    s = Sccp(f, args={}, cap=4)
    o = strip(c[0].args[3])
    if o.kind == "inst" and o.opc == "alloca":
        for i in f.insts():
            if i.opc == "load" and strip(v.base(i.ops[0])) is o and sym.inst_dominates(v.dom, c[0], i):
                off = v.p.s.gepsteps(i.ops[0])[1]
                ini = [x for x in f.insts() if x.opc == "store" and strip(v.base(x.ops[1])) is o and (str(v.p.s.gepsteps(x.ops[1])[1]) == str(off) or v.ap(x) & v.ap(i)) and sym.inst_dominates(v.dom, x, c[0])]
                ini += [x for x in f.insts() if x.opc == "call" and x.cname and "memset" in x.cname and strip(v.base(x.args[0])) is o and sym.inst_dominates(v.dom, x, c[0])]
                r.require(bool(ini), "C22:parse:init", "no message if none was fetched", "%s (make_rfc822_from_imap): if no message was fetched, uninitialised memory is taken for one" % i.where)
    cb = strip(c[0].args[2])
    if cb.kind == "func" and prog().has(cb.fn.name):
        w = Imap(cb.fn.name)
        d = list(w.f.calls("data_to_rfc822"))
        if len(d) == 1:
            y, n = strip(d[0].args[1]), strip(d[0].args[2])
            if y.kind == "arg":
                r.require(y is w.f.params[0], "C22:parse:text", "the text fetched is parsed", "%s (%s): something else than the text fetched is parsed" % (d[0].where, cb.fn.name))
            if n.kind in ("arg", "int") or n.kind == "inst" and n.opc in ("add", "sub", "call"):
                r.require(n is w.f.params[1], "C22:parse:len", "over its whole length", "%s (%s): not the whole text fetched is parsed" % (d[0].where, cb.fn.name))
        else:
            r.bad("C22:parse:text", "%s: the text fetched is not parsed" % cb.fn.name)
