"""C10: threads - messages sharing an id are in one thread, and -t adds exactly the threads of the matches."""
import sym, loopinfo, searchview
from prog import inlined_prog, Typestate
from build import AnalysisBroken
from sccp import Sccp, NZ
from vec import Vec
from cdep import CDep, cond_loads
from util import strip, leaves
from c06 import bound_paths

FLOOR = 12
KEEP = {"find_threading", "find_base", "add_msg_path", "add_mbox_messages", "int_list_reader_read", "matches_int_list_reader_init", "update_database",
        "tokenise_message", "scan_new_messages", "data_to_rfc822", "free_rfc822", "make_rfc822", "make_rfc822_from_imap", "do_stat", "lookup_msgpath",
        "create_ro_mapping", "free_ro_mapping", "maybe_grow_message_arrays"}
B = lambda x: frozenset([x])


def run(r, tier):
    p = inlined_prog(keep=KEEP)
    threading(r, p)
    when(r, p)
    search(r)


def idx_of(p, ptr):
    b, st = p.s.gepsteps(ptr)
    ix = [s[1] for s in st if s[0] == "[]"]
    return strip(ix[-1]) if ix else None


def base(p, ptr):
    return strip(p.s.gepsteps(ptr)[0])


def resolve(s, v, seen=None):
    """values v can stand for in the executed part"""
    seen = seen if seen is not None else set()
    v = strip(v)
    if v in seen:
        return set()
    seen.add(v)
    if v.kind == "inst" and v.opc == "phi" and v.bb in s.blocks and v.bb is not s.entry and v.bb not in s.avoid:
        out = set()
        for x, b in v.inc:
            if (b, v.bb) in s.edges:
                out |= resolve(s, x, seen)
        return out
    if v.kind == "inst" and v.opc == "select":
        c = s.get(v.ops[0])
        out = set()
        for k, w in ((1, 1), (2, 0)):
            if c is None or w in {x & 1 for x in c}:
                out |= resolve(s, v.ops[k], seen)
        return out
    return {v}


def threading(r, p):
    r.rule("all identifiers are considered, each with the list of all messages carrying it; any two messages of a list end in one group; every message gets a thread")
    f = p.fn("find_threading")
    loops = sym.loops(f)
    dom = p.dom(f)
    cd = CDep(f)
    # the group table
    tabs = [c for c in f.calls("malloc", "calloc") if any("database.n_msgs" in p.s.paths(a) or any("database.n_msgs" in p.s.paths(x) for x in leaves(a)) for a in c.args)]
    if not tabs:
        r.notes.append("the group table was not recognised")
        return
    T = [t for t in tabs if any(i.opc == "store" and base(p, i.ops[1]) is t for i in f.insts())]
    if len(T) != 1:
        r.notes.append("several candidates for the group table")
        return
    T = T[0]
    acc = [i for i in f.insts() if i.opc in ("load", "store") and base(p, i.ops[1] if i.opc == "store" else i.ops[0]) is T]

    def inner(b):
        c = [(len(body), h) for h, body in loops.items() if b in body]
        return min(c, key=lambda x: x[0])[1] if c else None
    info = {h: loopinfo.counted(p.s, h, body, dom) for h, body in loops.items()}

    def full(h, bound, what, key):
        L = info[h]
        c = L and loopinfo.covers_from_zero(L)
        if not c or bound_paths(p, L) != {bound}:
            r.notes.append("range of the loop over %s at %s not recognised" % (what, h.insts[-1].where))
            return False
        return r.require(c[0] == 0 and c[2] == 0 and not L.other_exits, "C10:loop:" + key, "the loop at %s covers all %s" % (h.insts[-1].where, what),
                         "find_threading(): the loop at %s covers only [%s, %s%+d) of the %s%s" % (h.insts[-1].where, c[0], bound, c[2], what, ", and may stop early" if L.other_exits else ""))
    # own group to begin with
    ini = [i for i in acc if i.opc == "store" and inner(i.bb) in info and info.get(inner(i.bb)) and info[inner(i.bb)].phi is not None
           and strip(i.ops[0]) is info[inner(i.bb)].phi and idx_of(p, i.ops[1]) is info[inner(i.bb)].phi]
    if not ini:
        r.bad("C10:init", "find_threading(): the group table is not initialised to one group per message")
    for i in ini:
        full(inner(i.bb), "database.n_msgs", "messages", "init")
    # the lists
    inits = list(f.calls("matches_int_list_reader_init", "int_list_reader_init"))
    if not inits:
        inits = []
        r.notes.append("opening of the message lists not recognised")
    for c in inits:
        ps = set()
        for a in c.args[1:]:
            ps |= p.s.apath(a, 1) if a.kind == "inst" and a.opc == "gep" else p.s.paths(a)
            ps |= p.s.paths(a)
        m0 = any("match0" in q for q in ps)
        m1 = any("match1" in q for q in ps)
        if not (m0 or m1):
            r.notes.append("list opened at %s not recognised (%s)" % (c.where, sorted(ps)))
        else:
            r.require(m0 and not m1, "C10:list", "threads are built at %s from the list of all messages naming the id" % c.where,
                      "%s (find_threading): threads are built from the list of messages whose own id it is; replies are not joined" % c.where)
        h = inner(c.bb)
        if h is None:
            continue
        full(h, "database.msg_ids.size", "identifiers", "ids") if info[h] and bound_paths(p, info[h]) == {"database.msg_ids.size"} else r.notes.append("identifier loop at %s: bound %s" % (h.insts[-1].where, info[h] and bound_paths(p, info[h])))
        # only absent entries are skipped
        other = set()
        for (cb, s) in cd.all(c.bb):
            if cb not in loops[h] or not sym.dominates(dom, cb, c.bb) or cb is h and info[h] and cb is info[h].bound_exit[0]:
                continue
            for x in cond_loads(cb.term.ops[0]):
                q = p.s.paths(x)
                if x.ty != "ptr" or not any("tokens" in y or "msg_ids" in y for y in q):
                    other |= q or {"?"}
        r.require(not other, "C10:skip", "no identifier is skipped at %s" % c.where, "%s (find_threading): identifiers are skipped depending on %s" % (c.where, sorted(other)))
    # merging
    rd = list(f.calls("int_list_reader_read"))
    for c in rd:
        h = next((x for n, x in sorted((len(b), h) for h, b in []) ), None)
        cand = [(len(body), k) for k, (h, body) in enumerate(loops.items()) if c.bb in body]
        if not cand:
            continue
        h, body = list(loops.items())[min(cand)[1]]
        ex = [(b, t) for b in body for t in b.succs if t not in body and not any(x.opc == "unreachable" for x in t.insts)]
        for b, t in ex:
            cl = leaves_cond(b.term.ops[0]) if b.term.ops else set()
            r.require(c in cl, "C10:merge-exit", "the list is read to its end (%s)" % b.insts[-1].where,
                      "%s (find_threading): reading a list of messages can stop before its end" % b.insts[-1].where)
        merge(r, p, f, T, h, body, acc, c)
    if not rd:
        r.notes.append("reading of the message lists not recognised")
    tids(r, p, f, T, loops, info, acc, full, inner)
    find_base(r, p)


def leaves_cond(v):
    out, st, seen = set(), [v], set()
    while st:
        x = st.pop()
        if x in seen or x.kind != "inst":
            continue
        seen.add(x)
        out.add(x)
        if x.opc not in ("call", "load"):
            st += list(x.ops)
            if x.opc == "phi":
                st += [y for y, _ in x.inc]
    return out


def merge(r, p, f, T, h, body, acc, rdcall):
    cmps = []
    isbase = lambda v: any(x.kind == "inst" and (x.opc == "call" and x.cname.startswith("find_base") or x.opc == "load" and x in acc) for x in leaves(v, limit=200))
    def off(v):
        v, k = strip(v), 0
        while v.kind == "inst" and v.opc in ("add", "sub") and v.ops[1].kind == "int":
            k += v.ops[1].c if v.opc == "add" else -v.ops[1].c
            v = strip(v.ops[0])
        return v, k
    for b in body:
        for i in b.insts:
            if i.opc == "icmp" and i.ty != "ptr" and all(o.kind == "inst" and o.ty != "ptr" for o in i.ops) and all(isbase(o) for o in i.ops):
                x, y = off(i.ops[0])[0], off(i.ops[1])[0]
                if x.opc == "load" and x in acc or y.opc == "load" and y in acc:
                    continue        # walking to the base
                cmps.append(i)
    pairs = {frozenset((off(i.ops[0])[0], off(i.ops[1])[0])) for i in cmps}
    if len(pairs) != 1 or len(next(iter(pairs))) != 2:
        if not cmps and not [i for i in acc if i.opc == "store" and i.bb in body]:
            r.bad("C10:merge", "find_threading(): the messages of a list are not joined")
        else:
            r.notes.append("the joining of groups was not recognised")
        return
    pr = next(iter(pairs))
    N = [v for v in pr if v.opc == "phi" and v.bb is h]
    if len(N) != 1:
        r.notes.append("the running group was not recognised")
        return
    N = N[0]
    O = next(v for v in pr if v is not N)
    dom = p.dom(f)
    first = next((i for i in cmps if all(sym.dominates(dom, i.bb, j.bb) for j in cmps)), None)
    if first is None:
        r.notes.append("comparison order not recognised")
        return
    exp = {"lt": (N, O, {O}), "gt": (O, N, {N}), "eq": (None, None, {N, O})}
    for rel, (ia, va, nx) in exp.items():
        def pin(i):
            if i in cmps:
                ds = {"lt": (-1, -2, -9), "eq": (0,), "gt": (1, 2, 9)}[rel]         # O rel N
                (x, kx), (y, ky) = off(i.ops[0]), off(i.ops[1])
                pr = i.pred if i.pred in ("eq", "ne") else i.pred[1:]
                out = set()
                for d in ds:
                    d = (-d if x is N else d) + kx - ky
                    out.add(int({"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[pr]))
                return frozenset(out)
            return None
        s = Sccp(f, pin=pin, entry=first.bb, avoid=[h] + [b for b in f.blocks if b not in body])
        st = [i for i in acc if i.opc == "store" and i.bb in s.blocks and i.bb not in s.avoid]
        lt = [b for b in h.preds if (b, h) in s.edges]
        nxt = set()
        for v, b in N.inc:
            if (b, h) in s.edges:
                nxt |= resolve(s, v)
        txt = "joining a message whose group is %s the running one" % {"lt": "below", "gt": "above", "eq": "already"}[rel]
        if not lt:
            r.notes.append(txt + ": the list is not continued")
            continue
        if rel != "eq":
            # some store links the two, on every path
            good, unk = [], []
            for i in st:
                x, v = idx_of(p, i.ops[1]), resolve(s, i.ops[0])
                x = resolve(s, x) if x is not None else {None}
                if x == {ia} and v == {va}:
                    good.append(i)
                elif x <= {N, O} and v <= {N, O} and x and v:
                    r.bad("C10:merge:" + rel, "%s (find_threading): %s: the higher group is not made to point to the lower one" % (i.where, txt))
                else:
                    unk.append(i)
            if not good:
                if unk:
                    r.notes.append(txt + ": form not recognised")
                    continue
                r.bad("C10:merge:" + rel, "%s (find_threading): %s: the groups are not joined" % (first.where, txt))
                continue
            s2 = Sccp(f, pin=pin, entry=first.bb, avoid=[h] + [b for b in f.blocks if b not in body] + [i.bb for i in good if i.bb is not first.bb])
            r.require(good[0].bb is first.bb or not any((b, h) in s2.edges for b in h.preds), "C10:merge:" + rel, txt + " links the higher to the lower",
                      "%s (find_threading): %s: the groups are joined only sometimes" % (good[0].where, txt))
        bad = nxt - nx
        if bad - pr:
            r.notes.append(txt + ": next group not recognised")
        else:
            r.require(not bad, "C10:merge-next:" + rel, txt + " goes on with the common group", "%s (find_threading): %s: the following messages are joined to a group that is not the common one" % (first.where, txt))


def tids(r, p, f, T, loops, info, acc, full, inner):
    st = [i for i in f.insts() if i.opc == "store" and any(q.endswith("msgpath.tid") or q.endswith(".tid") for q in p.s.apath(i.ops[1], 4))]
    if not st:
        r.bad("C10:tid", "find_threading(): no thread number is recorded")
        return
    hs = {inner(i.bb) for i in st}
    if len(hs) != 1 or None in hs:
        r.notes.append("thread numbers are assigned in several loops")
        return
    h = hs.pop()
    body, L = loops[h], info[h]
    if not full(h, "database.n_msgs", "messages", "tids") or L.phi is None:
        return
    if L.down:
        r.notes.append("thread numbers assigned downwards")
        return
    own = [i for b in body for i in b.insts if i.opc == "icmp" and i.pred in ("eq", "ne") and {strip(o) for o in i.ops} & {L.phi}
           and any(strip(o) in acc or strip(o).opc == "call" for o in i.ops if strip(o).kind == "inst")]
    if not own:
        r.notes.append("the test for a group's first message was not recognised")
        return
    for eq in (1, 0):
        s = Sccp(f, pin=lambda i: B(int((i.pred == "eq") == bool(eq))) if i in own else None, entry=h, avoid=[b for b in f.blocks if b not in body])
        here = [i for i in st if i.bb in s.blocks and i.bb not in s.avoid]
        back = [b for b in h.preds if b in body]
        s2 = Sccp(f, pin=lambda i: B(int((i.pred == "eq") == bool(eq))) if i in own else None, entry=h, avoid=[b for b in f.blocks if b not in body] + [i.bb for i in here])
        txt = "the first message of a group" if eq else "a later message of a group"
        if not r.require(not any((b, h) in s2.edges for b in back), "C10:tid-set:%d" % eq, txt + " is given a thread number", "%s (find_threading): %s may get no thread number" % (h.insts[-1].where, txt)):
            continue
        for i in here:
            x = idx_of(p, i.ops[1])
            r.require(x is L.phi, "C10:tid-index:%d" % eq, "%s: recorded for that message" % i.where, "%s (find_threading): the thread number is recorded for another message" % i.where) if x is not None else None
            vs = resolve(s, i.ops[0])
            for v in vs:
                if eq:
                    # a counter which moves on
                    okc = v.kind == "inst" and v.opc == "phi" and v.bb is h or v.kind == "inst" and v.opc == "add"
                    if v is L.phi:
                        r.ok("thread number is the message number")
                        continue
                    if v.kind == "int":
                        r.bad("C10:tid-new", "%s (find_threading): every new thread is given the same number" % i.where)
                        continue
                    if not okc:
                        if v.kind == "inst" and v.opc == "load":
                            r.bad("C10:tid-new", "%s (find_threading): a new thread is given the number of another thread" % i.where)
                        else:
                            r.notes.append("new thread number at %s not recognised" % i.where)
                        continue
                    ph = v
                    while ph.kind == "inst" and ph.opc == "add":
                        ph = strip(ph.ops[0])
                    if ph.kind == "inst" and ph.opc == "phi" and ph.bb is h:
                        nx = set()
                        for y, b in ph.inc:
                            if (b, h) in s.edges and b in body:
                                nx |= resolve(s, y)
                        r.require(nx and all(y.kind == "inst" and y.opc == "add" and y.ops[1].kind == "int" and y.ops[1].c > 0 for y in nx), "C10:tid-next", "each thread gets a number of its own (%s)" % i.where,
                                  "%s (find_threading): two threads can get the same number" % i.where)
                else:
                    if v.kind == "inst" and v.opc == "load" and any(q.endswith(".tid") for q in p.s.paths(v)):
                        x = idx_of(p, v.ops[0])
                        src = set(leaves(x)) if x is not None else set()
                        r.require(bool(src & set(acc)) or any(y.kind == "inst" and y.opc == "call" for y in src) or any(strip(o) is x for c in own for o in c.ops if strip(o) is not L.phi),
                                  "C10:tid-group", "%s: taken from its group" % i.where, "%s (find_threading): a message does not get the thread number of its group" % i.where)
                    elif v.kind == "inst" and (v.opc == "phi" and v.bb is h and v is not L.phi or v.opc == "add"):
                        r.bad("C10:tid-group", "%s (find_threading): a message of an existing group gets a thread number of its own" % i.where)
                    else:
                        r.notes.append("thread number at %s not recognised" % i.where)


def find_base(r, p):
    if not p.has("find_base"):
        return
    f = p.fn("find_base")
    # the result is a table entry pointing to itself
    loops = sym.loops(f)
    tab = f.params[0]
    for b in f.blocks:
        if b.term.opc == "ret" and b.term.ops:
            v = strip(b.term.ops[0])
            conds = [i for i in f.insts() if i.opc == "icmp" and i.pred in ("eq", "ne") and any(strip(o).kind == "inst" and strip(o).opc == "load" and base(p, strip(o).ops[0]) is tab and idx_of(p, strip(o).ops[0]) is not None
                     and any(strip(q) is idx_of(p, strip(o).ops[0]) for q in i.ops if q is not o) for o in i.ops)]
            # a loop-exit condition table[a] == a for the returned a
            hit = []
            for i in conds:
                x = next((idx_of(p, strip(o).ops[0]) for o in i.ops if strip(o).kind == "inst" and strip(o).opc == "load"), None)
                vv = {v} | ({y for y, _ in v.inc} if v.kind == "inst" and v.opc == "phi" else set())
                if x in {strip(y) for y in vv} or x is v:
                    hit.append(i)
            if hit:
                r.ok("find_base returns an entry that is its own base")
            elif not loops:
                r.bad("C10:base", "find_base() does not follow the chain of groups to its end: groups joined earlier are missed")
            else:
                r.notes.append("result of find_base not recognised")


def when(r, p):
    r.rule("threads are computed anew in every run that adds messages, after they were added")
    for fn, adders in (("update_database", ("add_msg_path", "add_mbox_messages")),):
        f = p.fn(fn)
        mb = list(f.calls("add_mbox_messages"))

        def edge(b, s, st):
            return (st,)

        seen = []

        def step(i, st):
            if i.cname in ("find_threading",):
                return ("threaded",)
            if i.cname == "add_msg_path":
                return ("new",)
            if i.cname == "add_mbox_messages":
                return ("mbox-new",) if st in ("old", "threaded") else ("new",)
            return (st,)
        ts = Typestate(p, step, edge)
        out = ts.run(fn, "old")
        r.require("new" not in out, "C10:when:files", "after messages were added as files, threads are recomputed before %s returns" % fn,
                  "%s(): messages added as files can be left without recomputing threads" % fn)
        if not list(f.calls("add_msg_path")):
            r.notes.append("adding of message files not recognised in update_database")
        # mbox messages: pinned result
        for v in (1,):
            s = Sccp(f, pin=lambda i: B(v) if i in mb else None, avoid=[c.bb for c in f.calls("find_threading")])
            ret = [b for b in f.blocks if b.term.opc == "ret" and b in s.blocks]
            if mb:
                r.require(not ret, "C10:when:mbox", "after mbox messages were added, threads are recomputed before %s returns" % fn,
                          "%s(): mbox messages added can be left without recomputing threads" % fn)
    # the new-message report of the mbox scanner
    f = p.fn("add_mbox_messages")
    hit = []

    def other(i, st, key):
        if any(q == "database.n_msgs" for q in p.s.apath(i.ops[1], 4)):
            hit.append(i)
            return ("new",)
        return (st,)
    rets = {}

    def visit(i, st, key):
        if i.opc == "ret" and i.ops and i.bb.fn is f:
            rets.setdefault(st, set()).add(ts._eval(i.ops[0], ts.env))
    ts = Typestate(p, lambda i, st: (st,), None, visit)
    ts.other, ts.other_ops = other, ("store",)
    ts.run("add_mbox_messages", "old")
    if hit:
        got = rets.get("new", set())
        if 0 in got:
            r.bad("C10:mbox-report", "add_mbox_messages(): messages can be added without being reported as new, so their threads are not computed")
        elif None in got:
            vals = set()
            for i in set(hit):
                s = Sccp(f, entry=i.bb)
                for b in f.blocks:
                    if b.term.opc == "ret" and b in s.blocks:
                        x = s.get(b.term.ops[0])
                        vals |= {None} if x is None else x
            if None not in vals:
                r.require(0 not in vals, "C10:mbox-report", "add_mbox_messages reports every addition", "add_mbox_messages(): messages can be added without being reported as new, so their threads are not computed")
                return
            r.notes.append("result of add_mbox_messages after adding messages not resolved")
        else:
            r.ok("add_mbox_messages reports every addition")
    else:
        r.notes.append("addition of mbox messages not recognised")


def search(r):
    p = searchview.view()
    f = p.fn("do_search")
    r.rule("with -t the threads of the live matches are marked, all before any is looked up, and every message of a marked thread is added; without it nothing is")
    V = Vec(p, f)
    loops = sym.loops(f)
    dom = p.dom(f)
    tl = [i for i in f.insts() if i.opc == "load" and "read_db.tid_table[]" in p.s.paths(i)]
    show = next((a for a in f.params if a.name and a.name.startswith("show_threads")), None) or (f.params[3] if len(f.params) > 3 else None)

    def tidx(i):
        x = idx_of(p, i.ops[1] if i.opc == "store" else i.ops[0])
        return x is not None and any(y in tl for y in leaves(x))
    marks = [i for i in f.insts() if i.opc == "store" and tidx(i) and i not in tl]
    tests = [i for i in f.insts() if i.opc == "load" and tidx(i) and i not in tl]
    if not marks or not tests:
        if not tl:
            r.bad("C10:search", "do_search(): the recorded threads are not used in a search")
        else:
            r.notes.append("marking of threads not recognised")
        return
    bases = {base(p, i.ops[1]) for i in marks} | {base(p, i.ops[0]) for i in tests}
    bases = {V.root(b) for b in bases}
    if len(bases) != 1:
        r.notes.append("marks of threads kept in several places")
        return
    A = bases.pop()
    # size of the array
    if A.kind == "inst" and A.opc == "call" and A.cname in ("malloc", "calloc"):
        src = [x for a in A.args for x in leaves(a)]
        r.require(any(x in tl for x in src), "C10:array", "the marks at %s have room for the highest thread number" % A.where,
                  "%s (do_search): the array of thread marks is not sized by the thread numbers, which can exceed the number of messages after a purge" % A.where) if not any(
            x.kind == "inst" and x.opc == "call" for x in src) else r.notes.append("size of the array of thread marks not recognised")
        # the maximum itself
        mx = [x for a in A.args for x in [strip(a)]]
        clr = [i for i in f.insts() if i.opc == "call" and (i.cname in ("memset", "bzero") or i.cname.startswith("llvm.memset")) and V.root(base(p, i.args[0])) is A]
        if A.cname == "malloc":
            if not clr:
                fill = [i for i in f.insts() if i.opc == "store" and V.root(base(p, i.ops[1])) is A and i not in marks]
                if fill:
                    r.notes.append("clearing of the thread marks not recognised")
                else:
                    r.bad("C10:clear", "%s (do_search): the thread marks are not cleared before use" % A.where)
            for c in clr:
                n = c.args[2] if c.cname != "bzero" else c.args[1]
                same = p.s.expr(strip(n)) == p.s.expr(strip(A.args[0]))
                import lin
                L = lin.Lins(p)
                d = L(n).add(L(A.args[0]), -1)
                if not d.atoms():
                    r.require(d.const >= 0, "C10:clear", "all thread marks are cleared at %s" % c.where, "%s (do_search): not all thread marks are cleared" % c.where)
                else:
                    r.notes.append("length cleared at %s not recognised" % c.where)
    # the loops
    def inner(b):
        c = [(len(body), k) for k, (h, body) in enumerate(loops.items()) if b in body]
        return list(loops)[min(c)[1]] if c else None
    hm, ht = {inner(i.bb) for i in marks}, {inner(i.bb) for i in tests}
    if len(hm) != 1 or len(ht) != 1 or None in hm | ht:
        r.notes.append("marking loops not recognised")
        return
    hm, ht = hm.pop(), ht.pop()
    r.require(hm is not ht, "C10:two-pass", "threads are looked up only after all were marked", "%s (do_search): threads are marked and looked up in one pass, so earlier messages of a thread are missed" % marks[0].where)
    if hm is ht:
        return
    for h, nm in ((hm, "mark"), (ht, "add")):
        L = loopinfo.counted(p.s, h, loops[h], dom)
        c = L and loopinfo.covers_from_zero(L)
        if not c or bound_paths(p, L) != {"read_db.n_msgs"}:
            r.notes.append("range of the loop at %s not recognised" % h.insts[-1].where)
        else:
            r.require(c[0] == 0 and c[2] == 0 and not L.other_exits, "C10:loop:" + nm, "the loop at %s covers every message" % h.insts[-1].where,
                      "%s (do_search): the loop that %s covers only [%s, n_msgs%+d)%s" % (h.insts[-1].where, "marks threads" if nm == "mark" else "adds the messages of marked threads", c[0], c[2], ", and may stop early" if L.other_exits else ""))
        # index of the thread number is the loop's message
        for i in (marks if nm == "mark" else tests):
            x = idx_of(p, i.ops[1] if i.opc == "store" else i.ops[0])
            for y in leaves(x):
                if y in tl and L and L.phi is not None:
                    k = idx_of(p, y.ops[0])
                    if k is not None and k.kind == "inst":
                        r.require(k is L.phi, "C10:tid-of:" + nm, "thread number at %s is that of the message in hand" % y.where, "%s (do_search): the thread number of another message is used" % y.where)
    # which array holds the matches: the one read in the mark loop
    hits = {V.cell(i) for b in loops[hm] for i in b.insts if i.opc == "load" and V.cell(i)} - {None}
    if len(hits) != 1:
        r.notes.append("matches read when marking not recognised")
        return
    H = hits.pop()
    D = p.enum("DB_MSG_DEAD") if False else 0
    ty = [i for b in loops[hm] for i in b.insts if i.opc == "load" and "read_db.msg_type_and_flags[]" in p.s.paths(i)]
    for hit in (0, 1):
        for t in (0, 1, 2, 3):
            s = Sccp(f, pin=lambda i: B(t) if i in ty else B(hit) if i.opc == "load" and V.cell(i) is H else None, entry=hm, avoid=[b for b in f.blocks if b not in loops[hm]])
            on = [i for i in marks if i.bb in s.blocks and i.bb not in s.avoid]
            s2 = Sccp(f, pin=lambda i: B(t) if i in ty else B(hit) if i.opc == "load" and V.cell(i) is H else None, entry=hm, avoid=[b for b in f.blocks if b not in loops[hm]] + [i.bb for i in on])
            must = on and not any((b, hm) in s2.edges for b in hm.preds if b in loops[hm])
            txt = "a %s message of kind %d" % ("matching" if hit else "non-matching", t)
            want = hit and t != 0
            if want:
                r.require(must, "C10:mark:%d:%d" % (hit, t), txt + " marks its thread", "%s (do_search): %s does not (always) mark its thread" % (marks[0].where, txt))
            elif hit and t == 0 and not ty:
                r.bad("C10:mark:dead", "%s (do_search): a deleted message that matched brings in its whole thread" % marks[0].where)
            else:
                r.require(not on, "C10:mark:%d:%d" % (hit, t), txt + " marks nothing", "%s (do_search): %s marks its thread" % (marks[0].where, txt))
    for i in marks:
        if i.ops[0].kind == "int":
            r.require(i.ops[0].c & 255 != 0, "C10:markval", "mark stored at %s" % i.where, "%s (do_search): the mark stored is zero" % i.where)
    # adding
    for m in (0, 1):
        for v in (0, 1):
            s = Sccp(f, pin=lambda i: B(m) if i in tests else None, entry=ht, avoid=[b for b in f.blocks if b not in loops[ht] and b not in ht.succs], cell=V.cell, init={H: B(v)}, once={ht: loops[ht]}, effect=V.effect)
            got, unk = set(), False
            for b in ht.succs:
                if b not in loops[ht] and (ht, b) in s.memout:
                    y = s.memout[(ht, b)].get(H)
                    if y is None:
                        unk = True
                    else:
                        got |= {int(bool(z)) for z in y}
            # bottom-tested loops leave from elsewhere
            for b in loops[ht]:
                for t in b.succs:
                    if t not in loops[ht] and b is not ht and (b, t) in s.memout:
                        y = s.memout[(b, t)].get(H)
                        if y is None:
                            unk = True
                        else:
                            got |= {int(bool(z)) for z in y}
            txt = "a message %s in a %s thread" % ("already found" if v else "not found itself", "marked" if m else "unmarked")
            if unk or not got:
                r.notes.append(txt + ": not resolved")
                continue
            # live matches always have their thread marked; only dead ones may fall away
            want = {1} if m else {0} if not v else {0, 1}
            r.require(got <= want, "C10:add:%d%d" % (m, v), "%s: found=%s" % (txt, sorted(got)), "%s (do_search): %s ends up found=%s, expected %s" % (ht.insts[-1].where, txt, sorted(got), sorted(want)))
    # only with -t
    if show is not None:
        for v in (0, 1):
            s = Sccp(f, args={show: B(v)})
            reached = hm in s.blocks or ht in s.blocks
            s2 = Sccp(f, args={show: B(v)}, avoid=[hm]) if v else None
            if v == 0:
                r.require(not reached, "C10:only-t", "threads are added only with -t", "%s (do_search): threads are added to the results without -t" % hm.insts[-1].where)
            else:
                outs = [b for b in f.blocks if b.term.opc == "ret" and b in s2.blocks]
                r.require(not outs and hm in s.blocks, "C10:with-t", "with -t the threads are always added", "%s (do_search): with -t a search can finish without adding the threads" % hm.insts[-1].where)
    r.scope = {"functions": ["find_threading", "find_base", "update_database", "add_mbox_messages", "do_search"], "marks": [i.where for i in marks], "tests": [i.where for i in tests]}
