"""One round of a loop, under pinned facts."""
import sym, loopinfo
from sccp import Sccp, NZ
from lin import Lins
from util import strip


def B(*x):
    return frozenset(x)


class View:
    """a function of a (folded) program with its loops and linear forms"""

    def __init__(self, p, name):
        self.p, self.f = p, p.fn(name)
        self.dom = p.dom(self.f)
        self.loops = sym.loops(self.f)
        self.lin = Lins(p)
        self._ap = {}

    def ap(self, i):
        """access paths of a load or store"""
        if i not in self._ap:
            st = i.opc == "store"
            ty = i.ops[0].ty if st else i.ty
            self._ap[i] = frozenset(self.p.s.apath(i.ops[1] if st else i.ops[0], self.p.m.sizeof(ty)))
        return self._ap[i]

    def loads(self, *ends, within=None):
        return [i for b in (within or self.f.blocks) for i in b.insts if i.opc == "load" and self.ap(i) and all(any(q.endswith(e) for e in ends) for q in self.ap(i))]

    def stores(self, *ends, within=None):
        return [i for b in (within or self.f.blocks) for i in b.insts if i.opc == "store" and self.ap(i) and all(any(q.endswith(e) for e in ends) for q in self.ap(i))]

    def inner(self, b):
        c = [(len(body), n, h) for n, (h, body) in enumerate(self.loops.items()) if b in body]
        return min(c)[2] if c else None

    def outer(self, b):
        c = [(-len(body), n, h) for n, (h, body) in enumerate(self.loops.items()) if b in body]
        return min(c)[2] if c else None

    def around(self, b):
        """headers of the loops around b, innermost first"""
        return [h for _, _, h in sorted((len(body), n, h) for n, (h, body) in enumerate(self.loops.items()) if b in body)]

    def counted(self, h):
        return loopinfo.counted(self.p.s, h, self.loops[h], self.dom)

    def exits(self, h):
        body = self.loops[h]
        return [s for b in body for s in b.succs if s not in body]

    def round(self, h, pin, args=None, **kw):
        kw.setdefault("cap", 24)
        return Sccp(self.f, pin=pin, entry=h, avoid=self.exits(h), args=args or {}, **kw)

    def skips(self, s, h, through):
        """can one round be made without executing any of `through`?"""
        body = self.loops[h]
        blocked = {c.bb for c in through}
        if h in blocked:
            return False
        seen, wl = set(), [x for (a, x) in s.edges if a is h and x in body]
        while wl:
            b = wl.pop()
            if b is h:
                return True
            if b in seen or b in blocked:
                continue
            seen.add(b)
            wl += [y for (a, y) in s.edges if a is b and y in body]
        return False

    def back(self, s, phi):
        """possible values of a header phi after the round (None: any)"""
        out = set()
        for v, b in phi.inc:
            if (b, phi.bb) in s.edges and b in self.loops[phi.bb]:
                x = s.get(v)
                if x is None:
                    return None
                out |= x
        return frozenset(out)

    def avoidable(self, s, start, insts):
        """can a return be reached from start without executing any of insts?"""
        blocked = {c.bb for c in insts}
        seen, wl = set(), [start]
        while wl:
            b = wl.pop()
            if b in seen or b in blocked:
                continue
            seen.add(b)
            if b.term.opc == "ret":
                return True
            wl += [y for (a, y) in s.edges if a is b]
        return False

    def idx(self, ptr):
        """the index of an array element (last varying step of the address)"""
        st = [x for x in self.p.s.gepsteps(ptr)[1] if x[0] == "[]"]
        return strip(st[-1][1]) if st else None

    def base(self, ptr):
        return strip(self.p.s.gepsteps(ptr)[0])

    def covers(self, r, h, paths, key, what, args=()):
        """the loop visits every element of [0, bound)"""
        L = self.counted(h)
        c = L and L.phi is not None and loopinfo.covers_from_zero(L)
        where = h.insts[-1].where
        if not c or not self.bound(L, paths, args):
            r.notes.append("range of the loop over %s at %s not recognised" % (what, where))
            return L
        r.require(c[0] == 0 and c[2] == 0 and not L.other_exits, key, "the loop at %s covers all %s" % (where, what),
                  "%s (%s): the loop covers only [%s, n%+d) of the %s%s" % (where, self.f.name, c[0], c[2], what, ", and may stop early" if L.other_exits else ""))
        return L

    def bound(self, L, paths, args=()):
        b = L.bound_exit
        if b is None:
            return False
        for blk in L.body:
            t = blk.term
            if t.opc == "br" and len(t.succ) == 2 and any(s not in L.body for s in blk.succs):
                c = strip(t.ops[0])
                if c.kind == "inst" and c.opc == "icmp":
                    for o in c.ops:
                        o = strip(o)
                        if o in args or (o.kind == "inst" and o.opc == "load" and self.ap(o) and self.ap(o) <= set(paths)):
                            return True
                        g = self.lin(o)
                        if any(self.lin.val(a) in args or set(self.p.s.paths(self.lin.val(a))) <= set(paths) for a in g.atoms()):
                            return True
        return False


def force(body, h, site):
    """pins under which a round of the loop comes past the site, whatever way it takes there"""
    seen, todo = set(), [site]
    while todo:
        x = todo.pop()
        if x in seen or x not in body:
            continue
        seen.add(x)
        if x is not h:
            todo += x.preds
    pins = {}
    for a in seen:
        t = a.term
        if a is site or not t.succ or all(x in seen for x in t.succ):
            continue
        c = t.ops[0]
        if c.kind != "inst":
            continue
        if t.opc == "br" and len(t.succ) == 2:
            pins[c] = B(1 if t.succ[0] in seen else 0)
        elif t.opc == "switch" and t.succ[0] not in seen:
            pins[c] = frozenset(v.c if hasattr(v, "c") else v for v, x in t.cases if x in seen)
    return pins
