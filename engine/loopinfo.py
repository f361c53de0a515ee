"""Counted loops: which index interval a loop covers."""
import sym


def _lin(s, v):
    """v as (base expr, constant) stripping +/- const and constant pointer steps."""
    k = 0
    for _ in range(12):
        if v.kind == "int":
            return (("int", 0), k + v.c)
        if v.kind in ("inst", "cexpr"):
            if v.opc in ("sext", "zext", "trunc", "freeze", "bitcast"):
                v = v.ops[0]
                continue
            if v.opc == "add" and v.ops[1].kind == "int":
                k += v.ops[1].c
                v = v.ops[0]
                continue
            if v.opc == "sub" and v.ops[1].kind == "int":
                k -= v.ops[1].c
                v = v.ops[0]
                continue
        break
    return (s.expr(v), k)


class Loop:
    """phi, lo, hi: covers [lo, hi) as (expr,const) pairs in steps of one; exits: other exit edges"""

    def __init__(self, h, body):
        self.h, self.body = h, body
        self.phi = self.lo = self.hi = self.step = None
        self.bound_exit = None
        self.other_exits = []
        self.down = False


def counted(s, h, body, idom):
    """Recognise for/while loops over an index or a walking pointer, up or down."""
    L = Loop(h, body)
    latch = [b for b in h.preds if b in body]
    exits = [(b, t) for b in body for t in b.succs if t not in body and t.term.opc != "unreachable"]
    best = None
    for phi in h.insts:
        if phi.opc != "phi":
            break
        ins = [v for v, b in phi.inc if b not in body]
        back = [v for v, b in phi.inc if b in body]
        if len(ins) != 1 or not back:
            continue
        steps = set()
        for v in back:
            st = _step(s, v, phi)
            steps.add(st)
        if len(steps) != 1 or None in steps:
            continue
        step = steps.pop()
        if abs(step) < 1:
            continue
        for b, t in exits:
            tm = b.term
            if tm.opc != "br" or len(tm.succ) != 2:
                continue
            c = tm.ops[0]
            stay = tm.succ[0] is not t
            cc, neg = c, False
            while cc.kind == "inst" and cc.opc == "xor":
                cc, neg = cc.ops[0], not neg
            if cc.kind != "inst" or cc.opc != "icmp":
                continue
            for side in (0, 1):
                x, y = cc.ops[side], cc.ops[1 - side]
                d = _disp(s, x, phi)
                if d is None:
                    continue
                # y must not change inside the loop (best effort)
                pred = cc.pred
                if side == 1:
                    pred = sym.SWAP[pred]
                if (not stay) != neg:
                    pred = sym.NEG[pred]
                # stays in the loop while (phi + d) pred y
                best = (phi, ins[0], step, d, pred, y, b, t)
                r = _range(s, best)
                if r:
                    L.phi, L.step = phi, step
                    L.lo, L.hi = r
                    L.down = step < 0
                    L.bound_exit = (b, t)
                    L.other_exits = [e for e in exits if e != (b, t)]
                    return L
    return None


def _step(s, v, phi):
    d = _disp(s, v, phi)
    return d


def _disp(s, v, phi):
    """constant displacement of v from phi in elements, or None"""
    k = 0
    for _ in range(10):
        if v is phi:
            return k
        if v.kind != "inst":
            return None
        if v.opc in ("sext", "zext", "trunc", "freeze", "bitcast"):
            v = v.ops[0]
        elif v.opc == "add" and v.ops[1].kind == "int":
            k += v.ops[1].c
            v = v.ops[0]
        elif v.opc == "sub" and v.ops[1].kind == "int":
            k -= v.ops[1].c
            v = v.ops[0]
        elif v.opc == "gep" and len(v.ops) == 2 and v.ops[1].kind == "int":
            k += v.ops[1].c
            v = v.ops[0]
        else:
            return None
    return None


def _range(s, best):
    phi, init, step, d, pred, y, b, t = best
    lo = _plin(s, init)
    hy = _plin(s, y)
    if step == 1:
        if pred in ("slt", "ult", "ne"):
            hi = (hy[0], hy[1] - d)
        elif pred in ("sle", "ule"):
            hi = (hy[0], hy[1] - d + 1)
        else:
            return None
        # bottom-tested loops: the test is on the value after the step
        return (lo, (hi[0], hi[1])) if d == 0 else (lo, (hi[0], hi[1] + d)) if d == 1 and False else (lo, hi)
    if step == -1:
        # values used: either phi (init .. ) or phi-1 when tested before the decrement
        if pred in ("sge",):
            return ((hy[0], hy[1] - d), (lo[0], lo[1] + 1))
        if pred in ("sgt", "ne", "ugt"):
            # while (n > 0) / while (n--): body uses phi-1
            return ((hy[0], hy[1] - d), (lo[0], lo[1]))
        return None
    return None


def _plin(s, v):
    """like _lin, but base+n pointers give ('ptr+', base, n)"""
    k = 0
    for _ in range(12):
        if v.kind in ("inst", "cexpr") and v.opc == "gep" and len(v.ops) == 2:
            if v.ops[1].kind == "int":
                k += v.ops[1].c
                v = v.ops[0]
                continue
            e, c = _lin(s, v.ops[1])
            return (("elt", s.expr(v.ops[0]), e), c + k)
        break
    e, c = _lin(s, v)
    return (e, c + k)


def covers_from_zero(L):
    """(bound expr) if the loop provably covers [0, bound): index loops from 0, or pointer
    walks base .. base+n. Returns (kind, expr, const) or None."""
    if L.lo[0] == ("int", 0):
        if L.hi[0][0] == "elt":
            return None
        return (L.lo[1], L.hi[0], L.hi[1])
    if L.hi[0][0] == "elt" and L.hi[0][1] == L.lo[0]:
        return (L.lo[1], L.hi[0][2], L.hi[1])
    return None
