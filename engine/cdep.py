"""Control dependence (post-dominator based)."""


def postdominators(f):
    """{block: set of blocks that post-dominate it} w.r.t. a virtual exit (blocks without successors)"""
    bl = f.blocks
    ALL = set(bl)
    pd = {b: (set([b]) if not b.succs else set(ALL)) for b in bl}
    ch = True
    while ch:
        ch = False
        for b in reversed(bl):
            if not b.succs:
                continue
            n = set.intersection(*[pd[s] for s in b.succs]) | {b}
            if n != pd[b]:
                pd[b] = n
                ch = True
    return pd


class CDep:
    def __init__(self, f, dead=()):
        """dead: blocks (e.g. ending in a noreturn call) that are not counted as a way out"""
        self.f = f
        self.pd = postdominators(f)
        self.on = {b: set() for b in f.blocks}      # block -> {(branch block, successor)}
        for b in f.blocks:
            ss = list(dict.fromkeys(b.succs))
            if len(ss) < 2:
                continue
            for s in ss:
                for x in self.pd[s]:
                    if x not in self.pd[b] or x is b:
                        self.on[x].add((b, s))

    def all(self, b):
        """transitive control dependences of block b"""
        out, st, seen = set(), [b], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for (y, s) in self.on[x]:
                out.add((y, s))
                st.append(y)
        return out


def cond_loads(v, depth=12):
    """the loads and calls a branch condition is computed from (not through memory)"""
    out, st, seen = set(), [(v, 0)], set()
    while st:
        x, d = st.pop()
        if x in seen or d > depth or x.kind != "inst":
            continue
        seen.add(x)
        if x.opc in ("load", "call"):
            out.add(x)
            continue
        for o in x.ops:
            st.append((o, d + 1))
        if x.opc == "phi":
            for o, _ in x.inc:
                st.append((o, d + 1))
    return out
