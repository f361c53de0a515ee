"""Recognise functions and struct members that were merely renamed since the reviewed tree.

basesig.json records, per function, its type and the names it calls / is called by,
and, per struct, the layout.  A vanished function is paired with a new one only when the
type agrees and most of the neighbourhood does, uniquely in both directions."""
import json, os, re
HERE = os.path.dirname(os.path.abspath(__file__))


def _g(n):
    return re.sub(r"(\.\d+)+$", "", n)


def signature(bc):
    import ir, sym
    m = ir.Module(bc)
    fs = {f.name: f for f in m.funcs.values() if not f.decl}
    sig, callers = {}, {}
    for f in fs.values():
        callees = sorted({_g(c.callee.name) for c in f.calls() if c.callee.kind == "func" and not c.callee.name.startswith("llvm.")})
        sig[f.name] = [f.val.ty, [], callees, len(f.blocks)]
        for c in callees:
            callers.setdefault(c, set()).add(_g(f.name))
    for n in sig:
        sig[n][1] = sorted(callers.get(_g(n), ()))
    t = sym.Types(bc)
    st = {k: [[n, o, s] for n, o, s, b in v if n] for k, v in t.comp.items() if v}
    return {"fn": sig, "st": st}


def _sim(a, b):
    a, b = set(a), set(b)
    if not a and not b:
        return 1.0
    return len(a & b) / len(a | b)


def _only_member(name, src, uses):
    """every occurrence of `name` is a member access, except at most `uses` declarations"""
    n = 0
    for f in os.listdir(src):
        if f.endswith((".c", ".h")):
            txt = open(os.path.join(src, f), errors="replace").read()
            txt = re.sub(r"/\*.*?\*/", " ", txt, flags=re.S)
            for m in re.finditer(r"\b%s\b" % re.escape(name), txt):
                if not re.search(r"(\.|->)\s*$", txt[:m.start()][-8:]):
                    n += 1
    return n <= uses


def detect(bc, src):
    p = os.path.join(HERE, "basesig.json")
    if not os.path.exists(p):
        return {}
    base = json.load(open(p))
    import ir
    m = ir.Module(bc)
    cur = {_g(f.name) for f in m.funcs.values() if not f.decl}
    gone = {n for n in base["fn"] if _g(n) not in cur}
    out = {}
    sig = None
    if gone:
        sig = signature(bc)
        new = {n for n in sig["fn"] if _g(n) not in {_g(x) for x in base["fn"]}}
        gn, nn = {_g(x) for x in gone}, {_g(x) for x in new}

        def nb(l, drop):
            return [x for x in l if x not in drop]
        cand = {}
        for o in gone:
            for n in new:
                bo, cn = base["fn"][o], sig["fn"][n]
                if bo[0] != cn[0]:
                    continue
                s = _sim(nb(bo[1], gn), nb(cn[1], nn)) + _sim(nb(bo[2], gn), nb(cn[2], nn))
                if s >= 1.2:
                    cand.setdefault(o, []).append((s, n))
        used = {}
        for o, l in cand.items():
            l.sort(reverse=True)
            if len(l) == 1 or l[0][0] > l[1][0]:
                used.setdefault(l[0][1], []).append(o)
        for n, l in used.items():
            if len(l) == 1:
                out[_g(n)] = _g(l[0])
    import sym
    comp = (sig or {}).get("st")
    if comp is None:
        comp = {k: [[n, o, s] for n, o, s, b in v if n] for k, v in sym.Types(bc).comp.items() if v}
    for k, bl in base["st"].items():
        cl = comp.get(k)
        if not cl or len(cl) != len(bl):
            continue
        if [x[1:] for x in bl] != [x[1:] for x in cl]:
            continue
        bn, cn = {x[0] for x in bl}, {x[0] for x in cl}
        for (b0, _, _), (c0, _, _) in zip(bl, cl):
            if b0 != c0 and c0 not in bn and b0 not in cn and c0 not in out and _only_member(c0, src, sum(1 for v in comp.values() if any(x[0] == c0 for x in v))):
                out[c0] = b0
    return out


if __name__ == "__main__":
    import sys
    import build
    b = build.prepare()
    json.dump(signature(b.bc), open(os.path.join(HERE, "basesig.json"), "w"), indent=0, sort_keys=True)
