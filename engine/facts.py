"""Forward dataflow of the possible values of one tracked quantity."""
from prog import phi_edge_atoms, cv, cvs


def value_sets(f, match, universe, entry=None):
    """{block: frozenset of values of the tracked quantity possible at block entry}.

    match(Val) -> True if the compared value is the tracked quantity (or the list of
    values per compared constant is derived via the default equality semantics)."""
    U = frozenset(universe)
    IN = {f.blocks[0]: U if entry is None else frozenset(entry)}
    wl = [f.blocks[0]]
    while wl:
        b = wl.pop()
        for s in b.succs:
            v = narrow(b, s, match, IN[b], U)
            if not v and IN[b]:
                continue
            o = IN.get(s)
            n = v if o is None else o | v
            if n != o:
                IN[s] = n
                wl.append(s)
    return IN


_CMP = {"slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b,
        "ult": lambda a, b: a < b, "ule": lambda a, b: a <= b, "ugt": lambda a, b: a > b, "uge": lambda a, b: a >= b}


def narrow(b, s, match, cur, U):
    for pred, x, y in phi_edge_atoms(b, s):
        if isinstance(x, int) or not match(x):
            continue
        if pred == "eq" and cv(y) is not None:
            cur = cur & {cv(y)}
        elif pred == "ne" and cv(y) is not None:
            cur = cur - {cv(y)}
        elif pred == "in":
            cur = cur & cvs(y)
        elif pred == "notin":
            cur = cur - cvs(y)
        elif pred in _CMP and cv(y) is not None:
            cur = frozenset(c for c in cur if _CMP[pred](c, cv(y)))
    return cur
