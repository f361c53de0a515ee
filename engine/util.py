"""Small helpers shared by the checks."""
from sym import CASTS


def init_bytes(v, m):
    """bytes of a constant initialiser, or None"""
    if v is None:
        return None
    if v.kind == "data" and v.s is not None:
        return v.s
    if v.kind in ("zero", "null"):
        return b"\0" * m.sizeof(v.ty)
    if v.kind == "int":
        n = m.sizeof(v.ty)
        return (v.c & ((1 << 8 * n) - 1)).to_bytes(n, "little")
    if v.kind in ("agg", "data"):
        out = b""
        for o in v.ops:
            x = init_bytes(o, m)
            if x is None:
                return None
            out += x
        return out
    return None


def leaves(v, calls=(), limit=400):
    """instructions a value is computed from without going through memory: follows phi,
    select, casts, gep, arithmetic and the first argument of the named calls; yields every
    load, call, alloca, argument and constant reached"""
    seen, st, out = set(), [v], []
    while st and len(seen) < limit:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.kind in ("inst", "cexpr"):
            if x.opc == "phi":
                st.extend(y for y, _ in x.inc)
                continue
            if x.opc == "select":
                st.extend(x.ops[1:3])
                continue
            if x.opc in CASTS or x.opc in ("gep", "add", "sub", "mul", "shl", "lshr", "ashr", "and", "or", "xor", "udiv", "sdiv", "urem", "srem"):
                st.extend(x.ops)
                continue
            if x.opc == "call" and x.cname in calls:
                st.append(x.args[0])
        out.append(x)
    return out


def strip(v):
    while v.kind == "inst" and v.opc in CASTS:
        v = v.ops[0]
    return v
