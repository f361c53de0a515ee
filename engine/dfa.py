"""Finite automata in the program and their comparison with a specification.

A scanner made by the generator is three tables (character class, next state, result);
they are read from the linked module, and the language of every result is compared
with a regular expression by walking the product of the two automata: an answer for
every text, with a shortest text on which they differ.
"""
from util import init_bytes

# ---- specification: regular expressions over bytes -------------------------------------------------


class Re:
    """Thompson automaton under construction; states are numbers"""
    def __init__(self):
        self.eps, self.tr, self.n = {}, {}, 0

    def new(self):
        self.n += 1
        return self.n - 1


def cls(s):
    """character set: 'a-z0-9_' (a '-' first or last is itself)"""
    out, i = set(), 0
    while i < len(s):
        if i + 2 < len(s) and s[i + 1] == "-":
            out |= set(range(ord(s[i]), ord(s[i + 2]) + 1))
            i += 3
        else:
            out.add(ord(s[i]))
            i += 1
    return ("cls", frozenset(out))


def lit(s):
    return ("seq",) + tuple(("cls", frozenset([ord(c)])) for c in s)


def seq(*xs):
    return ("seq",) + xs


def alt(*xs):
    return ("alt",) + xs


def star(x):
    return ("star", x)


def plus(x):
    return seq(x, star(x))


def opt(x):
    return alt(x, seq())


def rep(x, n):
    return seq(*[x] * n)


def compile_re(specs):
    """{name: regex} -> (start set function, step(set, byte), names(set))"""
    a = Re()
    final = {}

    def build(x, s):
        """from state s; returns end state"""
        k = x[0]
        if k == "cls":
            e = a.new()
            a.tr.setdefault(s, []).append((x[1], e))
            return e
        if k == "seq":
            for y in x[1:]:
                s = build(y, s)
            return s
        if k == "alt":
            e = a.new()
            for y in x[1:]:
                t = a.new()
                a.eps.setdefault(s, []).append(t)
                a.eps.setdefault(build(y, t), []).append(e)
            return e
        t, e = a.new(), a.new()
        a.eps.setdefault(s, []).extend((t, e))
        a.eps.setdefault(build(x[1], t), []).extend((t, e))
        return e
    s0 = a.new()
    for nm, x in specs.items():
        t = a.new()
        a.eps.setdefault(s0, []).append(t)
        final[build(x, t)] = nm

    def close(q):
        q, st = set(q), list(q)
        while st:
            for y in a.eps.get(st.pop(), ()):
                if y not in q:
                    q.add(y)
                    st.append(y)
        return frozenset(q)
    memo = {}

    def step(q, c):
        k = (q, c)
        if k not in memo:
            memo[k] = close({e for x in q for cs, e in a.tr.get(x, ()) if c in cs})
        return memo[k]
    sets = {cs for l in a.tr.values() for cs, _ in l}
    return close({s0}), step, lambda q: {final[x] for x in q if x in final}, sets


def classes(*keys):
    """one representative (the most readable) for each class of bytes that no key tells apart"""
    cl = {}
    for c in sorted(range(256), key=lambda c: (not chr(c).isalnum() or c > 126, not 32 < c < 127, c)):
        cl.setdefault(tuple(k(c) for k in keys), c)
    return list(cl.values())


# ---- automata in the program -----------------------------------------------------------------------


def ints(p, name):
    """contents of a constant table, as signed numbers, or None"""
    g = p.m.globals.get(name)
    v = g._x["init"] if g is not None else None
    b = init_bytes(v, p.m)
    if b is None:
        return None
    ty = g.ty if g.ty.startswith("[") else v.ty
    w = 4 if ty.endswith("i32]") else 2 if ty.endswith("i16]") else 1 if ty.endswith("i8]") else 8 if ty.endswith("i64]") else None
    return None if w is None else [int.from_bytes(b[i:i + w], "little", signed=True) for i in range(0, len(b), w)]


class Scanner:
    def __init__(self, p, prefix, action="attr"):
        self.tok = ints(p, prefix + "_char2tok")
        self.trans = ints(p, prefix + "_trans")
        self.attr = ints(p, prefix + "_" + action)
        self.ok = bool(self.tok and self.trans and self.attr and len(self.tok) == 256)
        if self.ok:
            self.n = len(self.trans) // len(self.attr)
            self.ok = self.n * len(self.attr) == len(self.trans) and self.n > max(self.tok)

    def step(self, s, c, tok=None):
        t = self.tok[c] if tok is None else tok
        return -1 if s < 0 or t < 0 else self.trans[self.n * s + t]


def difference(start, step, result, sstart, sstep, sresult, bytes_, dead=lambda s: False, stop=lambda s, q: False, limit=200000):
    """breadth first over the product; yields (text, got, wanted) for the first text of every pair of results that differ"""
    from collections import deque
    seen, q, told, n = {(start, sstart)}, deque([(start, sstart, b"")]), set(), 0
    while q:
        s, t, w = q.popleft()
        g, x = result(s), sresult(t)
        if g != x and (g, x) not in told:
            told.add((g, x))
            yield w, g, x
        if stop(s, t):
            continue
        for c in bytes_:
            s2, t2 = step(s, c), sstep(t, c)
            if (s2, t2) not in seen and not (dead(s2) and not t2):
                n += 1
                if n > limit:
                    return
                seen.add((s2, t2))
                q.append((s2, t2, w + bytes([c])))


def size(start, step, bytes_, dead=lambda s: False):
    seen, st = {start}, [start]
    while st:
        s = st.pop()
        for c in bytes_:
            t = step(s, c)
            if t not in seen and not dead(t):
                seen.add(t)
                st.append(t)
    return len(seen)
