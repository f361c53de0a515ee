"""Where values and built-up strings come from, within one folded function."""
import re
import sym
from rounds import View, B
from util import strip

CMP = {"strcmp": (0, 0), "strcasecmp": (1, 0), "strncmp": (0, 1), "strncasecmp": (1, 1), "memcmp": (0, 1), "bcmp": (0, 1)}
COPY = {"strcpy", "strcat", "stpcpy", "strncat", "strncpy", "memcpy", "mempcpy", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "sprintf", "snprintf"}
NEW = {"malloc", "calloc", "realloc"}


class Text(View):
    def roots(self, v, s=None, stop=()):
        """what a value can be, through phis, selects and string functions that return their first argument"""
        out, seen, todo = [], set(), [v]
        while todo:
            x = strip(todo.pop())
            if x in seen:
                continue
            seen.add(x)
            if x in stop:
                out.append(x)
            elif x.kind == "inst" and x.opc == "phi" and not (s is not None and x.bb is s.entry):
                todo += [y for y, b in x.inc if s is None or (b, x.bb) in s.edges]
            elif x.kind == "inst" and x.opc == "select":
                c = s.get(x.ops[0]) if s is not None else None
                todo += x.ops[1:2] if c is not None and c and 0 not in c else x.ops[2:] if c == B(0) else x.ops[1:]
            elif x.kind == "inst" and x.opc == "call" and x.cname in ("strcpy", "strcat", "memcpy", "strncpy", "realloc") and x.args:
                todo.append(x.args[0])
                if x.cname == "realloc":
                    out.append(x)
            else:
                out.append(x)
        return out

    def lit(self, x):
        return x.s if x.kind == "global" and x.s is not None else None

    def comp(self, c, text):
        """result of comparing the text with the literal the call names"""
        fold, lim = CMP[c.cname]
        l = [x.s for x in c.args[:2] if self.lit(x) is not None]
        if len(l) != 1:
            return None
        l, t = l[0], text
        if lim:
            if c.args[2].kind != "int":
                return None
            t, l = (t + "\0")[:c.args[2].c], (l + "\0")[:c.args[2].c]
        if fold:
            t, l = t.lower(), l.lower()
        return B(0) if t == l else B(1)

    def obj(self, v, s=None):
        """the object a pointer points into: allocation, alloca, argument, load"""
        out = set()
        for x in self.roots(v, s):
            b = strip(self.p.s.gepsteps(x)[0])
            if b is not x:
                out |= self.obj(b, s)
            else:
                out.add(x)
        return out

    def content(self, m, s=None, within=None):
        """pieces (in order) a buffer is put together from, or None"""
        out = []
        m = strip(m)
        if m.kind == "inst" and m.opc == "call" and m.cname in ("strdup", "new_string", "xstrdup"):
            return [m.args[0]]
        if not (m.kind == "inst" and (m.opc == "call" and m.cname in NEW or m.opc == "alloca")):
            return None
        calls = [c for c in self.f.insts() if c.opc == "call" and c.cname in COPY and m in self.obj(c.args[0])]
        if s is not None:
            calls = [c for c in calls if c.bb in s.blocks]
        if within is not None:
            calls = [c for c in calls if c.bb in within] or calls
        calls.sort(key=lambda c: sum(1 for d in calls if d is not c and sym.inst_dominates(self.dom, d, c)))
        for c in calls:
            if c.cname in ("sprintf", "snprintf"):
                k = 1 if c.cname == "sprintf" else 2
                fm = self.lit(c.args[k])
                if fm is None:
                    return None
                n = k + 1
                for part in re.findall(r"%s|[^%]+|%.", fm):
                    if part == "%s":
                        out.append(c.args[n])
                        n += 1
                    elif part.startswith("%"):
                        return None
                    else:
                        out.append(part)
            elif c.cname in ("strcpy", "strcat", "stpcpy"):
                out.append(c.args[1])
            else:
                return None
        return out

    def name(self, x):
        """a stable name for a piece of text"""
        if isinstance(x, str):
            return '"%s"' % x
        x = strip(x)
        if self.lit(x) is not None:
            return '"%s"' % x.s
        q = set()
        for y in self.roots(x):
            if y.kind == "inst" and y.opc == "call":
                q.add("call:" + (y.cname or "?"))
            elif y.kind == "inst" and y.opc == "load":
                q |= self.ap(y) or {"?"}
            elif y.kind == "inst" and y.opc == "gep":
                q |= {"&" + z for z in self.p.s.apath(y, 1)}
            elif y.kind == "arg":
                q.add("arg%d" % y.idx)
            elif y.kind in ("null", "zero"):
                continue
            elif self.lit(y) is not None:
                q.add('"%s"' % y.s)
            elif y.kind == "inst" and y.opc == "alloca":
                q.add("alloca")
            else:
                q.add("?")
        return "|".join(sorted(q))

    def flat(self, x, s=None, within=None, d=0):
        """names of the pieces of a string, expanding built-up buffers"""
        if isinstance(x, str):
            return ['"%s"' % x]
        rt = self.roots(x, s)
        if rt and d < 6:
            ct = [self.content(x, s, within) for x in rt]
            if all(c and c == ct[0] for c in ct):
                return [z for y in ct[0] for z in self.flat(y, s, None, d + 1)]
        return [self.name(x)]

    def leaves(self, s, h):
        """can the loop be left in this round (other than by ending the run)?"""
        body = self.loops[h]
        return [(a, b) for (a, b) in s.edges if a in body and b not in body and b.term.opc != "unreachable"]

    def result(self, s):
        """possible return values"""
        out = set()
        for b in s.blocks:
            if b.term.opc == "ret" and b.term.ops:
                x = s.get(b.term.ops[0])
                if x is None:
                    return None
                out |= x
        return frozenset(out)
