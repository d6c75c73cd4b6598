"""Prolog terms in Python: the same tagged tuples as in spec/Terms.tla, as (nested) lists, and their Prolog text."""
import re

MAXI = 1 << 30


def V(n): return ["v", n]
def A(s): return ["a", s]
def I(n): return ["i", n] if abs(n) < MAXI else ["I", str(n)]
def F(t): return ["f", t]
def S(f, *args): return ["s", f, list(args)]
NIL = A("[]")
def C(h, t): return ["s", ".", [h, t]]


def lst(xs, tail=NIL):
    r = tail
    for x in reversed(list(xs)):
        r = C(x, r)
    return r


def conj(gs):
    gs = list(gs)
    if not gs:
        return A("true")
    r = gs[-1]
    for g in reversed(gs[:-1]):
        r = S(",", g, r)
    return r


_plain = re.compile(r"[a-z][a-zA-Z0-9_]*\Z")


def qatom(s):
    if _plain.match(s) or s in ("[]", "!", "{}"):
        return s
    out = []
    for c in s:
        if c in "'\\":
            out.append("\\" + c)
        elif c == "\n":
            out.append("\\n")
        elif ord(c) < 32 or ord(c) >= 127:
            out.append("\\x%x\\" % ord(c))
        else:
            out.append(c)
    return "'" + "".join(out) + "'"


def text(t, names=None):
    """Canonical text: prefix notation, everything quoted; lists in list notation."""
    k = t[0]
    if k == "v":
        return names(t[1]) if names else "V%d" % t[1]
    if k == "a":
        return qatom(t[1])
    if k in "iI" or k == "f":
        return str(t[1])
    f, args = t[1], t[2]
    if f == "." and len(args) == 2:
        out, cur = [], t
        while cur[0] == "s" and cur[1] == "." and len(cur[2]) == 2:
            out.append(text(cur[2][0], names))
            cur = cur[2][1]
        return "[" + ",".join(out) + ("" if cur == NIL else "|" + text(cur, names)) + "]"
    return qatom(f) + "(" + ",".join(text(a, names) for a in args) + ")"


def nvars(t):
    """Largest variable number."""
    if t[0] == "v":
        return t[1]
    if t[0] == "s":
        return max([nvars(a) for a in t[2]] or [0])
    return 0


def vars_of(t, acc=None):
    acc = [] if acc is None else acc
    if t[0] == "v":
        if t[1] not in acc:
            acc.append(t[1])
    elif t[0] == "s":
        for a in t[2]:
            vars_of(a, acc)
    return acc


def subst(t, m):
    if t[0] == "v":
        return m.get(t[1], t)
    if t[0] == "s":
        return ["s", t[1], [subst(a, m) for a in t[2]]]
    return t


def canon(t, names=None):
    names = {} if names is None else names
    if t[0] == "v":
        return V(names.setdefault(t[1], len(names) + 1))
    if t[0] == "s":
        return ["s", t[1], [canon(a, names) for a in t[2]]]
    return t


class Clause:
    """h :- b, variables numbered 1..n."""
    def __init__(self, h, b=None):
        b = A("true") if b is None else b
        m = {v: V(i + 1) for i, v in enumerate(vars_of(S("x", h, b)))}
        self.h, self.b, self.n = subst(h, m), subst(b, m), len(m)

    def text(self, body=None):
        b = body if body is not None else self.b
        return (text(self.h) if b == A("true") else text(self.h) + " :- " + btext(b)) + "."

    def js(self):
        return dict(h=self.h, b=self.b, n=self.n, dcg=False)


class DcgClause(Clause):
    """h --> b; the head is the non-terminal, push a terminal list (push-back) or None."""
    def __init__(self, h, b, push=None):
        t = S("x", h, push if push is not None else NIL, b)
        m = {v: V(i + 1) for i, v in enumerate(vars_of(t))}
        nt = subst(h, m)
        self.nt, self.n = nt, len(m)
        self.rh = nt if push is None else S(",", nt, subst(push, m))
        self.b = subst(b, m)
        self.h = ["s", nt[1], (nt[2] if nt[0] == "s" else []) + [NIL, NIL]]      # the predicate the rule defines

    def text(self, body=None):
        return btext(self.rh) + " --> " + dtext(self.b) + "."

    def js(self):
        return dict(h=self.rh, b=self.b, n=self.n, dcg=True)


def dtext(b):
    """Text of a grammar body."""
    if b[0] == "s" and len(b[2]) == 2 and b[1] in (",", ";", "->", "*->", "|"):
        return "(" + dtext(b[2][0]) + " " + b[1] + " " + dtext(b[2][1]) + ")"
    if b[0] == "s" and b[1] == "\\+" and len(b[2]) == 1:
        return "\\+ (" + dtext(b[2][0]) + ")"
    if b[0] == "s" and b[1] == "{}" and len(b[2]) == 1:
        return "{" + btext(b[2][0]) + "}"
    if b[0] == "s" and b[1] == ".":
        cs, t = [], b
        while t[0] == "s" and t[1] == "." and t[2][0][0] == "i" and 97 <= t[2][0][1] <= 122:
            cs.append(chr(t[2][0][1]))
            t = t[2][1]
        if t == NIL:
            return '"' + "".join(cs) + '"'
    return text(b)


def btext(b):
    """Text of a body, control constructs as operators (all bracketed)."""
    if b[0] == "s" and len(b[2]) == 2 and b[1] in (",", ";", "->", "*->"):
        return "(" + btext(b[2][0]) + " " + b[1] + " " + btext(b[2][1]) + ")"
    if b[0] == "s" and b[1] == "\\+" and len(b[2]) == 1:
        return "\\+ (" + btext(b[2][0]) + ")"
    return text(b)
