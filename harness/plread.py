"""A reader for the Prolog texts of /verif/spec (the usual operators, no op/3): text -> terms of plterm."""
import re
from plterm import *

OPS_IN = {":-": (1200, 1199, 1199), "-->": (1200, 1199, 1199), "|": (1100, 1099, 1100), ";": (1100, 1099, 1100), "->": (1050, 1049, 1050),
          "*->": (1050, 1049, 1050), ",": (1000, 999, 1000), "^": (200, 199, 200), "**": (200, 199, 199)}
for o in ("=", "\\=", "==", "\\==", "@<", "@=<", "@>", "@>=", "=..", "is", "=:=", "=\\=", "<", "=<", ">", ">="):
    OPS_IN[o] = (700, 699, 699)
for o in ("+", "-", "/\\", "\\/"):
    OPS_IN[o] = (500, 500, 499)
for o in ("*", "/", "//", "rem", "mod", "div", "<<", ">>"):
    OPS_IN[o] = (400, 400, 399)
OPS_PRE = {":-": (1200, 1199), "\\+": (900, 900), "-": (200, 200), "+": (200, 200), "\\": (200, 200)}
TOK = re.compile(r"\s+|%[^\n]*|/\*.*?\*/|(?P<var>[A-Z_][A-Za-z0-9_]*)|(?P<name>[a-z$][A-Za-z0-9_$]*)|(?P<flt>\d+\.\d+(e[+-]?\d+)?)|0'(?P<chr>\\?.)|(?P<int>\d+)|"
                 r"'(?P<q>(?:[^'\\]|\\.|'')*)'|\"(?P<str>[^\"]*)\"|(?P<end>\.(?=\s|%|\Z))|(?P<punct>[(),|\[\]{}!;])|(?P<sym>[-+*/\\^<>=~:.?@#&$]+)", re.S)


def tokens(s):
    i, out = 0, []
    while i < len(s):
        m = TOK.match(s, i)
        assert m, s[i:i + 40]
        k = m.lastgroup
        if k:
            out.append((k, m.group(k), s[m.end():m.end() + 1] == "("))
        i = m.end()
    return out


class Reader:
    def __init__(self, s):
        self.t, self.i = tokens(s), 0
        self.vs = {}

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("eof", "", False)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def expect(self, v):
        k = self.next()
        assert k[1] == v, (k, v, self.t[max(0, self.i - 8):self.i])

    def args(self, close):
        out = [self.term(999)]
        while self.peek()[:2] == ("punct", ","):
            self.next()
            out.append(self.term(999))
        return out

    def primary(self, maxp):
        k, v, par = self.next()
        if k == "var":
            if v == "_":
                self.vs["_%d" % len(self.vs)] = len(self.vs) + 1
                return V(len(self.vs)), 0
            return V(self.vs.setdefault(v, len(self.vs) + 1)), 0
        if k == "int":
            return I(int(v)), 0
        if k == "flt":
            return F(v), 0
        if k == "chr":
            return I(ord({"\\n": "\n", "\\t": "\t", "\\\\": "\\", "\\'": "'"}.get(v, v))), 0
        if k == "str":
            return lst([I(ord(c)) for c in v]), 0
        if k == "punct" and v == "(":
            t = self.term(1200)
            self.expect(")")
            return t, 0
        if k == "punct" and v == "[":
            if self.peek()[1] == "]":
                self.next()
                return NIL, 0
            xs = self.args("]")
            tail = NIL
            if self.peek()[:2] == ("punct", "|"):
                self.next()
                tail = self.term(999)
            self.expect("]")
            return lst(xs, tail), 0
        if k == "punct" and v == "{":
            if self.peek()[1] == "}":
                self.next()
                return A("{}"), 0
            t = self.term(1200)
            self.expect("}")
            return S("{}", t), 0
        name = re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), v.replace("''", "'")) if k == "q" else v
        assert k in ("name", "q", "sym") or v in "!;", (k, v)
        if par:
            self.next()
            as_ = self.args(")")
            self.expect(")")
            return S(name, *as_), 0
        if k == "sym" and v == "-" and self.peek()[0] == "int":
            return I(-int(self.next()[1])), 0
        if k != "q" and v in OPS_PRE:
            nk = self.peek()
            if not (nk[0] in ("eof", "end") or nk[:2] in (("punct", ")"), ("punct", ","), ("punct", "]"), ("punct", "|"), ("punct", "}"))
                    or (nk[0] in ("sym", "name") and nk[1] in OPS_IN and not nk[2] and nk[1] not in OPS_PRE)):
                p, ap = OPS_PRE[v]
                return S(name, self.term(min(ap, 999 if maxp < p else ap))), min(p, maxp)
        return A(name), 0

    def term(self, maxp):
        l, lp = self.primary(maxp)
        while True:
            k, v, _ = self.peek()
            if k in ("sym", "name", "punct") and v in OPS_IN:
                p, la, ra = OPS_IN[v]
                if p <= maxp and lp <= la:
                    self.next()
                    r = self.term(ra)
                    l, lp = S(";" if v == "|" else v, l, r), p
                    continue
            return l


def read_terms(s):
    """Terms of a text, each with its own variables numbered from 1."""
    r, out = Reader(s), []
    while r.peek()[0] != "eof":
        r.vs = {}
        out.append(r.term(1200))
        assert r.next()[0] == "end", r.t[r.i - 3:r.i + 3]
    return out


def read_term(s):
    return read_terms(s + " .")[0]


def read_clauses(s):
    out = []
    for t in read_terms(s):
        out.append(Clause(*t[2]) if t[0] == "s" and t[1] == ":-" and len(t[2]) == 2 else Clause(t))
    return out
