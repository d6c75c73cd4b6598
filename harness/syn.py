"""Histories of op/3, reads and writes (P10, P11): generator, runner on the real system, and decision by spec/SyntaxRun.tla."""
import json, os, re, collections, threading
import vlib
from plterm import qatom

CODES = lambda x: [ord(c) for c in x]
PRE = [(1200, "xfx", ":- -->"), (1200, "fx", ":- ?-"), (1105, "xfy", "|"), (1100, "xfy", ";"), (1050, "xfy", "-> *->"), (1000, "xfy", ","), (900, "fy", "\\+"),
       (700, "xfx", "= \\= == \\== @< @> @=< @>= =.. is =:= =\\= < =< > >="), (600, "xfy", ":"), (500, "yfx", "+ - /\\ \\/"),
       (400, "yfx", "* / // rem mod div << >>"), (200, "xfx", "**"), (200, "xfy", "^"), (200, "fy", "+ - \\"), (740, "xfy", "#==>"), (710, "fy", "#\\")]
KIND = dict(fx="pre", fy="pre", xf="post", yf="post", xfx="in", xfy="in", yfx="in")


# -- terms: ("v", k) ("a", str) ("n", int) ("f", float) ("s", name, [args])
def A(s): return ("a", s)
def N(n): return ("n", n)
def S(f, *a): return ("s", f, list(a))
def L(xs, tail=A("[]")):
    for x in reversed(xs):
        tail = S(".", x, tail)
    return tail


def ftext(x):
    t = repr(float(x))
    if "e" in t and "." not in t:
        t = t.replace("e", ".0e")
    return t if "." in t else t + ".0"


def text(t):
    """Text in functional notation, for the driver's command file."""
    k = t[0]
    if k == "v":
        return "V%d" % t[1]
    if k == "a":
        return qatom(t[1])
    if k == "n":
        return str(t[1])
    if k == "f":
        return ftext(t[1])
    return (qatom(t[1]) if t[1] != "." else "'.'") + "(" + ",".join(text(a) for a in t[2]) + ")"


def js(t):
    k = t[0]
    if k == "v":
        return ["v", [t[1]]]
    if k == "a":
        return ["a", CODES(t[1])]
    if k == "n":
        return ["n", 1 if t[1] < 0 else 0, CODES(str(abs(t[1])))]
    if k == "f":
        return ["f", 1 if t[1] < 0 else 0, CODES(repr(abs(t[1])))]
    return ["s", CODES(t[1]), [js(a) for a in t[2]]]


def canon(t, m):
    if t[0] == "v":
        return ("v", m.setdefault(t[1], len(m) + 1))
    if t[0] == "s":
        return ("s", t[1], [canon(a, m) for a in t[2]])
    return t


def obs(x):
    """A term as the driver dumped it, in the form of the specification."""
    k = x[0]
    if k == "v":
        return ["v", [x[1]]]
    if k == "n":
        return ["n", 1 if x[1][0] == "-" else 0, CODES(x[1].lstrip("-"))]
    if k == "f":
        m, e = x[1].split()
        v = float(int(m)) * 2.0 ** int(e) if int(e) > -1000 else float(int(m)) * 2.0 ** -500 * 2.0 ** (int(e) + 500)
        return ["f", 1 if v < 0 else 0, CODES(repr(abs(v)))]
    if k == "s":
        return ["s", x[1], [obs(a) for a in x[2]]]
    if k == "l":
        r = obs(x[2])
        for y in reversed(x[1]):
            r = ["s", [46], [obs(y), r]]
        return r
    return x


def depth(x):
    return 1 + max([depth(y) for y in x if isinstance(y, list)] or [0]) if isinstance(x, list) else 0


def is_(x, f, n):
    return x[0] == "s" and x[1] == CODES(f) and len(x[2]) == n


def seq(x):
    if x[0] == "l":
        return x[1]
    return []


_flo = re.compile(r"\d+\.\d+(?:[eE][+-]?\d+)?")


def floats(codes):
    s = "".join(map(chr, codes))
    out = {}
    for i, c in enumerate(s):
        if c.isdigit():
            m = _flo.match(s, i)
            if m:
                out[m.group(0).replace("E", "e")] = repr(float(m.group(0)))
    return [[CODES(k), CODES(v)] for k, v in out.items()]


# ---------------------------------------------------------------------------------------------
PLAIN = ["a", "b", "foo", "x1", "nil", "e", "x", "is", "mod", "dynamic", "aB_1"]
SYMB = ["+", "-", "*", "=", "\\+", ":-", "-->", "->", "<", "=..", "^", "**", "@", "&", "=>", "++", "--", "\\", "/", "//", "#", "~", ":", "?-", "$", "==", "#\\", ".", "..", "?"]
SOLO = ["!", ";", ",", "|", "[]", "{}"]
QUOT = ["", "a b", "A", "_x", "don't", "\\", "\n", "\t", "\a\b", "/*", "%", "'", "\"", "`", "1", "-1", "1a", "a.b", " ", "hello world", "[", "(", "{a}", "'\\'", "end_of_file", "a\\b", "\x7f", "\x01", "Ab", "[]a", "{}{}", ",,", "!!", "\\n", "0'a", "e1", "\x1b[0m", "$VAR", "\xe9", "\xff", "a\x80b", "x\xdfy"]
USER = ["@@", "=>", "foo", "bar", "++", "~~", "is", "mod", "&", "-", "+", "=", "!", ";", "\\", "$", "xx", "==>", "A b", "Op", "", "*", "e", "x", "b1", ":-", "|", "dynamic", "spy", "%%", "[a]"]
PRIOS = [0, 1, 100, 199, 200, 201, 400, 500, 599, 699, 700, 701, 900, 998, 999, 1000, 1001, 1100, 1199, 1200]


class Ops:
    """The generator's idea of the operator table (only used to choose inputs)."""
    def __init__(self):
        self.t = {}
        for p, ty, names in PRE:
            for n in names.split():
                self.t[(KIND[ty], n)] = (ty, p)

    def define(self, p, ty, n):
        k = KIND[ty]
        if n in (",", "[]", "{}") or (n == "|" and (k != "in" or 0 < p <= 1000)):
            return
        if (k == "post" and ("in", n) in self.t) or (k == "in" and ("post", n) in self.t):
            return
        if p:
            self.t[(k, n)] = (ty, p)
        else:
            self.t.pop((k, n), None)

    def names(self):
        return sorted({n for _, n in self.t})


class Gen:
    def __init__(self, r, w):
        self.r, self.w, self.ops = r, w, Ops()
        self.dq, self.bq = "codes", "atom_no_escape"

    def atom(self):
        r = self.r
        x = r.random()
        if x < .3:
            return r.choice(PLAIN)
        if x < .5:
            return r.choice(SYMB)
        if x < .58:
            return r.choice(SOLO)
        if x < .72:
            return r.choice(QUOT)
        if x < .76:
            return "".join(r.choice("+-*/\\^<>=~:.?@#&$ab A_1'\"`()[]{}|,;!% \n") for _ in range(r.randint(1, 4)))
        return r.choice(self.ops.names())

    def int(self):
        r = self.r
        return r.choice([0, 1, 2, -1, -2, 7, 42, -13, 255, 1000000, (1 << 60) - 1, -(1 << 60), r.randint(-99, 99), r.randint(-(1 << 59), 1 << 59)])

    def flt(self):
        r = self.r
        return r.choice([1.0, 0.5, -1.0, -2.5, 1e10, 1.5e-5, 3.0e22, 123.456, -1e-10, 2.0 ** 70, r.uniform(-10, 10), r.uniform(-1, 1) * 10 ** r.randint(-30, 30)])

    def term(self, d, nv=3):
        r = self.r
        x = r.random()
        if d <= 0 or x < .12:
            y = r.random()
            if y < .2:
                return ("v", r.randint(1, nv))
            if y < .65:
                return A(self.atom())
            if y < .92:
                return N(self.int())
            return ("f", self.flt())
        if x < .72:
            (k, n), _ = r.choice(sorted(self.ops.t.items())) if self.ops.t else (("in", "="), None)
            if r.random() < .5:      # operators this history has defined, mostly
                own = [kk for kk in sorted(self.ops.t) if kk[1] in USER]
                if own:
                    k, n = r.choice(own)
            if r.random() < .15:
                k, n = r.choice([("pre", "-"), ("in", "-"), ("pre", "+"), ("in", ","), ("in", ":-"), ("pre", "\\+")])
            return S(n, *[self.term(d - 1) for _ in range(2 if k == "in" else 1)])
        if x < .8:
            return L([self.term(d - 1) for _ in range(r.randint(1, 3))], A("[]") if r.random() < .75 else self.term(d - 1))
        if x < .85:
            return S("{}", self.term(d - 1))
        if x < .87 and self.w.get("dvar", True):
            return S("$VAR", N(r.choice([0, 1, 25, 26, 27, 100, 700, 1 << 31, (1 << 31) + 3, (1 << 32) + 1, (1 << 60) - 1])) if r.random() < .7 else self.term(0))
        return S(self.atom(), *[self.term(d - 1) for _ in range(r.choice([1, 1, 2, 2, 3]))])

    # -- source text of a term: a list of tokens; "\0(" is an opening bracket right after a name
    def aname(self, n):
        r = self.r
        if n in ("[]", "{}") and r.random() < .9:
            return [n[0], n[1]] if r.random() < .3 else [n]
        if re.fullmatch(r"[a-z][A-Za-z0-9_]*|[-+*/\\^<>=~:.?@#&$]+|[!;]", n) and r.random() < .95 and n != ".":
            return [n]
        if n == "," and r.random() < .3:
            return [","]
        q = "'"
        if self.bq == "atom" and r.random() < .1:
            q = "`"
        out = []
        for c in n:
            o = ord(c)
            if c == q:
                out.append(r.choice([c + c, "\\" + c]))
            elif c == "\\":
                out.append("\\\\")
            elif o == 10:
                out.append("\\n")
            elif o < 32 or o == 127 or r.random() < .03:
                out.append(r.choice(["\\x%x\\" % o, "\\%o\\" % o]))
            else:
                out.append(c)
            if r.random() < .02:
                out.append("\\\n")
        return [q + "".join(out) + q]

    def num(self, n):
        r = self.r
        if n[0] == "f":
            t = ftext(abs(n[1]))
            if r.random() < .2:
                t = t.replace("e", "E")
            return (["-"] if n[1] < 0 else []) + [t]
        v, x = abs(n[1]), r.random()
        t = str(v)
        if x < .06:
            t = "0x%x" % v if r.random() < .5 else "0x%X" % v
        elif x < .09:
            t = "0o%o" % v
        elif x < .12:
            t = "0b" + bin(v)[2:]
        elif x < .2 and 32 < v < 127:
            t = "0'" + {39: "''", 92: "\\\\"}.get(v, chr(v))
        elif x < .23 and 0 < v < 256:
            t = r.choice(["0'\\x%x\\", "0'\\%o\\"]) % v
        elif x < .25:
            t = "00" + t
        return (["-"] if n[1] < 0 else []) + [t]

    def toks(self, t, maxp):
        r, k = self.r, t[0]
        if r.random() < .04 and maxp != -1:
            return ["("] + self.toks(t, 1200) + [")"]
        if k == "v":
            return [["_", "X", "Y", "_Z1", "Foo", "Bar_2"][t[1] % 6]]
        if k in "nf":
            x = self.num(t)
            return ["".join(x)] if r.random() < .8 else x
        if k == "a":
            n = self.aname(t[1])
            isop = any((q, t[1]) in self.ops.t for q in ("pre", "in", "post"))
            return ["("] + n + [")"] if isop and maxp < 999 and r.random() < .85 else n
        f, a = t[1], t[2]
        if f == "." and len(a) == 2 and r.random() < .95:
            xs, cur = [], t
            while cur[0] == "s" and cur[1] == "." and len(cur[2]) == 2 and (not xs or r.random() < .97):
                xs.append(cur[2][0])
                cur = cur[2][1]
            if cur == A("[]") and all(x[0] == "n" and 32 <= x[1] < 127 for x in xs) and r.random() < .7:
                return ['"' + "".join({'"': '""', "\\": "\\\\"}.get(chr(x[1]), chr(x[1])) for x in xs) + '"']
            out = ["["]
            for i, x in enumerate(xs):
                out += ([","] if i else []) + self.toks(x, 999)
            return out + ([] if cur == A("[]") else ["|"] + self.toks(cur, 999)) + ["]"]
        if f == "{}" and len(a) == 1 and r.random() < .9:
            return ["{"] + self.toks(a[0], 1200) + ["}"]
        o = None
        for q in (("in",) if len(a) == 2 else ("pre", "post") if len(a) == 1 else ()):
            o = o or ((q, self.ops.t[(q, f)]) if (q, f) in self.ops.t else None)
        if o and r.random() < .9:
            q, (ty, p) = o
            lp, rp = (p if ty[0] == "y" else p - 1), (p if ty[-1] == "y" else p - 1)
            n = ["|"] if f == "|" else [","] if f == "," else self.aname(f)
            if q == "in":
                out = self.toks(a[0], lp) + n + self.toks(a[1], rp)
            elif q == "pre":
                out = n + self.toks(a[0], rp)
            else:
                out = self.toks(a[0], lp) + n
            if p > maxp and r.random() < .92:
                out = ["("] + out + [")"]
            return out
        return self.aname(f) + ["\0("] + [x for i, y in enumerate(a) for x in ([","] if i else []) + self.toks(y, 999)] + [")"]

    def layout(self):
        r = self.r
        return r.choice([" "] * 12 + ["  ", "\n", "\t", " /* c */ ", "/**/", " % c\n", " /* . a, */", "\n\n "])

    def join(self, ts, tight=.1):
        r, out = self.r, ""
        for t in filter(None, ts):
            if t[:1] == "\0":
                out += t[1:]
                continue
            if out:
                glue = (out[-1].isalnum() or out[-1] == "_") and (t[0].isalnum() or t[0] == "_") \
                    or out[-1] in "+-*/\\^<>=~:.?@#&$" and t[0] in "+-*/\\^<>=~:.?@#&$" or out[-1] in "'\"`" and t[0] == out[-1] \
                    or out[-1].isdigit() and t[0] in "'." or out[-1] != "(" and t == "("
                if glue:
                    out += "" if r.random() < tight * .3 else self.layout()
                elif r.random() < .25:
                    out += self.layout()
            out += t
        return out

    def opname(self, own=False):
        ns = self.ops.names()
        return "".join(self.aname(self.r.choice([n for n in ns if n in USER and n != "|"] or ["-"] if own else ns)))

    def mutate(self, ts):
        r = self.r
        ts = list(ts)
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            x, i = r.random(), r.randrange(len(ts) or 1)
            new = lambda: r.choice(["(", ")", "[", "]", "{", "}", ",", "|", "\0(", "-", "1", "a", "X", "1.5", "0"] + [self.opname() for _ in range(8)])
            if x < .3 and ts:
                del ts[i]
            elif x < .6:
                ts.insert(i, new())
            elif x < .8 and ts:
                ts[i] = new()
            elif len(ts) > 1:
                j = r.randrange(len(ts))
                ts[i], ts[j] = ts[j], ts[i]
        return ts

    def clause(self):
        """Source text of one clause."""
        r = self.r
        x = r.random()
        if x < .3:
            ops = [self.opname() for _ in range(3)] + [self.opname(True)] * 2
            al = ["a", "1", "X", "-", "(", ")", "a", "2.5", "\0(", ",", "[", "]", "{", "}", "|"] + ops * 3
            ts = [r.choice(al) for _ in range(r.randint(1, 8))]
        else:
            ts = self.toks(self.term(r.choice([1, 2, 2, 3])), 1200)
            if r.random() < .5:
                ts = self.mutate(ts)
        end = r.choice([".\n"] * 8 + [". ", ".%x\n", " .\n", "\n.\n"])
        s = self.join(ts)
        return (s + (" " if s and s[-1] in "+-*/\\^<>=~:.?@#&$" and r.random() < .9 else "")) + end

    LEX = ["a", "b1", "X", "_", "_a", "0", "1", "12", "0x1F", "0xg", "0o17", "0o8", "0b101", "0b2", "0'a", "0' ", "0'''", "0'\\n", "0'\\x41\\", "0'\\101\\", "1.5", "1.5e3", "1.0e", "1.0e+", "1.0E-2", "1e5", "2.a",
           "'abc'", "'a''b'", "'\\n'", "'\\x41\\b'", "'\\101\\'", "'\\q'", "'a\\\nb'", "\"st\"", "\"s\"\"t\"", "\"\\t\"", "`bq`", "`b``q`", "+", "=..", "\\", "/", "//", "!", ";", ",", "|", "(", ")", "[", "]", "{", "}",
           " ", " ", " ", "\n", "\t", "%c\n", "/* x */", "/*", "*/", ".", ". ", "..", "'", "\"", "`", "'\\x\\'", "'\\400\\'", "'\\x41'", "'a\nb'", "1152921504606846975", "1152921504606846976", "-", "- 1", "007", "\"\"", "''", "``", "\\\n", "'\\\n'", "0'", "0''", "0'\\\\", "0'\\'",
           "0.", "0.5", "00.50", "9.9.9", "1.e5", "a.b", "#", "a(", "a (", "X(", "-(", "[](", "{}(", "'a'(", "~", "@#&", "\x01", "\x7f", "0'\xe9", "\"\xe9\xff\"", "'\xe9'", "\xe9"]

    def lextext(self):
        return "".join(self.r.choice(self.LEX) for _ in range(self.r.randint(1, 7)))

    # -- commands: (text of the command for the driver, event for the specification)
    def c_op(self):
        r = self.r
        p = N(r.choice(PRIOS)) if r.random() < .93 else r.choice([("v", 1), A("a"), N(-1), N(1201), N(100000), ("f", 1.0), S("+", N(1), N(2))])
        ty = A(r.choice(sorted(KIND))) if r.random() < .94 else r.choice([("v", 2), A("zfx"), N(1), A("yfy"), A(""), S("xfx", A("a"))])
        x = r.random()
        one = lambda: A(r.choice(USER) if r.random() < .8 else self.atom())
        if x < .8:
            o = one()
        elif x < .94:
            o = L([one() for _ in range(r.randint(1, 3))])
        else:
            o = r.choice([("v", 3), N(1), L([one(), ("v", 3)]), L([one()], ("v", 3)), L([one(), N(3)]), S("f", A("a")), A("[]"), L([A("[]")]), A("{}"), A(","), A("|"), L([one(), A(",")]), L([one()], A("foo"))])
        if p[0] == "n" and 0 <= p[1] <= 1200 and ty[0] == "a" and ty[1] in KIND:
            for y in ([o] if o[0] == "a" else self.elems(o)):
                if y[0] == "a":
                    self.ops.define(p[1], ty[1], y[1])
        return self.cmd("op(%s,%s,%s)" % (text(p), text(ty), text(o)), c="op", p=js(p), ty=js(ty), o=js(o))

    def elems(self, t):
        out = []
        while t[0] == "s" and t[1] == "." and len(t[2]) == 2:
            out.append(t[2][0])
            t = t[2][1]
        return out

    def c_cop(self):
        r = self.r
        p = ("v", 1) if r.random() < .6 else r.choice([N(r.choice(PRIOS)), N(700), N(200), N(-1), A("a"), N(1201)])
        ty = ("v", 2) if r.random() < .6 else r.choice([A(r.choice(sorted(KIND))), A("xfx"), A("fy"), A("zz"), N(1)])
        o = ("v", 3) if r.random() < .4 else r.choice([A(r.choice(self.ops.names())), A("-"), A("foo"), A(self.atom()), N(1)])
        return self.cmd("cop(%s,%s,%s)" % (text(p), text(ty), text(o)), c="cop", p=js(p), ty=js(ty), o=js(o))

    def c_scan(self):
        """current_op/3 enumerates while its caller changes the table."""
        r = self.r
        p = ("v", 1) if r.random() < .8 else N(r.choice([200, 400, 500, 700, 1200]))
        ty = ("v", 2) if r.random() < .8 else A(r.choice(sorted(KIND)))
        o = ("v", 3) if r.random() < .5 else A(r.choice([n for k, n in self.ops.t if k == "pre"] + ["-", "+"]))
        ops = []
        for _ in range(r.randint(1, 12)):
            if r.random() < .6:
                k, n = r.choice([k for k in sorted(self.ops.t) if o[0] == "v" or k[1] == o[1]] or [("pre", "-")])
                x = (r.choice([0, 0, 0, 100, 700]), self.ops.t.get((k, n), ("fy", 1))[0], n)
            else:
                x = (r.choice([0, 200, 700, 1150]), r.choice(sorted(KIND)), r.choice(USER) if o[0] == "v" else o[1])
            if x[2] not in (",", "[]", "{}", "|"):
                ops.append(x)
                self.ops.define(*x)
        return self.cmd("scan(%s,%s,%s,[%s])" % (text(p), text(ty), text(o), ",".join("op(%d,%s,%s)" % (a, b, qatom(n)) for a, b, n in ops)),
                        c="scan", p=js(p), ty=js(ty), o=js(o), ops=[[js(N(a)), js(A(b)), js(A(n))] for a, b, n in ops])

    def c_flag(self):
        r = self.r
        v = r.choice(["codes", "chars", "atom", "codes", "codes_no_escape", "chars_no_escape", "atom_no_escape"])
        if r.random() < .6:
            self.dq = v
            return self.cmd("flag(double_quotes,%s)" % v, c="flag", f="dq", v=v)
        self.bq = v
        return self.cmd("flag(back_quotes,%s)" % v, c="flag", f="bq", v=v)

    def c_read(self):
        r = self.r
        if r.random() < .15:
            s = self.lextext() + r.choice([".\n", "", " .\n"])
            m = 1
        else:
            s, m = "".join(self.clause() for _ in range(r.randint(1, 4))), 6
            if r.random() < .2:
                s = s.rstrip("\n")
        return self.rd("read", s, m)

    def c_tok(self):
        return self.rd("tok", self.lextext() if self.r.random() < .8 else self.clause(), 40)

    def rd(self, c, s, m):
        if any(float(x) > 1e300 for x in _flo.findall(s)):   # overflowing floats are not modelled
            s = "a.\n"
        codes = CODES(s)
        return self.cmd("%s([%s],%d)" % (c, ",".join(map(str, codes)), m), c=c, codes=codes, fl=floats(codes), src=s)

    def c_wr(self):
        r = self.r
        kind = r.choice(["writeq"] * 4 + ["writeqs", "canon", "canon", "canons", "fmt", "opts", "opts", "pc", "pc"])
        t = self.term(r.choice([0, 1, 2, 2, 3, 4]))
        if kind == "pc":
            x = r.random()
            h = self.term(r.choice([0, 1]))
            while t[0] not in "as":
                t = self.term(1)
            while h[0] not in "as":
                h = self.term(0)
            t = t if x < .3 else S(":-", h, self.body(2)) if x < .8 else S("-->", h, self.body(2)) if x < .92 else S(":-", self.body(1))
        ign, nv, k = kind.startswith("canon"), kind in ("writeq", "writeqs", "fmt"), kind
        if kind == "opts":
            ign, nv = r.random() < .4, r.random() < .4
            o = ["quoted(true)"] + (["ignore_ops(true)"] if ign else ["ignore_ops(false)"] if r.random() < .3 else []) + (["numbervars(true)"] if nv else ["numbervars(false)"] if r.random() < .3 else []) \
                + (["space_args(%s)" % r.choice(["true", "false"])] if r.random() < .4 else []) + (["portrayed(%s)" % r.choice(["true", "false"])] if r.random() < .1 else [])
            r.shuffle(o)
            k = "opts([%s])" % ",".join(o)
        t = canon(t, {})
        return self.cmd("wr(%s,%s)" % (k, text(t)), c="wr", t=js(t), ign=ign, nv=nv, end="end" if kind == "pc" else "eof", src=k + " " + text(t))

    def body(self, d):
        r = self.r
        if d <= 0 or r.random() < .2:
            return A("true") if r.random() < .15 else self.term(r.choice([0, 1, 2]))
        return S(r.choice([",", ",", ";", "->", "*->", "\\+"][:5]), self.body(d - 1), self.body(d - 1)) if r.random() < .85 else S("\\+", self.body(d - 1))

    def cmd(self, pl, **ev):
        return pl, ev

    def hist(self, n):
        r = self.r
        ks = ["op", "cop", "scan", "flag", "read", "tok", "wr"]
        return [getattr(self, "c_" + r.choices(ks, [self.w.get(k, 0) for k in ks])[0])() for _ in range(n)]


WEIGHTS = {
    "P10": dict(op=3, cop=.2, flag=.3, read=.5, tok=.2, wr=7),
    "P11": dict(op=3, cop=1, scan=.4, flag=.3, read=6, tok=1.2, wr=.3, dvar=False),
}


def hists(pid, r, n, length=24):
    return [Gen(r, WEIGHTS[pid]).hist(length) for _ in range(n)]


# ---------------------------------------------------------------------------------------------
_drv = {}


def driver(src, name="syndrv"):
    if (src, name) not in _drv:
        d = vlib.workdir()
        out = os.path.join(d, name)
        e = vlib.gplc(src, [os.path.join(vlib.VERIF, "harness", "pl", name + ".pl")], out, opts=["--no-top-level"])
        if e:
            _drv[(src, name)] = (None, e)
        else:
            _drv[(src, name)] = (out, None)
    return _drv[(src, name)]


_objlock = threading.Lock()


def driver_object(src, name):
    """The driver as an object file, to be linked with other files."""
    with _objlock:
        if (src, name, "o") not in _drv:
            out = os.path.join(vlib.workdir(), name + ".o")
            e = vlib.gplc(src, [os.path.join(vlib.VERIF, "harness", "pl", name + ".pl")], out, opts=["-c"])
            if e:
                raise vlib.CheckError("the driver does not compile: " + e[-500:])
            _drv[(src, name, "o")] = out
        return _drv[(src, name, "o")]


def event(ev, got):
    """The specification's view of one command and what it printed."""
    e = dict(ev)
    e.pop("src", None)
    by = collections.defaultdict(list)
    for g in got:
        by[g["k"]].append(g["v"])
    def res(x):
        if x[0] == "a":
            return dict(k="x", v=[])
        if is_(x, "err", 1):
            return dict(k="err", v=obs(x[2][0]))
        if is_(x, "got", 1):
            return dict(k="got", t=obs(x[2][0]))
        if is_(x, "got", 4):
            t, vs, vn, sn = x[2]
            num = lambda v: v[1] if v[0] == "v" else -1
            pairs = lambda l: [[p[2][0][1], num(p[2][1])] if is_(p, "=", 2) else [[], -1] for p in seq(l)]
            return dict(k="got", t=obs(t), vs=[num(v) for v in seq(vs)], vn=pairs(vn), sn=pairs(sn))
        return dict(k="x", v=[])
    rows = lambda l: [[int(x[2][0][1]), x[2][1][1], x[2][2][1]] for x in seq(l)]
    c = e["c"]
    if c == "op":
        e["r"] = obs(by["res"][0]) if by["res"][0][0] == "a" else obs(by["res"][0][2][0])
        e["tab"] = rows(by["table"][0])
    elif c == "scan":
        e["items"], k = [], 0
        for g in got:
            if g["k"] == "row":
                e["items"].append(dict(k="row", row=rows(["l", [g["v"]]])[0]))
            elif g["k"] == "res":
                x = e["ops"][k]
                k += 1
                e["items"].append(dict(k="op", p=x[0], ty=x[1], o=x[2], r=obs(g["v"]) if g["v"][0] == "a" else obs(g["v"][2][0])))
        del e["ops"]
        e["tab"] = rows(by["table"][0])
    elif c == "cop":
        if by["sols"]:
            e.update(k="sols", rows=rows(by["sols"][0]))
        else:
            e.update(k="err", v=obs(by["err"][0]), rows=[])
    elif c in ("read", "tok"):
        e["res"] = [res(x) for x in by[c]]
    elif c == "wr":
        if by["bad"]:
            e.update(r="failed", codes=[], fl=[], back=dict(k="x", v=[]))
        else:
            codes = [int(x[1]) for x in seq(by["text"][0])]
            e.update(r="ok", codes=codes, fl=floats(codes), back=res(by["back"][0]))
    return e


def run_one(exe, src, h, i):
    d = vlib.workdir()
    f = os.path.join(d, "h%d" % i)
    with open(f, "w") as fh:
        fh.write("[" + ",\n".join(c[0] for c in h) + "].\n")
    rc, out, err = vlib.run([exe], timeout=60, env=vlib.plenv(src, TESTFILE=f, TESTMODE="file" if i % 4 == 0 else "stream", GLOBALSZ="32768", TRAILSZ="16384", LOCALSZ="16384", CSTRSZ="16384"), cwd=d)
    for g in (f, f + ".txt"):
        if os.path.exists(g):
            os.unlink(g)
    got, done, bad = collections.defaultdict(list), False, None
    for ln in out.split(b"\n"):
        try:
            o = json.loads(ln)
        except ValueError:
            continue
        if "done" in o:
            done = True
        elif "n" in o:
            got[o["n"]].append(o)
    evs = []
    for k, c in enumerate(h):
        if not got[k + 1]:
            bad = "command %d gave no result (exit %s) %s" % (k + 1, rc, err.decode(errors="replace")[-300:])
            break
        try:
            e = event(c[1], got[k + 1])
            if depth(e) > 200:
                break
            evs.append(e)
        except (IndexError, KeyError, ValueError, TypeError):
            bad = "command %d: incomplete result (exit %s)" % (k + 1, rc)
            break
    if not bad and not done and len(evs) == len(h):
        bad = "the process did not end normally (exit %s) %s" % (rc, err.decode(errors="replace")[-300:])
    return evs, bad


def conform(check, hs, label="", src=None, module="SyntaxRun", drv="syndrv", timeout=700, one=run_one, show=None):
    src = src or vlib.build()
    exe, e = driver(src, drv)
    if e:
        check.violation(label + "/driver", "the driver does not compile: " + e[-500:], e)
        return
    outs = vlib.pmap(lambda x: one(exe, src, x[1], x[0]), list(enumerate(hs)))
    f = os.path.join(vlib.workdir(), "syn-%s.json" % label)
    with open(f, "w") as fh:
        json.dump([x if isinstance(x, dict) else dict(events=x) for x, _ in outs], fh)
    outs = [(x["events"] if isinstance(x, dict) else x, b) for x, b in outs]
    hs = [h["evs"] if isinstance(h, dict) else h for h in hs]
    src_of = lambda c: c[1].get("src") or str(c[0])
    r = vlib.tlc(module, env=dict(TESTS=f), timeout=timeout, heap="12g")
    check.add_tlc(r)
    os.unlink(f)
    res = vlib.tlc_strings(r.out, "OUT")
    if len(res) != len(hs):
        raise vlib.CheckError("%d of %d histories decided" % (len(res), len(hs)))
    for i, (evs, bad) in enumerate(outs):
        o = res[i + 1]
        check.count("events_decided", o["i"] - 1)
        check.count("items_decided", o["n"])
        check.count("left_open", o["open"])
        what = None
        if o["bad"]:
            cmd = hs[i][min(o["i"], len(hs[i])) - 1]
            what = "%s at event %d: %s\n  observed: %s\n  allowed: %s" % (o["bad"], o["i"], src_of(cmd),
                                                                         (show or shown)(evs[o["i"] - 1]), decode(o["want"])[:800])
        elif bad:
            what = bad + "\n  " + str(hs[i][min(len(evs), len(hs[i]) - 1)][0])[:600]
        if what:
            check.violation("%s%d" % (label, i), what, dict(history=[c[0] for c in hs[i]], sources=[c[1].get("src") for c in hs[i]]))
        else:
            check.count("traces_validated_against_impl")
            check.sample(dict(history=[src_of(c)[:200] if isinstance(c[0], tuple) else c[0][:200] for c in hs[i][:6]]), 3)


def st(x):
    """Readable form of a term of the specification."""
    if x[0] == "v":
        return "_%s" % (x[1],)
    if x[0] == "a":
        return repr("".join(map(chr, x[1])))
    if x[0] == "n" or x[0] == "f":
        return ("-" if x[1] else "") + "".join(map(chr, x[2]))
    return repr("".join(map(chr, x[1]))) + "(" + ",".join(st(a) for a in x[2]) + ")"


def shown(e):
    def f(x):
        return {k: (st(v) if k in ("t", "v") and isinstance(v, list) and v else v) for k, v in x.items()}
    if e["c"] == "wr":
        return "text %r back %s" % ("".join(map(chr, e["codes"])), f(e["back"]))
    if e["c"] in ("read", "tok"):
        return str([f(x) for x in e["res"]])[:1500]
    if e["c"] == "op":
        return st(e["r"])
    return str(e)[:600]


def decode(s):
    return re.sub(r"<<(\d+(?:, \d+)*)>>", lambda m: '"' + "".join(chr(int(x)) if 32 <= int(x) < 127 else "\\x%x" % int(x) for x in m.group(1).split(", ")) + '"', s)
