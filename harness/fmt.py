"""Generated histories of format/2,3 calls; the specification's view of what harness/pl/fmtdrv.pl printed for them."""
import collections, json, os
from fractions import Fraction
import vlib
from plterm import *  # noqa


def number(x):
    if x[0] == "n":
        v = x[1]
        return ["n", 1 if v[0] == "-" else 0, [int(c) for c in v.lstrip("-")]]
    m, e = map(int, x[1].split())
    neg, m = (1, -m) if m < 0 else (0, m)
    if m == 0:
        return ["f", 0, [0], 0]
    if e >= 0:
        d, p = str(m << e), None
        p = len(d)
    else:                                   # m / 2^k = m 5^k / 10^k
        d = str(m * 5 ** -e)
        p = len(d) + e
    d = d.rstrip("0") or "0"
    return ["f", neg, [int(c) for c in d], p]


def term(x):
    if x[0] == "v":
        return ["v", x[1]]
    if x[0] == "a":
        return ["a", x[1]]
    if x[0] in "nf":
        return number(x)
    if x[0] == "l":
        t = term(x[2])
        el = [term(y) for y in x[1]]
        return ["l", el + t[1], t[2]] if t[0] == "l" else ["l", el, t]
    return ["s", x[1], [term(y) for y in x[2]]]


NIL = ["a", [91, 93]]


def formal(x):
    nm = "".join(map(chr, x[1]))
    a = x[2] if x[0] == "s" else []
    if len(a) == 2 and a[0][0] == "a":
        return [nm, "".join(map(chr, a[0][1])), term(a[1])]
    if len(a) == 1 and a[0][0] == "a":
        return [nm, "".join(map(chr, a[0][1])), ["v", 0]]
    return [nm, "" if not a else "?", ["v", 0]]


def codes(x):
    return [int(y[1]) for y in x[1]] if x[0] == "l" else []


def isf(x, f, n):
    return x[0] == "s" and x[1] == [ord(c) for c in f] and len(x[2]) == n


def events(h, got):
    evs = []
    for k, c in enumerate(h):
        g = got[k + 1]
        i = 0
        pre = list(c[1]["pre"])
        evs1 = []
        for op in c[1]["ops"]:
            if op is not None:
                evs1.append(dict(c="put", codes=op))
                continue
            kind, call, r = g[i][1], g[i][0], g[i + 1]
            assert g[i][0] == "call" and r[0] == "res"
            ctl, args, texts = g[i][1][2]
            args = term(args)
            el, tail = (args[1], args[2]) if args[0] == "l" else ([], args)
            tx = texts[1] if texts[0] == "l" else []
            recs = []
            for t, q in zip(el, tx):
                q = q[2]
                txt = lambda z: codes(z)
                o = q[4]
                recs.append(dict(t=t, w=txt(q[0]), q=txt(q[1]), k=txt(q[2]), p=txt(q[3]),
                                 o=dict(k="err", e=formal(o[2][0]), txt=[]) if isf(o, "err", 1) else dict(k="ok", e=["", "", ["v", 0]], txt=codes(o))))
            assert len(recs) == len(el)
            r = r[1]
            e = dict(c="fmt", ctl=term(ctl), args=recs, tail=tail, whole=args, r="ok" if r[0] == "a" and r[1] == [111, 107] else "fail" if r[0] == "a" else "err",
                     e=["", "", ["v", 0]])
            if e["r"] == "err":
                e["e"] = formal(r[2][0])
            evs1.append(e)
            i += 2
            if e["r"] != "ok":
                break
        if g[i][0] == "text":
            evs1.append(dict(c="text", codes=codes(g[i][1])))
        elif g[i][0] != "notext":
            raise ValueError
        evs += evs1
    return evs


def one(exe, src, h, i):
    d = vlib.workdir()
    f = os.path.join(d, "f%d" % i)
    with open(f, "w", encoding="latin-1") as fh:
        fh.write("[" + ",\n".join(c[0] for c in h) + "].\n")
    rc, out, err = vlib.run([exe], timeout=60, env=vlib.plenv(src, TESTFILE=f), cwd=d)
    for g in (f, f + ".txt"):
        if os.path.exists(g):
            os.unlink(g)
    got, done = collections.defaultdict(list), False
    for ln in out.split(b"\n"):
        try:
            o = json.loads(ln)
        except ValueError:
            continue
        if "done" in o:
            done = True
        else:
            got[o["n"]].append((o["k"], o["v"]))
    evs, bad = [], None
    try:
        evs = events(h, got)
    except (IndexError, KeyError, ValueError, TypeError, AssertionError):
        bad = "a call gave no result (exit %s) %s" % (rc, err.decode(errors="replace")[-200:])
    if not bad and not done:
        bad = "the process did not end normally (exit %s) %s" % (rc, err.decode(errors="replace")[-200:])
    return evs, bad


def shown(e):
    if e["c"] == "text":
        return "text %r" % "".join(map(chr, e["codes"]))
    return json.dumps({k: v for k, v in e.items() if k in ("r", "e")})


# -- generator ---------------------------------------------------------------------------------
def qs(codes_):
    """Text of a code list."""
    return "[" + ",".join(map(str, codes_)) + "]"


def qa(s):
    return "'" + "".join("\\x%x\\" % ord(c) if not 32 <= ord(c) < 127 else c + c if c == "'" else "\\\\" if c == "\\" else c for c in s) + "'"


class G:
    def __init__(self, r):
        self.r = r

    def integer(self):
        r = self.r
        return r.choice([0, 1, 7, 9, 10, 65, 97, 99, 100, 999, 1000, 12345, 123456, 999999, 1000000, 1234567, 2 ** 31, 2 ** 32 + 5, 10 ** 15, 2 ** 60 - 1, r.randrange(10 ** r.randint(1, 17))]) * r.choice([1, 1, 1, -1])

    def int_arg(self):
        r = self.r
        x = r.random()
        if x < .8:
            return str(self.integer())
        if x < .92:
            return "%d %s %d" % (r.randint(-999, 999), r.choice("+-*"), r.randint(0, 999))
        return r.choice(["_", "foo", "1.5", "f(1)", "1 + a", "[65]", "\"ab\"", "'3'", "- 7", "-(-(12))", "2 + _", "0.0"])

    def flt(self):
        r = self.r
        x = r.random()
        if x < .3:
            v = r.choice([0.5, 1.5, 2.5, 0.25, 0.125, 0.0625, 1.0, 10.0, 100.0, 9.5, 99.5, 0.1, 0.2, 0.3, 1e10, 1e20, 1e22, 1e-5, 1e-4, 9.9999995, 999999.5, 0.00001234, 123456789.0, 1e100, 5e-324, 1.7976931348623157e308])
        elif x < .6:
            v = r.randrange(1, 10 ** r.randint(1, 8)) / 2 ** r.randint(0, 12)
        elif x < .8:
            v = r.random() * 10 ** r.randint(-8, 12)
        else:
            v = round(r.random() * 10 ** r.randint(0, 4), r.randint(0, 5)) or 0.5
        v *= r.choice([1, 1, -1])
        s = repr(v)
        if "e" in s and "." not in s.split("e")[0]:
            s = s.replace("e", ".0e")
        return s

    def flt_arg(self):
        r = self.r
        x = r.random()
        if x < .7:
            return self.flt()
        if x < .92:
            return str(r.choice([0, 1, -1, 5, 10, 12345, 99999, 999999, 1000000, r.randrange(10 ** r.randint(1, 14))]))
        return r.choice(["_", "foo", "f(1)", "1 + 2", "'1.5'", "[1]", "[_]"])

    def word(self, n=None):
        r = self.r
        return "".join(r.choice("abcxyzABC_ .,-|019") for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13]) if n is None else n))

    def atom_arg(self):
        r = self.r
        return qa(self.word()) if r.random() < .9 else r.choice(["_", "1", "f(x)", "[a]", "[]", "1.5", "'a\\nb'"])

    def str_arg(self):
        r = self.r
        w = self.word()
        return r.choice([qa(w), "\"" + w + "\"", "[" + ",".join(qa(c) for c in w) + "]", "\"ab\\ncd\"", "[]", "''"]) if r.random() < .88 else \
            r.choice(["_", "1", "f(x)", "[a|_]", "[0'a,_]", "[a,_]", "[a,ab]", "[f(x)]", "[97|b]", "[1000]", "[a,97]", "[-1]", "[97,b]", "[a|b]"])

    def term_arg(self):
        r = self.r
        return r.choice(["a", "'A b'", "f(x,'Y')", "1+2", "- 1", "-(1)", "[a,'B'|c]", "\"abc\"", "'$VAR'(1)", "'$VAR'(30)", "pp(a)", "f(pp('X y'))", "{a,b}", "'\\n'", "nl", "f(nl)", "1.5", "-3", "a:-b,c", "[]", "{}", "- - a", "\\+ a", "1 - -1", "x===>y",
                         "f(A,B,A)", "'hello world'", "a=b", "(a,b)", "f((a,b))", "f(:-)", "'it''s'"])

    def n(self, small=True):
        r = self.r
        return r.choice([0, 1, 2, 3, 4, 5, 8, 10, 12, 16, 20, 36] + ([] if small else [40, 72, 100]))

    def param(self, args, v):
        """text of the parameter v of a directive"""
        r = self.r
        if v is None:
            return ""
        if r.random() < .12:
            args.append(str(v) if r.random() < .8 else "%d + %d" % (v - 1, 1))
            return "*"
        if v >= 33 and v < 127 and r.random() < .1:
            return "`" + chr(v)
        return ("0" if r.random() < .05 else "") + str(v)

    def directive(self, args):
        r = self.r
        x = r.random()
        if x < .09:
            return "~%s%s" % (self.param(args, r.choice([None, None, self.n(False)])), self.add(args, "a", self.atom_arg()))
        if x < .16:
            return "~" + self.param(args, r.choice([None, None, 0, 1, 2, 5])) + self.add(args, "c", r.choice(["0'a", "120", "32", "10", "65 + 1", "255", "0'\\n"]) if r.random() < .9 else r.choice(["_", "a", "256", "-1", "1.5", "x + 1", "1000000000000"]))
        if x < .27:
            return "~" + self.param(args, r.choice([None, None, 0, 1, 2, 3, 5, 6, 10, 17, 30])) + self.add(args, r.choice("efgEFG"), self.flt_arg())
        if x < .42:
            return "~" + self.param(args, r.choice([None, None, 0, 1, 2, 3, 4, 6, 9, 20])) + self.add(args, r.choice("dD"), self.int_arg())
        if x < .50:
            return "~" + self.param(args, r.choice([None, 2, 3, 7, 8, 10, 16, 35, 36, 1, 37, 0] if r.random() < .5 else [2, 8, 16, 36])) + self.add(args, r.choice("rR"), self.int_arg())
        if x < .57:
            return "~" + self.param(args, r.choice([None, None, 0, 1, 2, 4, 8])) + self.add(args, "s", self.str_arg())
        if x < .60:
            return self.add(args, "~i", self.term_arg() if r.random() < .9 else "_")
        if x < .76:
            return self.add(args, r.choice(["~w", "~w", "~q", "~p", "~k", "~5w"]), self.term_arg())
        if x < .78:
            args.append(self.term_arg())
            return self.add(args, "~W", r.choice(["[]", "[quoted(true)]", "[quoted(true),ignore_ops(true)]", "[numbervars(true)]", "[max_depth(2)]", "[foo]", "_", "[quoted(_)]", "foo", "[priority(500)]"]))
        if x < .80:
            return "~~"
        if x < .84:
            return "~" + self.param(args, r.choice([None, None, 0, 1, 2, 3])) + "n"
        if x < .87:
            return "~N"
        if x < .97:
            return self.printf(args)
        return r.choice(["~%%", "~z", "~", "~5", "~%", "~%5", "~%5.2z", "~%y", "~Q", "~ a", "~-5a", "~+5", "~99999999999999999999a", "~*", "~**c", "~`", "~`x", "~*d", "~é", "~0", "~2147483648x"])

    def add(self, args, d, a):
        args.append(a)
        return d

    def printf(self, args):
        r = self.r
        c = r.choice("ddiuoxXscefgEG")
        fl = ""
        for f, ok in (("-", 1), ("+", c in "diefgEG"), (" ", c in "diefgEG"), ("0", c in "diuoxXefgEG"), ("#", c in "oxX")):
            if ok and r.random() < .2:
                fl += f
        w = r.choice(["", "", str(self.n())]) if r.random() < .9 else "*"
        if w == "0":
            w = ""
        if w == "*":
            args.append(str(self.n()) if r.random() < .8 else r.choice(["-6", "_", "a"]))
        p = ""
        if c != "c" and r.random() < .4:
            p = "." + r.choice(["", "0", "1", "2", "3", "5", "12"]) if r.random() < .85 else ".*"
            if p == ".*":
                args.append(str(r.choice([0, 1, 3, 7, -2])))
        if c == "s":
            a = self.str_arg()
        elif c in "efgEG":
            a = self.flt_arg()
        elif c == "c":
            a = r.choice(["0'a", "65", "122", "_", "a"])
        elif c in "di":
            a = self.int_arg()
        else:
            a = str(abs(self.integer()))
        args.append(a)
        return "~%" + fl + w + p + c

    def column(self, args):
        """a group of columns"""
        r = self.r
        out = ""
        for _ in range(r.randint(1, 3)):
            k = r.randint(0, 3)
            for i in range(k + 1):
                if i < k or r.random() < .5:
                    if r.random() < .75:
                        out += "~" + self.param(args, r.choice([None, None, 42, 46, 48, 45, 120])) + "t"
                if r.random() < .8:
                    out += self.word(r.choice([0, 1, 2, 4, 7])) if r.random() < .5 else self.directive(args)
            if r.random() < .05:
                out += r.choice(["\n", "~n", "~N"])
            out += "~" + self.param(args, r.choice([None, self.n(False), self.n()])) + r.choice("||+")
        return out

    def control(self):
        """control text and arguments"""
        r = self.r
        args, out = [], ""
        m = r.choice([0, 1, 1, 2, 3, 4, 6])
        for _ in range(m):
            x = r.random()
            if x < .3:
                out += self.word(r.choice([1, 2, 5]))
            if x < .05:
                out += r.choice(["\n", "\\", "\t", "%", "%d", "é"])
            if r.random() < .4:
                out += self.column(args)
            else:
                out += self.directive(args)
        if r.random() < .3:
            out += self.word()
        if r.random() < .006:
            k = r.choice([1000, 1023, 1024, 1025, 1500, 3000])
            out = r.choice(["~t~%d|" % (k + 10), "a~t", "x~t~`yt"]) + "~" + str(k) + r.choice(["c", "a", "d", "s"]) + r.choice(["~t~w", "~w~t"]) + "~" + str(k + r.choice([-5, 0, 20, 400])) + "|" + r.choice(["", "z~t~w~10+"])
            args = [{"c": "0'b", "a": "abc", "d": "5", "s": "[0'q]"}[out.split(str(k))[-2][0] if False else [x for x in "cads" if "~%d%s" % (k, x) in out][0]], "w1", "w2"][:out.count("~w") + 1]
        return out, args

    def call(self):
        r = self.r
        ctl, args = self.control()
        if any(o in ctl for o in ("~*d", "~**c")) or ctl.count("*") > 2:      # an argument may get to a star it was not made for
            args = [a[:4] if a.lstrip("-").isdigit() and len(a) > 4 else a for a in args]
        x = r.random()
        if x < .04 and args:
            args.pop(len(args) - 1 if "*" in ctl else r.randrange(len(args)))
        elif x < .08:
            args.insert(len(args) if "*" in ctl else r.randint(0, len(args)), self.term_arg())
        tail = "" if r.random() < .97 else r.choice(["|_", "|foo"])
        if tail and not args:
            at = tail[1:]
        else:
            at = "[" + ", ".join("(%s)" % a if not a.startswith("[") else a for a in args) + tail + "]"
        y = r.random()
        if y < .5:
            ct = qa(ctl)
        elif y < .8:
            ct = qs([ord(c) for c in ctl])
        elif y < .985:
            ct = "[" + ",".join(qa(c) for c in ctl) + "]"
        else:
            ct = r.choice(["_", "5", "f(x)", "[a|_]", "[a,_]", "[97,foo]", "[a|b]", "[97,300]", "1.5"])
        return ctl, ct, at

    def history(self, n):
        r = self.r
        out = []
        for _ in range(n):
            x = r.random()
            if x < .25:
                ctl, ct, at = self.call()
                out.append(("run(to(%s), [f(s, %s, %s)])" % (r.choice(["codes", "chars", "atom"]), ct, at), dict(pre=[], ops=[None], src=[ctl, at])))
                continue
            ops, txt = [], []
            for _ in range(r.choice([1, 1, 2, 3, 4])):
                if r.random() < .4:
                    p = [ord(c) for c in self.word()] + r.choice([[], [], [10], [10, 32]])
                    ops.append(p)
                    txt.append("p(%s)" % qs(p))
                ctl, ct, at = self.call()
                ops.append(None)
                txt.append("f(%s, %s, %s)" % (r.choice("sc"), ct, at))
            sink = r.choice(["codes", "codes", "file([])", "file([buffering(none)])", "file([buffering(line)])"])
            out.append(("run(%s, [%s])" % (sink, ", ".join(txt)), dict(pre=[], ops=ops)))
        return out


def hists(name, r, n):
    """histories of one sink each"""
    g = G(r)
    return [g.history(1) for _ in range(n)]
