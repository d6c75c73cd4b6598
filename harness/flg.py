"""Histories of flags, character conversions, reads, definitions and queries (spec/Flags.tla, spec/FlagsRun.tla)."""
import os, re, json, collections
import vlib, syn
from syn import A, N, S, L, text, js, obs, is_, seq, CODES, qatom

RW = {"char_conversion": ["on", "off"], "singleton_warning": ["on", "off"], "suspicious_warning": ["on", "off"], "multifile_warning": ["on", "off"],
      "show_banner": ["on", "off"], "show_information": ["silent", "normal", "informational"], "strict_iso": ["on", "off"], "debug": ["on", "off"],
      "double_quotes": ["codes", "chars", "atom", "codes_no_escape", "chars_no_escape", "atom_no_escape"],
      "back_quotes": ["codes", "chars", "atom", "codes_no_escape", "chars_no_escape", "atom_no_escape"],
      "unknown": ["error", "warning", "fail"], "syntax_error": ["error", "warning", "fail"], "os_error": ["error", "warning", "fail"]}
RO = ["prolog_name", "prolog_version", "dialect", "version", "version_data", "bounded", "max_integer", "min_integer", "integer_rounding_function", "max_arity",
      "max_atom", "max_unget", "home", "host", "arch", "address_bits", "unix", "c_cc", "c_cc_version_data", "argv"]
EFFECT = ["char_conversion", "double_quotes", "back_quotes", "unknown", "syntax_error", "os_error", "strict_iso"]
NAMES = ["fa", "fb", "fc", "qx", "xq", "kz"]
CONV = list("qxzkQZ#&@\xe9")


class Gen(syn.Gen):
    def __init__(self, r, w):
        syn.Gen.__init__(self, r, dict(op=1, dvar=False))
        self.fw, self.k = w, 0
        self.fv = {k: v for k, v in dict(char_conversion="off", strict_iso="on").items()}

    # -- flags
    def flagval(self):
        r = self.r
        x = r.random()
        f = r.choice(EFFECT) if x < .75 else r.choice(list(RW)) if x < .9 else r.choice(RO)
        if f in RW:
            v = r.choice(RW[f]) if r.random() < .9 else r.choice(["on", "true", "error", "codes", "silent", "", "ON"])
            v = A(v)
        else:
            v = r.choice([A("true"), A("gprolog"), N(3), A("on"), A("toward_zero"), S("gprolog", N(1), N(2), N(3), A("[]")), A("[]"), S("f", A("x"))])
        f = A(f)
        x = r.random()
        if x < .03:
            f = r.choice([("v", 1), N(3), S("unknown", A("x")), A("no_such_flag"), A(""), A("Unknown"), ("f", 1.5)])
        if r.random() < .05:
            v = r.choice([("v", 2), N(0), S("on", A("x")), A("nope"), ("f", 2.5), ("v", 1)])
        return f, v

    def note(self, f, v):
        if f[0] == "a" and v[0] == "a" and f[1] in RW and v[1] in RW[f[1]] and f[1] in self.fv:
            self.fv[f[1]] = v[1]

    def c_set(self):
        f, v = self.flagval()
        self.note(f, v)
        return self.cmd("g(set_prolog_flag(%s,%s))" % (text(f), text(v)), c="set", f=js(f), v=js(v))

    def pat(self):
        r = self.r
        f, v = self.flagval()
        x = r.random()
        if x < .4:
            v = ("v", 2)
        elif x < .55:
            f, v = ("v", 1), ("v", 2)
        elif x < .75:
            f = ("v", 1)
        if v == ("v", 1):
            v = ("v", 2)
        return f, v

    def c_get(self):
        f, v = self.pat()
        return self.cmd("q(current_prolog_flag(%s,%s),%s-%s)" % ((text(f), text(v)) * 2), c="get", f=js(f), v=js(v))

    def c_fscan(self):
        r = self.r
        f, v = ("v", 1), ("v", 2) if r.random() < .6 else A(r.choice(["on", "off", "error", "codes"]))
        ops = []
        for _ in range(r.randint(3, 30)):
            while True:
                a, b = self.flagval()
                if a[0] == "a" and b[0] != "v":
                    break
            ops.append((a, b))
            self.note(a, b)
        return self.cmd("scan(current_prolog_flag(%s,%s),%s-%s,[%s])" % (text(f), text(v), text(f), text(v), ",".join("set_prolog_flag(%s,%s)" % (text(a), text(b)) for a, b in ops)),
                        c="fscan", f=js(f), v=js(v), ops=[[js(a), js(b)] for a, b in ops])

    # -- conversions
    def pair(self, q=False):
        r = self.r
        def one():
            x = r.random()
            if x < (.4 if q else .03):
                return ("v", r.randint(1, 2) if not q else 0)
            if x < (.45 if q else .06):
                return r.choice([N(3), A("xx"), A(""), S("x", A("y")), ("f", 1.5)])
            return A(r.choice(CONV))
        a, b = one(), one()
        if q and b == ("v", 0):
            b = ("v", 9)
        if not q and a[0] == "v" and a == b:
            b = ("v", 3)
        if not q and r.random() < .2:
            b = a
        return a, b

    def c_conv(self):
        a, b = self.pair()
        return self.cmd("g(char_conversion(%s,%s))" % (text(a), text(b)), c="conv", a=js(a), b=js(b))

    def c_convq(self):
        a, b = self.pair(True)
        return self.cmd("q(current_char_conversion(%s,%s),%s-%s)" % ((text(a), text(b)) * 2), c="convq", a=js(a), b=js(b))

    def c_cscan(self):
        r = self.r
        a, b = ("v", 0), ("v", 9) if r.random() < .7 else A(r.choice(CONV))
        ops = []
        for _ in range(r.randint(2, 10)):
            ops.append((A(r.choice(CONV)), A(r.choice(CONV))))
        return self.cmd("scan(current_char_conversion(%s,%s),%s-%s,[%s])" % (text(a), text(b), text(a), text(b), ",".join("char_conversion(%s,%s)" % (text(x), text(y)) for x, y in ops)),
                        c="cscan", a=js(a), b=js(b), ops=[[js(x), js(y)] for x, y in ops])

    # -- reads
    def quoted(self):
        r = self.r
        q = r.choice("\"\"\"``'")
        out = ""
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            x = r.random()
            out += r.choice("abq xkz#Q1") if x < .6 else q * 2 if x < .7 else r.choice(["\\n", "\\\\", "\\x41\\", "\\101\\", "\\t", "\\a", "\\'", "\\\"", "\\`"]) if x < .9 else r.choice("\"'`") if x < .93 else r.choice(["\\q", "\\", "\t"]) if x < .95 else "\xe9"
        out = re.sub(r"(?<!%s)%s(?!%s)" % (q, q, q), q * 2, out)
        return q + out + q

    def ctext(self):
        """A clause that shows quoted items and convertible characters."""
        r = self.r
        def item(d):
            x = r.random()
            if x < .4:
                return self.quoted()
            if x < .6:
                return "".join(r.choice("qxzkabQ") for _ in range(r.randint(1, 3)))
            if x < .65:
                return r.choice(["1", "0'a", "0x1F", "23", "1.5"])
            if x < .7:
                return r.choice(["#", "&", "@", "#&", "&@#"])
            if d > 2:
                return "a"
            if x < .8:
                return "f(%s)" % ", ".join(item(d + 1) for _ in range(r.randint(1, 3)))
            if x < .9:
                return "[%s]" % ",".join(item(d + 1) for _ in range(r.randint(1, 3)))
            if x < .93:
                return "%s = %s" % (item(d + 1), item(d + 1))
            if x < .95:
                return "%s %s" % (item(d + 1), item(d + 1))
            return "-%s" % item(d + 1)
        return item(0) + " .\n"

    def c_read(self):
        r = self.r
        s = "".join(self.ctext() if r.random() < .85 else self.clause() for _ in range(r.randint(1, 4)))
        return self.rd("read", s, 6)

    def c_tok(self):
        return self.rd("tok", self.ctext(), 30)

    def c_iso(self):
        r = self.r
        syn_ = S("syntax_error", A(""))
        k = r.randrange(4)
        if k == 0:
            t, c = r.choice([("'a\\sb'", "a b"), ("'\\e'", "\x1b"), ("f('\\s\\e')", None)])
            off = A(c) if c is not None else S("f", A(" \x1b"))
            return self.cmd("rd1([%s])" % ",".join(map(str, CODES(t + " ."))), c="iso", on=js(syn_), off=js(off), src=t)
        if k == 1:
            l = r.choice([A("a"), L([A("a")], A("b")), N(3), L([A("a"), N(2)], N(1))])
            x = r.choice([("v", 1), ("v", 1), N(0), N(5)])
            return self.cmd("one(length(%s,%s),%s)" % (text(l), text(x), text(x)), c="iso", on=js(A("fail")), off=js(S("type_error", A("list"), l)), src="length")
        f, v = r.choice(["truncate", "round", "floor", "ceiling"]), r.choice([3, 0, -7])
        return self.cmd("one(call(V is %s(%d)),V)" % (f, v), c="iso", on=js(S("type_error", A("float"), N(v))), off=js(N(v)), src=f)

    def c_num(self):
        r = self.r
        v = r.choice([3, 0, 42, 123456])
        how = r.choice(["number_codes", "number_chars", "number_atom", "name", "name"])
        bad = r.random() < .6
        s = str(v) + (r.choice(["x", " ", "+", "3a", ".", "e5", "\\"]) if bad else "")
        if bad and r.random() < .3:
            s = r.choice(["foo", "", "-", "+ 1", "- -1", "1 2", "'a'"])
        codes = "[%s]" % ",".join(map(str, CODES(s)))
        g = {"number_codes": "number_codes(X,%s)" % codes, "number_chars": "number_chars(X,[%s])" % ",".join(qatom(c) for c in s), "number_atom": "number_atom(X,%s)" % qatom(s), "name": "name(X,%s)" % codes}[how]
        val = A(s) if bad else N(v)
        return self.cmd("one(%s,X)" % g, c="num", how=how, good=not bad, val=js(val), src=g)

    def c_os(self):
        r = self.r
        g = r.choice(["change_directory('/no_such_dir_x/y')", "delete_directory('/no_such_dir_x/y')", "make_directory('/no_such_dir_x/y')", "rename_file('/no_such_dir_x/y','/no_such_dir_x/z')",
                      "directory_files('/no_such_dir_x/y',_)", "file_permission('/no_such_dir_x/y',read)", "file_property('/no_such_dir_x/y',size(_))"][:5])
        return self.cmd("one(%s,1)" % g, c="os", src=g)

    # -- predicates
    def pred(self):
        r = self.r
        if r.random() < .12:
            return "fm", 1
        n = r.choice(NAMES)
        return n, r.choice([0, 1, 1, 2, 3])

    def head(self, n, a, v):
        return qatom(n) + ("(%s)" % ",".join([v] * a) if a else "")

    def c_db(self):
        op, n, a, v, g = self.dbop()
        return self.cmd("g(%s)" % g, c="db", op=op, p=[CODES(n), a], v=v, src=g)

    def dbop(self):
        r = self.r
        n, a = self.pred()
        v = r.randint(1, 3) if a else 1
        op = r.choice(["assertz", "assertz", "assertz", "asserta", "retract", "retract", "retractall", "abolish"])
        if n == "fm" and op in ("assertz", "asserta"):   # the multifile predicate comes from files only
            op = "retract"
        if op == "abolish":
            g = "abolish(%s/%d)" % (qatom(n), a)
        elif op == "retractall" and r.random() < .5:
            v, g = -1, "retractall(%s)" % (qatom(n) + ("(%s)" % ",".join(["_"] * a) if a else ""))
        else:
            g = "%s(%s)" % (op, self.head(n, a, str(v)))
        return op, n, a, v, g

    def c_load(self):
        r = self.r
        self.k += 1
        lines, ds, seen = [], [], set()
        conv = r.random() < .5
        for _ in range(r.randint(1, 3)):
            n, a = self.pred()
            if (n, a) in seen or (n[0] != "f" and (not conv or any(x[0][0] != "f" for x in seen))):
                continue
            seen.add((n, a))
            mf = n == "fm"
            dyn, pub = not mf and r.random() < .35, r.random() < .25
            cls = [r.randint(1, 3) if a else 1 for _ in range(r.randint(0 if dyn else 1, 3))]
            if r.random() < .3:
                lines.append("%% %s" % n)
            pi = "%s/%d" % (n, a)
            first = None
            for d in (["dynamic"] if dyn else []) + (["public"] if pub else []) + (["multifile"] if mf else []):
                lines.append(":- %s(%s)." % (d, pi))
                first = first or len(lines)
            line = None
            for v in cls:
                lines.append("%s." % self.head(n, a, str(v)))
                line = line or len(lines)
            ds.append(dict(n=CODES(n), a=a, dyn=dyn, pub=pub or dyn, mf=mf, line=line or first, cls=cls))
        if not ds:
            return self.c_db()
        return self.cmd("load(%d,[%s])" % (self.k, ",".join(map(str, CODES("\n".join(lines) + "\n")))), c="load", k=self.k, preds=ds, src="; ".join(lines))

    def c_call(self):
        r = self.r
        n, a = self.pred()
        x = "X" if a else "X"
        args = ["X"] + ["_"] * (a - 1) if a else []
        h = qatom(n) + ("(%s)" % ",".join(args) if a else "")
        pre = "" if a else "X = -1, "
        k = r.randrange(5)
        if k == 0:
            g = "q((%s%s),X)" % (pre, h)
        elif k == 1:
            g = "q((%scall(%s)),X)" % (pre, ",".join([qatom(n)] + args))
        elif k == 2:
            g = "body((%s%s),X)" % (pre, h)
        elif k == 3:
            g = "q(zz_c(%s,%d,X),X)" % (qatom(n), a)
        else:
            g = "q(catch((%sG = %s, G),no,true),X)" % (pre, h)
        return self.cmd(g, c="call", p=[CODES(n), a], src=g)

    def c_clause(self):
        n, a = self.pred()
        args = ["X"] + ["_"] * (a - 1) if a else []
        h = qatom(n) + ("(%s)" % ",".join(args) if a else "")
        return self.cmd("q((%sclause(%s,_)),X)" % ("" if a else "X = -1, ", h), c="clause", p=[CODES(n), a], src=h)

    def pi(self):
        r = self.r
        n, a = self.pred()
        if r.random() < .1:
            n, a = r.choice([("append", 3), ("write", 1), ("call", 2), (",", 2), ("fd_max", 2)])
        return (("v", 1) if r.random() < .4 else A(n)), (("v", 2) if r.random() < .4 else N(a))

    def c_cp(self):
        r = self.r
        n, a = self.pi()
        x = r.random()
        if x < .06:
            t = r.choice([A("foo"), N(3), S("-", A("a"), N(1)), S("/", A("a")), L([A("fa")])])
            return self.cmd("q(current_predicate(%s),x-0)" % text(t), c="cp", pi=js(t))
        if x < .14:
            if r.random() < .5:
                n = r.choice([N(3), S("f", A("x")), ("f", 1.5)])
            else:
                a = r.choice([A("x"), N(-1), N(256), N(100000), S("f", A("x"))])
        t = S("/", n, a)
        return self.cmd("q((PI = %s, current_predicate(PI), PI = N/A, pool(N,A)),N-A)" % text(t), c="cp", pi=js(t))

    def c_cpscan(self):
        r = self.r
        n, a = self.pi()
        if r.random() < .6:
            n, a = ("v", 1), ("v", 2)
        ops = [self.dbop() for _ in range(r.randint(2, 12))]
        t = S("/", n, a)
        return self.cmd("scan((PI = %s, current_predicate(PI), PI = N/A, pool(N,A)),N-A,[%s])" % (text(t), ",".join(o[4] for o in ops)),
                        c="cpscan", pi=js(t), ops=[dict(op=o[0], p=[CODES(o[1]), o[2]], v=o[3]) for o in ops])

    def c_pp(self):
        r = self.r
        x = r.random()
        n, a = self.pred()
        if r.random() < .1:
            n, a = r.choice([("append", 3), ("write", 1), ("call", 2), ("call", 1), (",", 2), ("fd_max", 2)])
        h = S(n, *[("v", 10 + i) for i in range(a)]) if a else A(n)
        if r.random() < .04:
            h = r.choice([N(3), ("f", 1.5)])
        elif r.random() < .06:
            h = ("v", 9)
        q = ("v", 8)
        if r.random() < .5:
            q = r.choice([A(x) for x in ["static", "dynamic", "private", "public", "monofile", "multifile", "user", "built_in", "built_in_fd", "control_construct", "native_code"]]
                         + [S("prolog_file", ("v", 8)), S("prolog_line", ("v", 8)), S("prolog_line", N(1)), S("prolog_line", N(2)), S("prolog_file", A("x"))])
        if r.random() < .05:
            q = r.choice([A("bad"), N(1), S("prolog_file", A("x"), A("y")), S("static", A("x")), A("")])
        return self.cmd("q((H = %s, pp(H,N,A,%s)),pr(N,A,%s))" % (text(h), text(q), text(q)), c="pp", h=js(h), q=js(q))

    def hist(self, n):
        r = self.r
        ks = list(self.fw)
        out = [self.cmd("q(current_prolog_flag(F,V),F-V)", c="learn"), self.cmd("load(0,[%s])" % ",".join(map(str, CODES(HELPER))), c="load", k=0, preds=[], src="helper")]
        return out + [getattr(self, "c_" + r.choices(ks, [self.fw[k] for k in ks])[0])() for _ in range(n)]


HELPER = "\n".join("zz_c(%s,%d,%s) :- %s." % (n, a, "X" if a else "-1", n + ("(%s)" % ",".join(["X"] + ["_"] * (a - 1)) if a else "")) for n, a in [("fm", 1)] + [(n, a) for n in NAMES for a in range(4)]) + "\n"
W = dict(set=5, get=1.5, fscan=.3, conv=2, convq=.6, cscan=.3, read=3.5, tok=.7, iso=.8, num=.8, os=.5, db=4, load=.7, call=3, clause=.5, cp=1.5, cpscan=.6, pp=2)


def hists(pid, r, n, length=30):
    return [Gen(r, W).hist(length) for _ in range(n)]


def event(ev, got, path):
    e = dict(ev)
    e.pop("src", None)
    by, warn = collections.defaultdict(list), collections.defaultdict(list)
    for g in got:
        by[g["k"]].append(g["v"])
        warn[g["k"]].append(g["w"])
    res = lambda x: obs(x) if x[0] == "a" else obs(x[2][0])
    def rows(l):
        out = []
        for x in seq(l):
            assert is_(x, "-", 2) or is_(x, "pr", 3)
            out.append(x[2])
        return out
    flagrow = lambda x: [x[0][1], obs(x[1])]
    convrow = lambda x: [x[0][1][0], x[1][1][0]]
    predrow = lambda x: [x[0][1], int(x[1][1])]
    c = e["c"]
    def answers(f):
        if by["sols"]:
            e.update(k="sols", rows=[f(x) for x in rows(by["sols"][0])], x=[])
        else:
            e.update(k="err", x=obs(by["err"][0]), rows=[])
    def scan(f, one):
        e["items"], k = [], 0
        for g in got:
            if g["k"] == "row":
                e["items"].append(dict(k="row", row=f(g["v"][2])))
            elif g["k"] == "res":
                e["items"].append(dict(one(e["ops"][k]), k="op", r=res(g["v"])))
                k += 1
        assert by["end"]
        del e["ops"]
    def one(x):
        if x[0] == "a":
            return dict(k="fail", t=[], v=[])
        if is_(x, "got", 1):
            return dict(k="got", t=obs(x[2][0]), v=[])
        return dict(k="err", v=obs(x[2][0]), t=[])
    if c in ("set", "conv", "db"):
        e["r"] = res(by["res"][0])
    elif c in ("get", "learn"):
        answers(flagrow)
    elif c == "fscan":
        scan(flagrow, lambda o: dict(f=o[0], v=o[1]))
    elif c == "convq":
        answers(convrow)
    elif c == "cscan":
        scan(convrow, lambda o: dict(a=o[0], b=o[1]))
    elif c in ("read", "tok"):
        e2 = syn.event(dict(e), [dict(g, v=["a", CODES("x")]) if g["v"][0] == "a" else g for g in got])
        e["res"] = [dict(k="fail", v=[]) if g["v"] == ["a", CODES("fail")] else x for g, x in zip(got, e2["res"])]
        e["warn"] = warn[c]
    elif c in ("iso", "num", "os"):
        e["res"], e["warn"] = one(by["one"][0]), warn["one"][0]
        if c == "iso":
            e["k"] = "read"
    elif c == "load":
        e["r"] = res(by["res"][0])
        f = CODES("%s.%d.pl" % (path, e.pop("k")))
        e["preds"] = [dict(p=[d["n"], d["a"]], e=dict(dyn=d["dyn"], pub=d["pub"], mf=d["mf"], file=f, line=d["line"], cls=d["cls"])) for d in e["preds"]]
    elif c in ("call", "clause"):
        if by["sols"]:
            e.update(k="sols", sols=[int(x[1]) for x in seq(by["sols"][0])], x=[], warn=warn["sols"][0])
        else:
            e.update(k="err", x=obs(by["err"][0]), sols=[], warn=warn["err"][0])
    elif c == "cp":
        answers(predrow)
    elif c == "cpscan":
        scan(lambda x: (lambda p: [p, p])(predrow(x)), lambda o: o)
    elif c == "pp":
        answers(lambda x: [[x[0][1], int(x[1][1])], obs(x[2])])
    return e


def one(exe, src, h, i):
    d = vlib.workdir()
    f = os.path.join(d, "h%d" % i)
    with open(f, "w") as fh:
        fh.write("[" + ",\n".join(c[0] for c in h) + "].\n")
    rc, out, err = vlib.run([exe], timeout=60, env=vlib.plenv(src, TESTFILE=f, TESTMODE="file" if i % 4 == 0 else "stream", GLOBALSZ="32768", TRAILSZ="16384", LOCALSZ="16384", CSTRSZ="16384"), cwd=d)
    for g in (f, f + ".txt"):
        if os.path.exists(g):
            os.unlink(g)
    got, done, bad, warn = collections.defaultdict(list), False, None, 0
    for ln in out.split(b"\n"):
        if ln.startswith((b"warning: unknown procedure", b"warning: syntax error", b"warning: OS error")):
            warn += 1
        try:
            o = json.loads(ln)
        except ValueError:
            continue
        if not isinstance(o, dict):
            continue
        if "done" in o:
            done = True
        elif "n" in o:
            o["w"] = warn
            warn = 0
            got[o["n"]].append(o)
    evs = []
    for k, c in enumerate(h):
        if not got[k + 1]:
            bad = "command %d gave no result (exit %s) %s" % (k + 1, rc, err.decode(errors="replace")[-300:])
            break
        try:
            evs.append(event(c[1], got[k + 1], f))
        except (IndexError, KeyError, ValueError, TypeError, AssertionError) as x:
            bad = "command %d: incomplete result (exit %s) %r" % (k + 1, rc, x)
            break
    if not bad and not done and len(evs) == len(h):
        bad = "the process did not end normally (exit %s) %s" % (rc, err.decode(errors="replace")[-300:])
    return evs, bad


def shown(e):
    """An event with its code lists as texts."""
    def f(x):
        if isinstance(x, list):
            if x and all(isinstance(y, int) and 9 <= y < 256 for y in x):
                return "".join(map(chr, x))
            return [f(y) for y in x]
        if isinstance(x, dict):
            return {k: f(v) for k, v in x.items()}
        return x
    return json.dumps(f(e))[:1500]
