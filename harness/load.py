"""Histories of loads of generated source files, for spec/LoadRun.tla (P20)."""
import collections, json, os, re, shutil
import syn, vlib

PREDS = ["p/1", "q/1", "r/1", "m/1"]
GENS = ["ga/1", "gb/1"]
OPS = {"===>": ("700", "xfx"), "~~~": ("200", "fy"), "isa": ("700", "xfx")}
TX = "term_expansion/2"
DUMP = ("dump(%s)" % ("[" + ",".join(PREDS + ["s/1"] + GENS) + "]"), dict(c="dump", src="dump"))


class Src:
    """A generated source file: its text and its items with their lines."""

    def __init__(self, g, path, main, size):
        self.g, self.r, self.path, self.main = g, g.r, path, main
        self.lines, self.items, self.depth = [], [], 0
        r = self.r
        if r.random() < .05:
            self.lines.append("#!/usr/bin/env gprolog")
        for _ in range(size):
            if r.random() < .08:
                self.lines.append(r.choice(["", "% comment.", "/* a comment. */"]))
            self.item()
        while self.depth > 0 and r.random() < .98:
            self.add(["endif"], dict(k="endif"), ":- endif.")
            self.depth -= 1

    def add(self, parts, it, text=None):
        """text: str or list of lines."""
        text = [text] if isinstance(text, str) else text
        join = self.lines and len(text) == 1 and self.items and it["k"] != "syn" and self.items[-1]["k"] != "syn" and self.items[-1]["l2"] == len(self.lines) and self.r.random() < .06 \
            and self.items[-1]["l1"] == self.items[-1]["l2"]
        if join:
            self.lines[-1] += " " + text[0]
            l1 = l2 = len(self.lines)
        else:
            l1 = len(self.lines) + 1
            self.lines += text
            l2 = len(self.lines)
        self.items.append(dict(it, l1=l1, l2=l2))

    def item(self):
        r, g = self.r, self.g
        x = r.random()
        if x < .50:
            self.clause()
        elif x < .60:
            self.decl()
        elif x < .70:
            self.cond()
        elif x < .79:
            it, text = g.init(self)
            self.add(None, it, text)
        elif x < .83:
            o, on = r.choice(list(OPS)), r.random() < .75
            self.add(None, dict(k="op", o=o, on=on), ":- op(%s, %s, %s)." % (OPS[o][0] if on else "0", OPS[o][1], r.choice([o, "[%s]" % o]) if o != "===>" else o))
        elif x < .86 and g.incs(self):
            f = r.choice(g.incs(self))
            if r.random() < .04:
                f = "none.pl"
            n = f[:-3] if r.random() < .5 else f
            if "/" in n or "." in n or r.random() < .3:
                n = "'%s'" % n
            self.add(None, dict(k="inc", f=f), ":- include(%s)." % n)
        elif x < .89:
            on = r.random() < .5
            self.add(None, dict(k="sw", on=on), ":- set_prolog_flag(singleton_warning, %s)." % ("on" if on else "off"))
        elif x < .92:
            k = r.randrange(len(g.rules))
            self.add(None, dict(k="cl", p=TX, id=k + 1, op="", sing=""), "term_expansion(%s(_), %s)." % (g.rules[k]["g"][:-2], g.rules[k]["text"]))
        elif x < .97:
            p, i = r.choice(GENS), g.id()
            self.add(None, dict(k="cl", p=p, id=i, op="", sing=""), "%s(%d)." % (p[:-2], i))
        elif x < .985:
            t = r.choice(["foo(1)", "p(1)", "true"])
            self.add(None, r.choice([dict(k="bad", text=t)]), ":- %s." % t) if r.random() < .7 else self.add(None, dict(k="loaded"), ":- ensure_loaded(q/1).")
        elif x < .99 and self.main:
            self.add(None, dict(k="syn"), r.choice(["p(1 q).", "p(1, .", ":- dynamic(p/1 q/1).", "p(1))."]))
        elif x < .995 and self.main:
            self.add(None, *r.choice([(dict(k="badpi", text="p"), ":- dynamic(p)."), (dict(k="badpi", text="p/a"), ":- discontiguous([q/1, p/a])."),
                                      (dict(k="redef", text="redefining built-in predicate append/3"), "append(1, 2, 3)."),
                                      (dict(k="redef", text="redefining control construct true/0"), "true.")]))

    def clause(self):
        r, g = self.r, self.g
        last = self.items[-1]["p"] if self.items and self.items[-1]["k"] == "cl" and self.items[-1]["p"] in PREDS else None
        p = last if last and r.random() < .55 else r.choice(PREDS)
        if p == "m/1" and r.random() < .8 and not any(i["k"] == "decl" and i["d"] == "multifile" and "m/1" in i["ps"] for i in self.items):
            self.add(None, dict(k="decl", d="multifile", ps=["m/1"]), ":- multifile(m/1).")
        i, op, sing = g.id(), "", ""
        a = str(i)
        x = r.random()
        if x < .1:
            have = [o for o in OPS if any(t["k"] == "op" and t["o"] == o and t["on"] for t in self.items)]
            op = r.choice(have or (list(OPS) if r.random() < .08 else [""]))
            if op:
                a = {"fy": "%s %d" % (op, i)}.get(OPS[op][1], "a %s %d" % (op, i))
        b = ""
        if r.random() < .2:
            sing = r.choice(["Aa", "Bb"])
            b = r.choice([":- var(%s)", ":- true, var(%s)"]) % sing
            if r.random() < .3:
                sing, b = r.choice([("Aa,Bb", ":- Aa = f(Bb)"), ("Bb,Aa", ":- var(Bb), var(Aa), _ = _Cc"), ("Aa,Bb", ":- (Aa = 1 -> true ; Bb = 2, Cc = Cc)")])
        elif r.random() < .1:
            b = r.choice([":- true", ":- var(_Aa)", ":- X = 1, integer(X)"])
        if b and not op and r.random() < .5:
            t = ["%s(%s) :-" % (p[:-2], a), "\t%s." % b[3:]]
        else:
            t = "%s(%s)%s." % (p[:-2], a, " " + b if b else "")
        self.add(None, dict(k="cl", p=p, id=i, op=op, sing=sing), t)

    def decl(self):
        r = self.r
        d = r.choice(["dynamic", "dynamic", "public", "multifile", "discontiguous", "discontiguous"])
        ps = [r.choice(PREDS + ["s/1"])]
        if r.random() < .3:
            ps.append(r.choice(PREDS))
        f = r.choice(["%s", "[%s]", "(%s)"]) % ", ".join(ps)
        t = ":- %s(%s)." % (d, f)
        if len(ps) == 2 and r.random() < .4:
            t = t.replace(", ", ",\n", 1).split("\n")
        self.add(None, dict(k="decl", d=d, ps=ps), t)

    def cond(self):
        r = self.r
        k = "if" if self.depth == 0 else r.choices(["if", "elif", "else", "endif"], [2, 2, 3, 4])[0]
        if r.random() < .006:
            k = r.choice(["elif", "else", "endif"])
        if k in ("if", "elif"):
            o = r.choice(list(OPS))
            gl, t = r.choice([(["true"], "true"), (["true"], "member(_, [a,b])"), (["fail"], "fail"), (["fail"], "1 = 2"), (["throw"], "throw(oops)"), (["op", o], "current_op(_, _, %s)" % o),
                              (["noop", o], "\\+ current_op(_, _, %s)" % o), (["sw"], "current_prolog_flag(singleton_warning, on)")])
            self.add(None, dict(k=k, g=gl), ":- %s(%s)." % (k, t if " " not in t or t[0] != "\\" else "(%s)" % t))
            self.depth += k == "if"
        else:
            self.add(None, dict(k=k), ":- %s." % k)
            self.depth -= k == "endif"


class Gen:
    def __init__(self, r):
        self.r, self.n = r, 0
        self.cwd = r.choice(["", "", "x/"])
        self.mains = ["m1.pl", "m2.pl", "sub/m3.pl"]
        self.inc = ["i1.pl", "sub/i2.pl", "sub/i3.pl"]
        self.cont = []
        self.rules = []
        for k in range(3):
            exp, ts = [], []
            for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
                x = r.random()
                if x < .7:
                    p, i = r.choice(PREDS + GENS), self.id()
                    exp.append(dict(k="cl", p=p, id=i, op="", sing=""))
                    ts.append("%s(%d)" % (p[:-2], i))
                elif x < .85:
                    i = self.id()
                    exp.append(dict(k="init", g=["mk", str(i)]))
                    ts.append("(:- initialization(zz_mk(%d)))" % i)
                else:
                    d, p = r.choice(["dynamic", "discontiguous", "multifile"]), r.choice(PREDS)
                    exp.append(dict(k="decl", d=d, ps=[p]))
                    ts.append("(:- %s(%s))" % (d, p))
            self.rules.append(dict(g=r.choice(GENS), exp=exp, text=ts[0] if len(ts) == 1 and r.random() < .5 else "[%s]" % ", ".join(ts)))

    def id(self):
        self.n += 1
        return self.n

    def incs(self, src):
        k = self.inc.index(src.path) + 1 if src.path in self.inc else 0
        out = []
        for f in self.inc[k:]:
            out.append(f)
            if f.startswith("sub/"):
                out.append(f[4:])   # found through the directory of an includer, or not at all
        if not src.path.startswith("sub/") and src.main:
            out = [f for f in out if f in self.inc] * 12 + out
        return out

    def init(self, src):
        r = self.r
        x = r.random()
        if x < .28:
            i = self.id()
            g, t = ["mk", str(i)], "zz_mk(%d)" % i
        elif x < .35:
            i, j = self.id(), self.id()
            k, e = r.choice([("mkt", "throw(oops)"), ("mkt", "throw(oops)"), ("mkf", "fail"), ("mkc", "!")])
            g, t = [k, str(i), str(j)], "(%s, %s)" % (r.choice(["(zz_mk(%d) ; zz_mk(%d))", "member(X, [%d,%d]), zz_mk(X)"]) % (i, j), e)
        elif x < .6:
            p = r.choice(PREDS)
            g, t = ["sn", p], "zz_sn(%s)" % p
        elif x < .68:
            g, t = ["fail"], "fail"
        elif x < .76:
            g, t = ["throw"], "throw(oops)"
        elif x < .9 or src.path not in self.mains:
            p, i = r.choice(PREDS + ["s/1"]), self.id()
            g, t = ["assert", p, i], "assertz(%s(%d))" % (p[:-2], i)
        else:
            fs = [f for f in self.mains[self.mains.index(src.path) + 1:]]
            if r.random() < .1:
                fs = ["none.pl"]
            if not fs:
                return self.init(src)
            fs = r.sample(fs, r.randint(1, len(fs)))
            nm = ["'%s'" % (("" if self.cwd == "" else "@ROOT@") + f) for f in fs]
            g, t = ["consult", fs], "consult(%s)" % (nm[0] if len(nm) == 1 and r.random() < .6 else "[%s]" % ",".join(nm))
        return dict(k="init", g=g), ":- initialization(%s)." % t

    def edit(self, path):
        s = Src(self, path, path in self.mains, self.r.choice([2, 4, 6, 9, 14]) if path in self.mains else self.r.choice([1, 2, 4, 6]))
        self.cont.append(dict(dir=path[:path.rfind("/") + 1], items=s.items))
        text = "\n".join(s.lines) + "\n"
        return ("edit", path, text), dict(c="edit", path=path, v=len(self.cont), src="edit %s:\n%s" % (path, text))

    def cmd(self, t, **kw):
        return t, dict(kw)

    def hist(self, n):
        r = self.r
        evs = [self.edit(p) for p in self.mains + self.inc]
        dump = DUMP
        for _ in range(n):
            x = r.random()
            if x < .5:
                fs = [r.choice(self.mains + (["none.pl"] if r.random() < .05 else []))]
                if r.random() < .2:
                    fs.append(r.choice(self.mains))
                how = "abs" if self.cwd or r.random() < .5 else r.choice(["rel", "list"])
                evs.append(("load(%s,[%s])" % (how, ",".join("'%s'" % f for f in fs)), dict(c="load", fs=fs, src="load %s %s" % (how, fs))))
                evs.append(dump)
            elif x < .75:
                evs.append(self.edit(r.choice(self.mains + self.inc)))
            elif x < .87:
                p, i = r.choice(PREDS + ["s/1"]), self.id()
                evs.append(("g(assertz(%s(%d)))" % (p[:-2], i), dict(c="assert", p=p, id=i, src="assertz(%s: %d)" % (p, i))))
            elif x < .92:
                p = r.choice(PREDS + GENS)
                evs.append(("g(abolish(%s))" % p, dict(c="abolish", p=p, src="abolish " + p)))
                evs.append(dump)
            elif x < .97:
                o, on = r.choice(list(OPS)), r.random() < .6
                evs.append(("g(op(%s,%s,'%s'))" % (OPS[o][0] if on else "0", OPS[o][1], o), dict(c="op", o=o, on=on, src="op %s %s" % (o, on))))
            else:
                on = r.random() < .6
                evs.append(("g(set_prolog_flag(singleton_warning,%s))" % ("on" if on else "off"), dict(c="sw", on=on, src="singleton_warning %s" % on)))
        return evs

    def native(self, evs):
        """A program of natively compiled files starts the history."""
        fs = self.r.sample(self.mains, self.r.choice([1, 2, 2, 3, 3]))
        k = len(self.mains) + len(self.inc)
        return evs[:k] + [("true", dict(c="native", fs=fs, src="native program of %s" % fs)), DUMP] + evs[k:]

    def whole(self, n):
        nat = self.r.random() < .3
        evs = self.hist(n)
        if nat:
            evs = self.native(evs)
        return dict(evs=evs, cont=self.cont, rules=[dict(g=x["g"], exp=x["exp"]) for x in self.rules], cwd=self.cwd)


def hists(pid, r, n, length=12):
    return [Gen(r).whole(length) for _ in range(n)]


def message(ln, strip):
    """A line of output as the five strings of the specification's messages; None for lines that say nothing."""
    ln = strip(ln)
    for rx, k, f in MSGS:
        m = re.fullmatch(rx, ln, re.S)
        if m:
            return f(m) if k is None else [k] + f(m)
    return ["other", ln, "", "", ""]


MSGS = [
    (r"(?:In file included|                ) from ([^:]*):(\d+)", "inc", lambda m: [m[1], m[2], "", ""]),
    (r"()()():?\d*-?\d*:? ?fatal error: (endif directive expected)", "fatal", lambda m: ["", "", "", m[4]]),
    (r"([^: ]*):(\d+)-?\d*: fatal error: (endif directive expected)", "fatal", lambda m: [m[1], "", "", m[3]]),
    (r"([^: ]*):(\d+)(?:-(\d+))?: (warning|fatal error): (.*)", None, lambda m: ["warn" if m[4] == "warning" else "fatal", m[1], m[2], m[3] or m[2], m[5]]),
    (r"([^: ]*):(\d+):(\d+): syntax error: .*", "syn", lambda m: [m[1], m[2], m[2], ""]),
    (r"warning: ([^: ]*):(\d+): redefining procedure (.*)", "redef", lambda m: [m[1], m[2], "", m[3]]),
    (r"         ([^: ]*):(\d+): previous definition", "prev", lambda m: [m[1], m[2], "", ""]),
    (r"warning: ([^: ]*):(\d+): (user|system) directive failed", "dfail", lambda m: [m[1], m[2], m[3], ""]),
    (r"warning: ([^: ]*):(\d+): (user|system) directive caused exception: (.*)", "dexc", lambda m: [m[1], m[2], m[3], m[4]]),
    (r"error: ([^: ]*):(\d+): native code procedure (\S+) cannot be redefined \(ignored\)", "native", lambda m: [m[1], m[2], "", m[3]]),
    (r"system_error\(cannot_catch_throw\((.*)\)\)", "uncaught", lambda m: ["", "", "", m[1]]),
    (r"compilation failed", "cfail", lambda m: ["", "", "", ""]),
    (r"\t(\d+) error\(s\)", "nerr", lambda m: [m[1], "", "", ""]),
    (r"@@ mk (\d+)", "mk", lambda m: [m[1], "", "", ""]),
    (r"@@ sn ([^|]*)\|(.*)", "sn", lambda m: [m[1], "", "", m[2]]),
]


def compile_native(d, root, h, fs, env, src):
    """Compile and link the files fs (as edited before) with the driver: (messages, outcome, program)."""
    for t, ev in h["evs"]:
        if ev["c"] == "native":
            break
        with open(root + t[1], "w") as fh:
            fh.write(t[2].replace("@ROOT@", root))
    strip = lambda s: s.replace(root, "")
    pre, objs = [], []
    for k, f in enumerate(fs):
        rc, out, err = vlib.run(["gplc", "-c", f, "-o", "o%d.o" % k], timeout=120, env=env, cwd=root)
        pre += [message(x, strip) for x in (out + err).decode("latin-1").split("\n") if x and x != "compilation failed"]
        if rc:
            return pre + [["cfail", "", "", "", ""]], "fail", None
        objs.append("o%d.o" % k)
    rc, out, err = vlib.run(["gplc", "--no-top-level", "-o", "prog", syn.driver_object(src, "loaddrv")] + objs, timeout=120, env=env, cwd=root)
    if rc:
        t = (out + err).decode("latin-1")
        return pre, "clash" if "multiple definition" in t else "link error: " + t[-400:], None
    return pre, "ok", root + "prog"


def one(exe, src, h, i):
    d = os.path.join(vlib.workdir(), "l%d" % i)
    os.makedirs(d + "/sub")
    os.makedirs(d + "/x")
    root = d + "/"
    def term(t):
        if isinstance(t, str):
            return t
        return "edit('%s',[%s])" % (t[1], ",".join(str(ord(c)) for c in t[2].replace("@ROOT@", root)))
    f = d + "/hist.txt"
    env = vlib.plenv(src, TESTFILE=f, TESTROOT=root, TESTCWD=root + h["cwd"], TMPDIR=d)
    strip = lambda s: s.replace(root, "")
    nat = next((k for k, c in enumerate(h["evs"]) if c[1]["c"] == "native"), None)
    cmds = list(h["evs"])
    if nat is not None:
        pre, link, nexe = compile_native(d, root, h, cmds[nat][1]["fs"], env, src)
        cmds[:nat + 1] = [("true", None)] * (nat + 1)
    with open(f, "w") as fh:
        fh.write("[" + ",\n".join(term(c[0]) for c in cmds) + "].\n")
    if nat is not None and link == "ok":
        rc, out, err = vlib.run(["sh", "-c", "exec %s 2>&1" % nexe], timeout=120, env=env, cwd=root + h["cwd"])
        m = re.search(r"Fatal Error: multifile predicate (\S+) not declared consistently\n    in  (.*)\n    and (.*)\n", out.decode("latin-1"))
        if m:
            link = ["inconsistent", strip(m[2]), strip(m[3]), m[1]]
        else:
            start, _, out = out.partition(b"@@ ev 1\n")
            out = b"@@ ev 1\n" + out
            pre += [message(x, strip) for x in start.decode("latin-1").split("\n") if x]
    if nat is None or link != "ok":
        rc, out, err = vlib.run([exe], timeout=120, env=env, cwd=d)
    shutil.rmtree(d, ignore_errors=True)
    groups, done = [], False
    for ln in out.decode("latin-1").split("\n"):
        if ln.startswith("@@ ev "):
            groups.append([])
        elif ln == "@@ done":
            done = True
        elif ln and groups:
            groups[-1].append(ln)
    bad = None if done else "the driver stopped (status %s) in event %d: %s" % (rc, len(groups), (out[-300:] + err[-300:]).decode("latin-1"))
    evs = []
    for (t, ev), g in zip(h["evs"], groups if done else groups[:-1]):
        e = dict(ev)
        e.pop("src", None)
        c = e["c"]
        rs = [strip(x[5:]) for x in g if x.startswith("@@ r ")]
        g = [x for x in g if not x.startswith("@@ r ")]
        if c == "load":
            e.update(r=rs[0] if rs else "", out=[message(x, strip) for x in g])
        elif c == "native":
            e.update(out=pre, r=link if isinstance(link, str) else link[0], inc=link[1:] if isinstance(link, list) else ["", "", ""])
        elif c in ("assert", "abolish"):
            e.update(r=rs[0] if rs else "")
        elif c == "dump":
            e["rows"] = []
            for x in g:
                m = re.fullmatch(r"@@ p (\S+) (\d) (\d) (\d) (\d) (\d+) ([^|]*)\|(.*)", x)
                e["rows"].append(dict(p=m[1], dyn=m[2] == "1", pub=m[3] == "1", mf=m[4] == "1", nat=m[5] == "1", line=m[6], file=strip(m[7]), ids=m[8]) if m else dict(p="other " + x, dyn=False, pub=False, mf=False, nat=False, line="", file="", ids=""))
        evs.append(e)
    return dict(events=evs, cont=h["cont"], rules=h["rules"], cwd=h["cwd"]), bad


def shown(e):
    return json.dumps({k: v for k, v in e.items() if k != "cont"})[:1500]
