"""Histories of stream operations (P14): generator, runner on the real system, and decision by spec/StreamRun.tla."""
import json, os, re, shutil, collections
import vlib
from plterm import qatom

FILES = ["f1", "f2", "f3", "f4"]


# ---------------------------------------------------------------------------------------------
# terms as the driver dumped them -> terms of the specification
def name(c):
    return "".join(map(chr, c))


def enc(x, txt=False):
    k = x[0]
    if k == "v":
        return ["v"]
    if txt and k in ("a", "l"):
        t = text(x)
        if t is not None:
            return ["txt", t]
    if k == "a":
        return ["c", x[1][0]] if len(x[1]) == 1 else ["a", name(x[1])]
    if k == "n":
        return ["i", int(x[1])]
    if k == "f":
        return ["x", "float"]
    if k == "l":
        t = x[2]
        return ["l", [enc(y) for y in x[1]], "nil" if t == ["a", [91, 93]] else "var" if t[0] == "v" else "other"]
    f, n = name(x[1]), len(x[2])
    if f == "$stream" and n == 1 and x[2][0][0] == "n":
        return ["st", int(x[2][0][1])]
    if f == "$stream_position" and n == 4 and all(y[0] == "n" for y in x[2]):
        return ["p"] + [int(y[1]) for y in x[2]]
    if n == 1:
        return ["o", f, enc(x[2][0])]
    return ["x", "%s/%d" % (f, n)]


def lst(x):
    """An empty list is the atom []: options lists want the list form."""
    return ["l", [], "nil"] if x == ["a", "[]"] else x


def text(x):
    if x[0] == "a":
        return x[1] if x[1] != [91, 93] else []
    if x[2] != ["a", [91, 93]]:
        return None
    out = []
    for y in x[1]:
        if y[0] == "a" and len(y[1]) == 1:
            out.append(y[1][0])
        elif y[0] == "n" and 0 <= int(y[1]) < 256:
            out.append(int(y[1]))
        else:
            return None
    return out


def err(x, p, a):
    """error term -> form of the specification"""
    if x[0] == "a":
        return ["inst"] if name(x[1]) == "instantiation_error" else ["x", name(x[1])]
    if x[0] != "s":
        return ["x", "?"]
    f, n, as_ = name(x[1]), len(x[2]), x[2]
    at = lambda y: name(y[1]) if y[0] == "a" else "?"
    e = lambda y: fixl(enc(y), p)
    if (f, n) == ("type_error", 2):
        return ["type", at(as_[0]), e(as_[1])]
    if (f, n) == ("domain_error", 2):
        return ["dom", at(as_[0]), e(as_[1])]
    if (f, n) == ("existence_error", 2):
        return ["ex", at(as_[0]), e(as_[1])]
    if (f, n) == ("permission_error", 3):
        return ["perm", at(as_[0]), at(as_[1]), e(as_[2])]
    if (f, n) == ("representation_error", 1):
        return ["rep", at(as_[0])]
    if (f, n) == ("uninstantiation_error", 1):
        return ["uninst", e(as_[0])]
    if (f, n) == ("system_error", 1):
        return ["sys"]
    return ["x", f]


def fixl(x, p):
    return x


OUTTXT = {"close_output_%s_stream" % k: 1 for k in ("atom", "chars", "codes")}
INTXT = {"open_input_%s_stream" % k: 0 for k in ("atom", "chars", "codes")}


def call(x):
    """A dumped goal -> (predicate, arguments)"""
    if x[0] == "a":
        return name(x[1]), []
    p = name(x[1])
    ti = OUTTXT.get(p, INTXT.get(p, len(x[2]) - 1 if p == "write" else -1))
    a = [enc(y, i == ti) for i, y in enumerate(x[2])]
    if (p == "open" and len(a) == 4) or (p == "close" and len(a) == 2):
        a[-1] = lst(a[-1])
    return p, a


NEW = {"open": 2, "see": None, "tell": None, "append": None}


def do_event(cx, rx):
    p, a = call(cx)
    e = dict(p=p, a=a, k="fail", o=[], e=["none"], got=-1)
    if rx[0] == "s" and name(rx[1]) == "ok":
        e["k"], e["o"] = "ok", call(rx[2][0])[1]
    elif rx[0] == "s" and name(rx[1]) == "err":
        e["k"], e["e"] = "err", err(rx[2][0], p, a)
    if e["k"] == "ok":
        if p == "open" and e["o"][2][0] == "st":
            e["got"] = e["o"][2][1]
        elif p.startswith("open_") and e["o"][-1][0] == "st":
            e["got"] = e["o"][-1][1]
    return e


# ---------------------------------------------------------------------------------------------
class H:
    """What the generator believes about a handle."""
    def __init__(self, k, md, kind, f, tx, **kw):
        self.k, self.md, self.kind, self.f, self.tx = k, md, kind, f, tx
        self.rp, self.open, self.pb, self.mir, self.al = kw.get("rp", True), True, 0, set(), set()
        self.ea = kw.get("ea", "eof_code")


class Gen:
    def __init__(self, r):
        self.r = r
        self.hs, self.np, self.nv = [], 0, 1000
        self.std = [H("user_input", "read", "std", "", True, ea="reset"), H("user_output", "append", "std", "", True), H("user_error", "append", "std", "", True)]
        self.cur = dict(i=self.std[0], o=self.std[1])
        self.al = {}
        self.files = {}
        for f in FILES[:r.randint(2, 4)]:
            self.files[f] = self.content()
        self.stdin = self.content()
        self.dec = {}
        self.out = []

    def content(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 8, 12, 20])
        return [r.choice([97, 98, 99, 10, 10, 32, 46, 255, 200, 120, 13, 9]) for _ in range(n)]

    def data(self):
        return [self.r.choice([97, 98, 10, 32, 200, 255, 65]) for _ in range(self.r.choice([0, 1, 2, 3, 6, 10]))]

    def ref(self, h):
        """A stream or alias argument for h."""
        r = self.r
        if h.kind == "std":
            return h.k
        if h.al and r.random() < .3:
            return r.choice(sorted(h.al))
        return h.k if h.kind == "std" else "'$h'(%d)" % h.k

    def pick(self, md=None, kind=None, live=.93):
        r = self.r
        c = [h for h in self.hs if h.open and (md is None or (h.md == "read") == (md == "i")) and (kind is None or h.kind in kind)]
        dead = [h for h in self.hs if not h.open]
        if r.random() > live and dead:
            return r.choice(dead)
        if c and r.random() < .9:
            return r.choice(c)
        s = [h for h in self.std if md is None or (h.md == "read") == (md == "i")]
        return r.choice(s)

    def wrong(self):
        return self.r.choice(["_", "foo", "1", "f(x)", "'$stream'(99)", "'$stream'(_)", "no_such_alias", "[]"])

    def emit(self, g, sv="none"):
        self.out.append(("do(%s, %s)" % (sv, g), dict(c="do")))

    def hold(self, h):
        return h.k if h.kind == "std" else "'$h'(%d)" % h.k

    # -- reading -----------------------------------------------------------------------------
    def outarg(self, k, peek=False):
        r = self.r
        if r.random() < .85:
            return "_"
        good = dict(char=["a", "'\\n'", "end_of_file", "' '", "b"], code=["97", "10", "-1", "32"], byte=["97", "10", "-1", "200"])[k]
        bad = dict(char=["foo", "1", "f(x)", "\"a\""], code=["a", "-2", "256", "f(x)", "1.5"], byte=["a", "-2", "256", "f(x)"])[k]
        return r.choice(good if r.random() < .7 else bad)

    def inarg(self, k):
        r = self.r
        if r.random() < .92:
            return dict(char=["a", "'\\n'", "' '", "b", "z"], code=["97", "10", "255", "32", "98"], byte=["97", "10", "0", "255", "200"])[k][r.randrange(5)]
        return r.choice(dict(char=["_", "foo", "1", "end_of_file", "f(x)"], code=["_", "a", "-1", "256", "f(x)"], byte=["_", "a", "-1", "256", "1.0"])[k])

    def kind(self, h):
        r = self.r
        if r.random() < .06:
            return r.choice(["char", "code", "byte"])
        return r.choice(["char", "code"]) if h.tx else "byte"

    def target(self, md):
        """(handle, first argument or None for the current stream)"""
        r = self.r
        if r.random() < .25:
            return self.cur["i" if md == "i" else "o"], None
        x = r.random()
        if x < .03:
            return None, self.wrong()
        if x < .07:
            h = self.pick("o" if md == "i" else "i")
        else:
            h = self.pick(md)
        return h, self.ref(h)

    def args(self, *a):
        a = [x for x in a if x is not None]
        return "(" + ", ".join(a) + ")" if a else ""

    def c_read(self):
        h, s = self.target("i")
        k = self.kind(h) if h else "char"
        n = self.r.choice([1, 1, 1, 2, 3, 6])
        for _ in range(n):
            if h:
                h.pb = max(0, h.pb - 1)
            self.emit("get_%s%s" % (k, self.args(s, self.outarg(k))))

    def c_peek(self):
        h, s = self.target("i")
        k = self.kind(h) if h else "char"
        if h:
            h.pb = max(h.pb, 1)
        self.emit("peek_%s%s" % (k, self.args(s, self.outarg(k))))

    def c_unget(self):
        h, s = self.target("i")
        k = self.kind(h) if h else "char"
        if h and h.pb >= 8:
            return
        if h:
            h.pb += 1
        self.emit("unget_%s%s" % (k, self.args(s, self.inarg(k))))

    def c_reread(self):
        """Read some characters, push the last ones back, look at the position, read on."""
        r = self.r
        h = self.pick("i")
        s, k = self.ref(h), "char" if h.tx else "byte"
        n = r.randint(1, 5)
        if h.pb + n > 8:
            return
        ks = []
        for _ in range(n):
            self.nv += 1
            ks.append(self.nv)
            self.emit("get_%s(%s, C)" % (k, s), "s(%d, 2)" % self.nv)
        if r.random() < .3:
            self.emit("stream_position(%s, _)" % s)
        h.pb = max(0, h.pb - n)
        for j in reversed(ks[r.randint(0, n - 1):]):
            self.emit("unget_%s(%s, '$h'(%d))" % (k, s, j))
            h.pb += 1
        if r.random() < .7:
            self.emit(r.choice(["stream_position(%s, _)", "stream_line_column(%s, _, _)", "character_count(%s, _)"]) % s)

    def c_eos(self):
        h, s = self.target("i")
        if h:
            h.pb = max(h.pb, 1)
        self.emit("at_end_of_stream" + self.args(s))

    def c_drain(self):
        """Read to the end of a stream and beyond."""
        h = self.pick("i")
        s, k = self.ref(h), self.kind(h)
        for _ in range(self.r.randint(3, 14)):
            self.emit("get_%s(%s, _)" % (k, s))
            if self.r.random() < .1:
                h.pb = max(h.pb, 1)
                self.emit("at_end_of_stream(%s)" % s)
            h.pb = max(0, h.pb - 1)

    # -- writing -----------------------------------------------------------------------------
    def c_put(self):
        h, s = self.target("o")
        k = self.kind(h) if h else "char"
        for _ in range(self.r.choice([1, 1, 2, 4])):
            self.emit("put_%s%s" % (k, self.args(s, self.inarg(k))))

    def c_write(self):
        h, s = self.target("o")
        t = "".join(chr(c) for c in self.data())
        self.emit("write" + self.args(s, qatom(t)))

    def c_nl(self):
        self.emit("nl" + self.args(self.target("o")[1]))

    def c_flush(self):
        self.emit("flush_output" + self.args(self.target("o")[1]))

    def c_phys(self):
        fs = [h.f for h in self.hs if h.open and h.kind == "file" and h.md != "read"]
        if fs:
            f = self.r.choice(fs)
            self.out.append(("phys(%s)" % f, dict(c="phys", f=f)))

    # -- opening and closing -----------------------------------------------------------------
    def busy(self, f):
        return [h for h in self.hs if h.open and h.f == f]

    def free_alias(self):
        return "al_%d" % self.r.randint(1, 6)

    def acyclic(self, h, m):
        """no way from m back to h"""
        seen, todo = set(), [m]
        while todo:
            x = todo.pop()
            if x is h:
                return False
            for y in x.mir:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return True

    def c_open(self):
        r = self.r
        md = r.choice(["read", "read", "write", "append"])
        f = r.choice(FILES)
        b = self.busy(f)
        if (md != "read" and b) or any(h.md != "read" for h in b):
            return
        bad = r.random() < .12
        opts, tx, als, rp, ea, mirs = [], True, [], True, "eof_code", []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            o = r.choice(["type", "type", "eof_action", "eof_action", "buffering", "alias", "reposition", "mirror"])
            if o == "type":
                tx = r.random() < .5
                opts.append("type(%s)" % ("text" if tx else "binary"))
            elif o == "eof_action":
                ea = r.choice(["error", "eof_code", "reset"])
                opts.append("eof_action(%s)" % ea)
            elif o == "buffering":
                opts.append("buffering(%s)" % r.choice(["none", "line", "block"]))
            elif o == "reposition":
                rp = r.random() < .7
                opts.append("reposition(%s)" % ("true" if rp else "false"))
            elif o == "alias":
                als.append(self.free_alias())
                opts.append("alias(%s)" % als[-1])
            else:
                m = self.pick("o")
                if m.f != f and m.open:
                    mirs.append(m)
                    opts.append("mirror(%s)" % self.ref(m))
        S = "S"
        fn, mode = f, md
        o = "[" + ", ".join(opts) + "]"
        if bad:
            x = r.randrange(5)
            if x == 0:
                opts.insert(r.randint(0, len(opts)), r.choice(["foo", "_", "type(_)", "type(foo)", "alias(1)", "alias(_)", "mirror(no_such)", "mirror(user_input)", "reposition(a)", "eof_action(_)",
                                                               "buffering(x)", "mirror(_)", "mirror(1)", "f(a,b)", "1"]))
                o = "[" + ", ".join(opts) + "]"
            elif x == 1:
                S = r.choice(["foo", "'$h'(1)", "1"])
            elif x == 2:
                fn = r.choice(["_", "1", "f(x)", "'nodir/x'", "'f1/x'", "dd", "missing"])
                if fn == "dd":
                    mode = r.choice(["write", "append"])
                if fn == "missing":
                    mode = "read"
            elif x == 3:
                mode = r.choice(["_", "1", "foo", "f(x)", "reads"])
            else:
                o = r.choice(["_", "[type(text)|_]", "foo", "[type(text)|foo]", "[_]"])
            self.emit("open(%s, %s, %s, %s)" % (fn, mode, S, o))
            return
        ok = not any(a in self.al for a in als) and (md != "read" or f in self.files)
        k = len(self.hs) + 1
        if not opts and r.random() < .6:
            self.emit("open(%s, %s, S)" % (fn, mode), "s(%d, 3)" % k)
            tx, rp, ea = True, True, "eof_code"
        else:
            self.emit("open(%s, %s, S, %s)" % (fn, mode, o), "s(%d, 3)" % k)
        if ok:
            h = H(k, md, "file", f, tx, rp=rp, ea=ea)
            self.add(h)
            for a in als:
                self.al[a] = h
                h.al.add(a)
            h.mir |= set(mirs)
            self.files.setdefault(f, [])
        else:
            self.hs.append(H(k, md, "none", None, True))
            self.hs[-1].open = False

    def add(self, h):
        self.hs.append(h)

    def dropped(self, h):
        if h.kind != "std":
            h.open = False
            for x in self.hs + self.std:
                x.mir.discard(h)
        for a in list(h.al):
            self.al.pop(a, None)
        h.al = set()
        if self.cur["i"] is h:
            self.cur["i"] = self.std[0]
        if self.cur["o"] is h:
            self.cur["o"] = self.std[1]

    def c_close(self):
        r = self.r
        x = r.random()
        if x < .06:
            self.emit("close(%s)" % self.wrong())
            return
        if x < .12:
            h = self.pick()
            self.emit("close(%s, %s)" % (self.ref(h), r.choice(["_", "[_]", "foo", "[foo]", "[force(_)]", "[force(x)|_]", "[force(true), a]", "[force(1)]"])))
            return
        h = self.pick()
        if h.kind == "mem" and r.random() < .9:
            o = h.md != "read"
            k = h.f if not o or r.random() < .6 else r.choice(["atom", "chars", "codes"])
            if o:
                a = "_" if r.random() < .85 else qatom("ab") if k == "atom" else "[a,b]" if k == "chars" else "[97,98]"
                self.emit("close_output_%s_stream(%s, %s)" % (k, self.ref(h), a))
                if a == "_":
                    self.dropped(h)
                else:
                    self.emit("close_output_%s_stream(%s, _)" % (k, self.hold(h)))
                    self.dropped(h)
            else:
                self.emit("close_input_%s_stream(%s)" % (k, self.ref(h)))
                self.dropped(h)
            return
        if r.random() < .05:
            self.emit(r.choice(["close_input_atom_stream(%s)", "close_output_codes_stream(%s, _)"]) % self.ref(h))
            if h.kind == "mem":
                self.emit("close(%s)" % self.hold(h))
                h.open = False
                self.dropped(h)
            return
        f = r.choice(["", "", "[]", "[force(true)]", "[force(false)]", "[force(false), force(true)]"])
        self.emit("close(%s)" % self.ref(h) if not f else "close(%s, %s)" % (self.ref(h), f))
        if h.open and h.kind != "mem":
            self.dropped(h)

    def c_term(self):
        r = self.r
        k = r.choice(["atom", "chars", "codes"])
        n = len(self.hs) + 1
        if r.random() < .06:
            self.emit(r.choice(["open_input_%s_stream(_, S)", "open_input_%s_stream(f(x), S)", "open_output_%s_stream(foo)", "open_output_%s_stream('$h'(1))"]) % k)
            return
        if r.random() < .55:
            cs = [c for c in self.data() if c]
            t = qatom("".join(map(chr, cs)))
            a = t if k == "atom" else "[" + ",".join(qatom(chr(c)) if k == "chars" else str(c) for c in cs) + "]"
            self.emit("open_input_%s_stream(%s, S)" % (k, a), "s(%d, 2)" % n)
            self.add(H(n, "read", "mem", k, True, rp=False))
        else:
            self.emit("open_output_%s_stream(S)" % k, "s(%d, 1)" % n)
            self.add(H(n, "write", "mem", k, True, rp=False))

    # -- current streams, aliases, mirrors ---------------------------------------------------
    def c_cur(self):
        r = self.r
        io = r.choice(["i", "o"])
        nm = "put" if io == "o" else "in"
        nm = "output" if io == "o" else "input"
        x = r.random()
        if x < .3:
            self.emit("current_%s(%s)" % (nm, r.choice(["_", "_", "_", self.hold(self.pick()) if self.hs else "_", "foo", "'$stream'(99)", "1", "user_input"])))
        elif x < .4:
            self.emit("set_%s(%s)" % (nm, self.wrong()))
        else:
            h = self.pick(io if r.random() < .93 else None)
            self.emit("set_%s(%s)" % (nm, self.ref(h)))
            if h.open and (h.md == "read") == (io == "i"):
                self.cur[io] = h

    def c_alias(self):
        r = self.r
        p = r.choice(["add_stream_alias", "add_stream_alias", "set_stream_alias"])
        x = r.random()
        h = self.pick()
        if x < .06:
            self.emit("%s(%s, %s)" % (p, self.wrong(), "al_1"))
            self.fuzzy_alias("al_1", None)
            return
        if x < .12:
            self.emit("%s(%s, %s)" % (p, self.ref(h), r.choice(["_", "1", "f(x)"])))
            return
        if x < .2 and h.open and h.kind != "std":
            a = r.choice(["user_input", "top_level_input", "debugger_input"] if h.md == "read" else ["user_output", "user_error", "top_level_output", "debugger_output"])
            self.emit("%s(%s, %s)" % ("add_stream_alias" if a.startswith("user") else p, self.ref(h), a))
            return
        a = self.free_alias()
        self.emit("%s(%s, %s)" % (p, self.ref(h), a))
        if h.open:
            o = self.al.get(a)
            if o is None or p == "set_stream_alias":
                if o:
                    o.al.discard(a)
                self.al[a] = h
                h.al.add(a)

    def fuzzy_alias(self, a, h):
        pass

    def c_many(self):
        """Many aliases (the table grows)."""
        h = self.pick()
        for i in range(self.r.choice([10, 40])):
            self.emit("add_stream_alias(%s, bulk_%d)" % (self.ref(h), self.r.randint(1, 99)))

    def c_mirror(self):
        r = self.r
        if r.random() < .08:
            self.emit("%s(%s, %s)" % (r.choice(["add_stream_mirror", "remove_stream_mirror"]), *r.choice([(self.wrong(), "user_output"), (self.ref(self.pick()), self.wrong()), ("user_output", "user_input")])))
            return
        if r.random() < .65:
            h, m = self.pick(), self.pick("o")
            if m is not h and h.open and m.open and not self.acyclic(h, m):
                return
            self.emit("add_stream_mirror(%s, %s)" % (self.ref(h), self.ref(m)))
            if h.open and m.open and h is not m:
                h.mir.add(m)
        else:
            c = [h for h in self.hs + self.std if h.mir]
            h = r.choice(c) if c and r.random() < .8 else self.pick()
            m = r.choice(sorted(h.mir, key=lambda x: str(x.k))) if h.mir and r.random() < .8 else self.pick()
            self.emit("remove_stream_mirror(%s, %s)" % (self.ref(h), self.ref(m)))
            if h.open and m.open:
                h.mir.discard(m)

    def c_modify(self):
        r = self.r
        p, vals = r.choice([("set_stream_type", ["text", "binary"]), ("set_stream_eof_action", ["error", "eof_code", "reset"]), ("set_stream_buffering", ["none", "line", "block"])])
        x = r.random()
        h = self.pick(kind=("file", "mem")) if r.random() < .9 else self.pick()
        if h.kind == "std" and p != "set_stream_eof_action":
            return
        if x < .05:
            self.emit("%s(%s, %s)" % (p, self.wrong(), vals[0]))
            return
        v = r.choice(vals)
        if x < .12:
            v = r.choice(["_", "foo", "1", "f(x)"])
        self.emit("%s(%s, %s)" % (p, self.ref(h), v))
        if p == "set_stream_type" and r.random() < .5 and v in vals:
            h.tx = v == "text"

    # -- positions ---------------------------------------------------------------------------
    def c_pos(self):
        r = self.r
        x = r.random()
        h = self.pick()
        s = self.ref(h)
        num = lambda: r.choice(["_", "_", "_", "_", "0", "1", "3", "foo", "1.5"])
        if x < .06:
            self.emit(r.choice(["stream_position(%s, _)", "character_count(%s, _)", "line_count(%s, _)", "stream_line_column(%s, _, _)", "set_stream_position(%s, '$p'(1))", "seek(%s, bof, 0, _)"]) % self.wrong())
        elif x < .3:
            self.np += 1
            self.emit("stream_position(%s, P)" % s, "p(%d, 2)" % self.np)
        elif x < .38:
            self.emit("stream_position(%s, %s)" % (s, r.choice(["'$p'(%d)" % r.randint(1, self.np + 1), "foo", "'$stream_position'(0,0,0,0)", "1"])))
        else:
            self.emit(r.choice(["character_count(%s, %s)" % (s, num()), "line_count(%s, %s)" % (s, num()), "line_position(%s, %s)" % (s, num()), "stream_line_column(%s, %s, %s)" % (s, num(), num())]))

    def c_move(self):
        r = self.r
        h = self.pick("i") if r.random() < .85 else self.pick("o", kind=("file",))
        s = self.ref(h)
        if h.open and h.md == "append" or h.kind == "std" and h.md != "read":
            return
        x = r.random()
        if x < .4:
            if h.md != "read" and h.open:
                self.np += 1
                self.emit("stream_position(%s, P)" % s, "p(%d, 2)" % self.np)
                self.c_put()
                self.emit("set_stream_position(%s, '$p'(%d))" % (s, self.np))
            else:
                self.emit("set_stream_position(%s, %s)" % (s, r.choice(["'$p'(%d)" % r.randint(1, self.np + 1)] * 5 + ["_", "foo", "'$stream_position'(2,2,0,2)", "'$stream_position'(-1,0,0,0)"])))
                h.pb = 0
        elif x < .75:
            w = r.choice(["bof", "current", "eof"]) if r.random() < .92 else r.choice(["_", "foo", "1"])
            o = r.choice(["0", "0", "1", "2", "3", "-1", "-2", "30", "_", "a"])
            if h.md != "read" and h.open:
                w, o = r.choice([("bof", "0"), ("bof", "1"), ("current", "-1"), ("current", "0"), ("eof", "0"), ("eof", "-1")])
            self.emit("seek(%s, %s, %s, %s)" % (s, w, o, r.choice(["_", "_", "_", "0", "2", "foo"])))
            h.pb = 0
        else:
            if h.md != "read":
                return
            num = lambda: r.choice(["1", "1", "1", "2", "2", "3", "4", "7", "0", "-1", "_", "a"] if r.random() < .3 else ["1", "1", "2", "3", "2", "4"])
            if h.mir:
                return
            self.emit("set_stream_line_column(%s, %s, %s)" % (s, num(), num()))
            h.pb = 0

    # -- queries -----------------------------------------------------------------------------
    def c_query(self, top=True):
        r = self.r
        h = self.pick()
        st = r.choice(["_", "_", self.hold(h) if h.kind != "std" else "_", self.hold(h) if h.kind != "std" else "'$stream'(0)"])
        bad = r.random() < .05
        if bad:
            st = r.choice(["foo", "1", "user_input", "'$stream'(99)"])
        x = r.random()
        if x < .15:
            g = "current_stream(%s)" % st
        elif x < .35:
            g = "current_alias(%s, %s)" % (st, r.choice(["_", "_", "al_1", "al_2", "user_input", "current_output", "no_such"]))
        elif x < .5:
            g = "current_mirror(%s, %s)" % (st, r.choice(["_", "_", self.hold(self.pick("o")) if self.hs else "_", "foo" if bad else "_"]))
        else:
            p = r.choice(["_", "_", "_", "file_name(_)", "mode(_)", "input", "output", "alias(_)", "mirror(_)", "type(_)", "file_no(_)", "reposition(_)", "eof_action(_)", "buffering(_)", "end_of_stream(_)",
                          "position(_)", "mode(read)", "type(binary)", "eof_action(reset)", "end_of_stream(at)", "end_of_stream(past)", "alias(al_1)", "reposition(true)", "buffering(block)", "file_name(f1)"]
                         + (["foo", "mode", "1", "mode(a,b)"] if bad else []))
            if "end_of_stream" in p or p == "_":
                for y in self.hs + self.std:
                    y.pb = max(y.pb, 1)
            g = "stream_property(%s, %s)" % (st, p)
        if top:
            self.out.append(("q(%s)" % g, dict(c="q")))
        return g

    def c_scan(self):
        r = self.r
        g = r.choice(["current_stream(_)", "current_alias(_, _)", "current_mirror(_, _)", "stream_property(_, alias(_))", "stream_property(_, mode(_))", "stream_property(_, mirror(_))", "stream_property(_, file_name(_))"])
        save, self.out = self.out, []
        for _ in range(r.randint(3, 10)):
            r.choice([self.c_close, self.c_alias, self.c_mirror, self.c_mirror, self.c_close, self.c_term])()
        acts, self.out = self.out, save
        self.out.append(("scan(%s, [%s])" % (g, ", ".join(a[0] for a in acts)), dict(c="scan")))
        # what was executed of it is not known: forget what may have changed
        self.lost = True

    # -- DEC-10 ------------------------------------------------------------------------------
    def c_dec(self):
        r = self.r
        x = r.random()
        if x < .35:
            p = r.choice(["see", "tell", "append"])
            rd = p == "see"
            y = r.random()
            if y < .1:
                self.emit("%s(%s)" % (p, r.choice(["_", "1", "f(x)", "'nodir/x'", "'$stream'(99)"])))
                return
            if y < .25:
                self.emit("%s(%s)" % (p, r.choice(["user", "user_input" if rd else "user_output"])))
                self.cur["i" if rd else "o"] = self.std[0 if rd else 1]
                return
            if y < .4:
                h = self.pick("i" if rd else "o", kind=("file", "mem"))
                if h.kind != "std":
                    if h.open:
                        self.emit("%s(%s)" % (p, self.hold(h)))
                        self.cur["i" if rd else "o"] = h
                    return
            f = r.choice(FILES)
            d = self.dec.get((f, rd))
            if not (d and d.open):
                b = self.busy(f)
                if (not rd and b) or any(h.md != "read" for h in b):
                    return
            k = len(self.hs) + 1
            self.emit("%s(%s)" % (p, f))
            if d and d.open or (rd and f not in self.files):
                self.emit("current_%s(_)" % ("input" if rd else "output"))
                if not (d and d.open):
                    return
            else:
                d = H(k, "read" if rd else "write" if p == "tell" else "append", "file", f, True)
                self.add(d)
                self.emit("current_%s(S)" % ("input" if rd else "output"), "s(%d, 1)" % k)
                self.dec[(f, rd)] = d
                self.files.setdefault(f, [])
            self.cur["i" if rd else "o"] = d
        elif x < .5:
            self.emit("%s(%s)" % (r.choice(["seeing", "telling"]), r.choice(["_", "_", "_", "user", "f1", "f2"])))
        elif x < .65:
            io = r.choice(["i", "o"])
            h = self.cur[io]
            self.emit("seen" if io == "i" else "told")
            if h.kind != "mem":
                self.dropped(h)
        elif x < .8:
            h = self.cur["i"]
            h.pb = max(0, h.pb - 1)
            self.emit(r.choice(["get0(%s)", "get0(%s)", "get(%s)"]) % self.outarg("code"))
        elif x < .9:
            self.emit("put(%s)" % self.inarg("code"))
        else:
            self.emit("tab(%s)" % r.choice(["0", "1", "3", "5", "-1", "_"]))

    W = dict(c_read=14, c_peek=7, c_unget=6, c_eos=4, c_drain=4, c_put=9, c_write=6, c_nl=3, c_flush=3, c_phys=3, c_open=11, c_close=8, c_term=5, c_cur=6, c_alias=7,
             c_mirror=6, c_modify=6, c_pos=10, c_move=8, c_query=8, c_dec=8, c_reread=4, c_many=.4)

    def history(self, n):
        r = self.r
        ks = list(self.W)
        # each history concentrates on some of the kinds of commands
        w = [self.W[k] * r.choice([.2, .5, 1, 1, 2, 3]) for k in ks]
        for _ in range(r.randint(2, 4)):
            self.c_open()
        while len(self.out) < n:
            if r.random() < .012:
                self.c_scan()
                break           # the generator does not know what the scan executed
            getattr(self, r.choices(ks, w)[0])()
        init = dict(c="init", fs=[[f, b] for f, b in self.files0] + [["<0>", self.stdin], ["<1>", []], ["<2>", []]])
        return [("init", init)] + self.out


def hists(pid, r, n, size):
    out = []
    for _ in range(n):
        g = Gen(r)
        g.files0 = sorted(g.files.items())
        out.append(g.history(size))
    return out


def one(exe, src, h, i):
    d = os.path.join(vlib.workdir(), "stm%d" % i)
    os.makedirs(os.path.join(d, "dd"))
    init = h[0][1]
    phys = {}
    for f, b in init["fs"]:
        with open(os.path.join(d, {"<0>": "stdin", "<1>": "stdout", "<2>": "stderr"}.get(f, f)), "wb") as fh:
            fh.write(bytes(b))
    with open(os.path.join(d, "cmds"), "w") as fh:
        fh.write("[" + ",\n".join(c[0] for c in h[1:]) + "].\n")
    rc, _, _ = vlib.run(["sh", "-c", "exec %s <stdin >stdout 2>stderr" % exe], timeout=30, env=vlib.plenv(src, TESTFILE="cmds"), cwd=d)
    got, done, bad = collections.defaultdict(list), False, None
    with open(os.path.join(d, "cmds.out"), "rb") as fh:
        for ln in fh.read().split(b"\n"):
            try:
                o = json.loads(ln)
            except ValueError:
                continue
            if "done" in o:
                done = True
            else:
                got[o["n"]].append((o["k"], o["v"]))
    evs = [init]
    hide = 3                                           # the driver's own result stream
    for k, c in enumerate(h[1:]):
        g = got[k + 1]
        try:
            evs.append(event(c[1], g, hide))
        except (IndexError, KeyError, ValueError, TypeError):
            bad = "command %d gave no result (exit %s)" % (k + 1, rc)
            break
    for x, y in zip(evs, evs[1:]):
        if x.get("p") in ("see", "tell", "append") and y.get("p") in ("current_input", "current_output") and y["k"] == "ok" and y["o"][0][0] == "st":
            x["got"] = y["o"][0][1]
    if not bad and not done:
        bad = "the process did not end normally (exit %s)" % rc
    if not bad:
        fs = []
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p) and f not in ("cmds", "cmds.out"):
                with open(p, "rb") as fh:
                    fs.append([{"stdin": "<0>", "stdout": "<1>", "stderr": "<2>"}.get(f, f), list(fh.read())])
        evs.append(dict(c="files", fs=fs))
    shutil.rmtree(d)
    return evs, bad


def event(ev, g, hide):
    c = ev["c"]
    if c == "do":
        assert g[0][0] == "call" and g[1][0] == "res"
        return dict(c="do", **do_event(g[0][1], g[1][1]))
    if c == "phys":
        x = g[0][1]
        return dict(c="phys", f=ev["f"], b=[int(y[1]) for y in x[1]] if x[0] == "l" else [])
    p, a = call(g[0][1])
    if c == "q":
        k, v = g[1]
        if k == "err":
            return dict(c="q", p=p, a=a, k="err", e=err(v, p, a), rows=[])
        rows = [call(x)[1] for x in (v[1] if v[0] == "l" else [])]
        return dict(c="q", p=p, a=a, k="rows", e=["none"], rows=[x for x in rows if x[0] != ["st", hide]])
    items, i = [], 1
    while g[i][0] != "end":
        if g[i][0] == "row":
            r = call(g[i][1])[1]
            if r[0] != ["st", hide]:
                items.append(dict(k="row", row=r))
            i += 1
        elif g[i][0] == "err":
            items.append(dict(k="row", row=[["x", "error"]]))
            i += 1
        else:
            items.append(do_event(g[i][1], g[i + 1][1]))
            i += 2
    return dict(c="scan", p=p, a=a, items=items)


def shown(e):
    return json.dumps({k: v for k, v in e.items() if k != "c"})[:1500]
