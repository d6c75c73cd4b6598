"""Random programs for the machine checks."""
from plterm import *
from machine import Test

ATOMS = ["a", "b", "c", "foo", "[]", "", "hello world", "+", "don't", "A", "_x", "{}", "é"]
FUNS = ["f", "g", "h", "-", "+", ".", "foo", "s", "'q'", "f"]


class Swarm(dict):
    """Feature weights; a random subset is switched off for each program."""
    def __init__(self, r, base, keep=0.6, always=()):
        super().__init__({k: w for k, w in base.items() if k in always or r.random() < keep})
        if not self:
            self.update(base)

    def pick(self, r):
        ks = list(self)
        return r.choices(ks, [self[k] for k in ks])[0]


class TermGen:
    def __init__(self, r, nvars=4, big=False, floats=False):
        self.r, self.nv, self.big, self.floats = r, nvars, big, floats
        self.atoms = r.sample(ATOMS, 3) + ["a", "b"]
        self.funs = r.sample(FUNS, 3)
        self.maxar = r.choice([2, 2, 3, 4, 7])

    def var(self):
        return V(self.r.randint(1, self.nv))

    def const(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return I(r.randint(-2, 4))
        if self.big and x < 0.6:
            return self.bigint()
        if self.floats and x < 0.7:
            return F(r.choice(["0.0", "1.0", "-1.5", "2.0", "1.0e+20", "3.25"]))
        return A(r.choice(self.atoms))

    def bigint(self):
        r = self.r
        e = r.choice([7, 8, 15, 16, 27, 28, 29, 31, 32, 33, 47, 58, 59, 60])
        v = (1 << e) + r.randint(-2, 2)
        if r.random() < 0.5:
            v = -v
        v = max(-(1 << 60), min((1 << 60) - 1, v))
        return I(v)

    def term(self, depth=2, pv=0.35):
        r = self.r
        x = r.random()
        if x < pv and self.nv:
            return self.var()
        if depth <= 0 or x < pv + 0.3:
            return self.const()
        if x < pv + 0.42:
            return lst([self.term(depth - 1, pv) for _ in range(r.randint(0, 3))], NIL if r.random() < 0.7 else (self.var() if self.nv else NIL))
        return S(r.choice(self.funs), *[self.term(depth - 1, pv) for _ in range(r.randint(1, self.maxar))]) \
            if r.random() < 0.9 else lst([self.term(depth - 1, pv)])

    def ground(self, depth=2):
        nv, self.nv = self.nv, 0
        t = self.term(depth, 0.0)
        self.nv = nv
        return t


CONTROL = dict(call_user=8, unify=5, ev=4, cut=3, ite=3, it=1, soft=2, softalone=0.6, disj=3, neg=2, call=2, calln=2, once=1.2,
               typetest=1.5, arith=2, compare=1, true=0.6, fail=0.5, varcall=0.8, findall=0.8, forall=0.4, between=1,
               conj=1, functor=0.5, univ=0.5, arg=0.5, copy=0.4)
EXC = dict(catch=3, throw=2, evb=0.5, errgoal=1.5)


class ProgGen:
    def __init__(self, r, pfx, feats=None, levels=3, npreds=4, exc=False, dyn=False, bigterms=False, wide=False):
        self.r, self.p = r, pfx
        base = dict(feats or CONTROL)
        if exc:
            base.update(EXC)
        self.exc = exc
        self.w = Swarm(r, base, 0.65, always=("call_user", "unify", "ev") + (("catch", "throw") if exc else ()))
        self.preds = []          # (name, arity, level)
        for l in range(levels):
            for i in range(r.randint(1, max(1, npreds // levels + 1))):
                ar = r.choice([0, 1, 1, 2, 2, 3]) if not wide else r.choice([1, 2, 5, 9, 17, 30])
                self.preds.append(("%sp%d_%d" % (pfx, l, i), ar, l))
        self.levels = levels
        self.bigterms = bigterms
        self.maxdepth = r.choice([1, 2, 2, 3])

    def newterms(self, nv):
        self.t = TermGen(self.r, nv, big=self.bigterms, floats=self.bigterms)

    def args(self, n, depth=1, pv=0.72):
        return [self.t.term(depth, pv) for _ in range(n)]

    def user(self, level):
        c = [p for p in self.preds if p[2] > level]
        if not c:
            return None
        n, ar, _ = self.r.choice(c)
        return S(n, *self.args(ar)) if ar else A(n)

    def goal(self, level, d):
        r = self.r
        for _ in range(10):
            k = self.w.pick(r)
            g = getattr(self, "g_" + k)(level, d)
            if g is not None:
                return g
        return A("true")

    def body(self, level, d, n=None):
        n = n if n is not None else self.r.choice([0, 1, 1, 2, 2, 3, 4])
        return conj(self.goal(level, d) for _ in range(n))

    def sub(self, level, d):
        return self.body(level, d - 1, self.r.choice([1, 1, 2]))

    def g_call_user(self, l, d): return self.user(l)
    def g_unify(self, l, d):
        a = self.t.var() if self.r.random() < 0.6 else self.t.term(1, 0.7)
        neg = self.r.random() < 0.15
        for _ in range(5):
            b = self.t.term(1 if neg else self.maxdepth, 0.4)
            if not (set(vars_of(a)) & set(vars_of(b))) or (a[0] == "v" and b[0] == "v"):
                break
        return S("\\=" if neg else "=", a, b)
    def g_ev(self, l, d): return S("ev", self.t.term(1, 0.7))
    def g_cut(self, l, d): return A("!")
    def g_true(self, l, d): return A("true")
    def g_fail(self, l, d): return A(self.r.choice(["fail", "false"]))
    def g_conj(self, l, d): return S(",", self.sub(l, d), self.sub(l, d)) if d > 0 else None
    def g_ite(self, l, d): return S(";", S("->", self.sub(l, d), self.sub(l, d)), self.sub(l, d)) if d > 0 else None
    def g_it(self, l, d): return S("->", self.sub(l, d), self.sub(l, d)) if d > 0 else None
    def g_soft(self, l, d): return S(";", S("*->", self.sub(l, d), self.sub(l, d)), self.sub(l, d)) if d > 0 else None
    def g_softalone(self, l, d): return S("*->", self.sub(l, d), self.sub(l, d)) if d > 0 else None
    def g_disj(self, l, d): return S(";", self.sub(l, d), self.sub(l, d)) if d > 0 else None
    def g_neg(self, l, d): return S("\\+", self.sub(l, d)) if d > 0 else None
    def g_call(self, l, d): return S("call", self.sub(l, d)) if d > 0 else None
    def g_once(self, l, d): return S("once", self.sub(l, d)) if d > 0 else None
    def g_forall(self, l, d): return S("forall", self.sub(l, d), self.sub(l, d)) if d > 0 else None
    def g_findall(self, l, d): return S("findall", self.t.term(1, 0.8), self.sub(l, d), self.t.var()) if d > 0 else None

    def g_calln(self, l, d):
        g = self.user(l)
        if g is None or g[0] != "s":
            return None
        k = self.r.randint(1, len(g[2]))
        k = min(k, 7)
        n = len(g[2]) - k
        return S("call", S(g[1], *g[2][:n]) if n else A(g[1]), *g[2][n:])

    def g_varcall(self, l, d):
        if d <= 0:
            return None
        v = self.t.var()
        return S(",", S("=", v, self.sub(l, d)), v if self.r.random() < 0.7 else S("call", v))

    def g_typetest(self, l, d):
        return S(self.r.choice(["var", "nonvar", "atom", "integer", "atomic", "compound", "callable", "number", "ground", "is_list"]), self.t.term(1, 0.8))

    def expr(self, d=2):
        r = self.r
        if d <= 0 or r.random() < 0.4:
            return I(r.randint(-5, 9)) if r.random() < 0.7 else self.t.var()
        if r.random() < 0.15:
            return S(r.choice(["-", "+", "abs", "sign"]), self.expr(d - 1))
        return S(r.choice(["+", "-", "*", "+", "-", "//", "mod", "rem", "min", "max"]), self.expr(d - 1), self.expr(d - 1))

    def g_arith(self, l, d):
        r = self.r
        v = self.t.var()
        e = self.expr()
        if not self.exc:
            # make it error-free most of the time: bind the variables first
            pre = [S("=", V(x), I(r.randint(-3, 5))) for x in vars_of(e)]
            e = fixdiv(e)
            if r.random() < 0.15:
                pre = []
        else:
            pre = []
        g = S("is", v, e) if r.random() < 0.6 else S(r.choice(["=:=", "=\\=", "<", "=<", ">", ">="]), e, I(r.randint(-3, 6)))
        if not pre and vars_of(e):
            g = S("call", g)             # the compiler refuses an expression with a variable that is certainly unbound
        return conj(pre + [g])

    def g_compare(self, l, d):
        return S(self.r.choice(["==", "\\=="]), self.t.term(1, 0.6), self.t.term(1, 0.6))

    def g_between(self, l, d):
        return S("between", I(self.r.randint(0, 2)), I(self.r.randint(0, 3)), self.t.var())

    def g_functor(self, l, d): return S("functor", self.t.term(1, 0.4), self.t.term(0, 0.7), self.t.var()) if self.r.random() < 0.6 else \
        S("functor", self.t.var(), A("k"), I(self.r.randint(0, 4)))
    def g_univ(self, l, d): return S("=..", self.t.var(), lst([A("k")] + self.args(self.r.randint(0, 3)))) if self.r.random() < 0.5 else S("=..", self.t.term(2, 0.1), self.t.var())
    def g_arg(self, l, d): return S("arg", I(self.r.randint(1, 3)), S("f", *self.args(self.r.randint(1, 3))), self.t.term(0, 0.8))
    def g_copy(self, l, d): return S("copy_term", self.t.term(2, 0.5), self.t.var())

    # exceptions
    def g_catch(self, l, d):
        if d <= 0:
            return None
        r = self.r
        x = r.random()
        ball = self.t.var() if x < 0.4 else (S("error", self.t.var(), self.t.var()) if x < 0.6 else self.ball())
        rec = conj(([S("evb", ball)] if r.random() < 0.6 else []) + [self.sub(l, d)])
        return S("catch", self.sub(l, d), ball, rec)

    def ball(self):
        r = self.r
        return r.choice([A("a"), A("b"), S("e", self.t.var()), S("e", A("a")), S("e", self.t.var(), self.t.var()), I(1)])

    def g_throw(self, l, d): return S("throw", self.ball() if self.r.random() < 0.93 else self.t.var())
    def g_evb(self, l, d): return S("evb", self.ball())

    def g_errgoal(self, l, d):
        r = self.r
        return r.choice([S("call", S("is", self.t.var(), S("//", I(1), I(0)))), S("call", S("is", self.t.var(), S("+", A("foo"), I(1)))), S("call", I(3)),
                         S("call", self.t.var()), S("call", A(self.p + "undef")), S("call", S(self.p + "undef", I(1))),
                         S("functor", self.t.var(), self.t.var(), I(2)), S("arg", A("x"), S("f", I(1)), self.t.var()),
                         S("=..", self.t.var(), self.t.var()), S("call", S(",", A("fail"), I(1))), S("call", S(";", A("true"), I(1))), S("call", S("*->", A("fail"), I(1))),
                         S("call", S(";", S("*->", A("fail"), A("true")), I(2))), S("assertz", S(":-", A("foo"), S("*->", A("fail"), I(4)))),
                         S("assertz", S(":-", A("foo"), I(4)))])

    def clauses(self):
        r, out = self.r, []
        for n, ar, l in self.preds:
            nc = r.choice([1, 2, 2, 3, 3, 4])
            for _ in range(nc):
                self.newterms(r.choice([1, 2, 3, 4, 4, 6, 8]))
                head = S(n, *[self.t.term(self.maxdepth if r.random() < 0.5 else 1, r.choice([0.4, 0.7, 0.9])) for _ in range(ar)]) if ar else A(n)
                if l == self.levels - 1 and r.random() < 0.6:
                    b = A("true")
                else:
                    b = self.body(l, self.maxdepth)
                out.append(Clause(head, b))
        return out

    def query(self):
        self.newterms(self.r.choice([2, 3, 4]))
        n, ar, l = self.preds[0] if self.r.random() < 0.6 else self.r.choice(self.preds)
        g = S(n, *self.args(ar, 1, 0.75)) if ar else A(n)
        if self.r.random() < 0.5:
            g = conj([g, self.goal(-1, 1)])
        else:
            g = conj([g])
        vs = [V(v) for v in vars_of(g)]
        return (g, vs, self.r.choice([1, 3, 12, 12]))


def fixdiv(e):
    """Divisors are made non-zero constants."""
    if e[0] != "s":
        return e
    as_ = [fixdiv(x) for x in e[2]]
    if e[1] in ("//", "mod", "rem") and len(as_) == 2:
        as_[1] = as_[1] if as_[1][0] == "i" and as_[1][1] != 0 else I(3)
    return ["s", e[1], as_]


def control_test(r, tid, exc=False):
    wide = r.random() < 0.12
    g = ProgGen(r, "t%d_" % tid, exc=exc, levels=r.choice([1, 2, 3, 3]), npreds=r.choice([2, 4, 6]), wide=wide, bigterms=r.random() < 0.2)
    cl = g.clauses()
    return Test(cl, queries=[g.query() for _ in range(r.choice([1, 2, 3]))])


def perm_test(r, tid):
    """Deterministic chains of calls with many arguments, permuted, repeated and wrapped in structures: register
    allocation, environment slots, unsafe and void variables, last-call argument moves."""
    pfx = "t%d_" % tid
    ar = r.choice([2, 3, 4, 5, 6, 8, 12, 20])
    n = r.choice([2, 3, 4])
    names = [pfx + "p%d" % i for i in range(n)]
    out = []
    tg = TermGen(r, 0, big=r.random() < 0.3, floats=r.random() < 0.3)
    tg.maxar = r.choice([1, 2, 3, 9])
    for i, nm in enumerate(names):
        for _ in range(r.choice([1, 1, 2])):
            tg.nv = r.choice([ar, ar, ar + 3, max(1, ar // 2)])
            hv = [V(k + 1) for k in range(ar)]
            head = [hv[k] if r.random() < 0.75 else tg.term(r.choice([1, 2, 3]), 0.6) for k in range(ar)]
            if r.random() < 0.3:
                r.shuffle(head)
            goals = []
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                x = r.random()
                if x < 0.25:
                    goals.append(S("ev", tg.term(2, 0.7)))
                elif x < 0.4:
                    goals.append(S("=", tg.var(), tg.term(r.choice([1, 2, 3]), 0.4)))
                elif x < 0.5:
                    goals.append(S(r.choice(["==", "\\=="]), tg.var(), tg.term(1, 0.8)) if r.random() < 0.5 else S(r.choice(["var", "nonvar", "atomic"]), tg.var()))
                    goals[-1] = S(";", goals[-1], A("true")) if r.random() < 0.5 else S(";", S("->", goals[-1], S("ev", tg.var())), A("true"))
                elif i + 1 < n:
                    args = [V(k) for k in r.sample(range(1, max(tg.nv, ar) + 1), ar)] if r.random() < 0.6 else [tg.term(0, 0.9) for _ in range(ar)]
                    for k in range(ar):
                        if r.random() < 0.2:
                            args[k] = tg.term(r.choice([1, 2, 3]), 0.6)
                    goals.append(S(r.choice(names[i + 1:]), *args))
                else:
                    goals.append(S("functor", tg.term(1, 0.2), tg.var(), tg.var()) if r.random() < 0.5 else S("copy_term", tg.term(2, 0.7), tg.var()))
            if r.random() < 0.25:
                goals.insert(r.randint(0, len(goals)), A("!"))
            out.append(Clause(S(nm, *head), conj(goals)))
    qs = []
    for _ in range(2):
        tg.nv = r.choice([ar, 2])
        g = S(names[0], *[tg.term(1, 0.7) for _ in range(ar)])
        g = S(",", g, S("ev", tg.var())) if r.random() < 0.3 else g
        qs.append((g, [V(v) for v in vars_of(g)], 6))
    return Test(out, queries=qs)
