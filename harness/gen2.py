"""Random programs: clause indexing (P02), dynamic database histories (P04), all-solutions (P05), global variables (P06)."""
from plterm import *
from machine import Test
from gen import TermGen, ProgGen, CONTROL, Swarm


# ---------------------------------------------------------------------------------------------
# P02

def first_args(r, tg):
    """A pool of first arguments with collisions: same names with other arities, neighbouring integers, lists, floats."""
    pool = []
    kinds = r.sample(["atom", "int", "big", "list", "struct", "float", "samename", "deep"], r.choice([1, 2, 3, 5, 8]))
    size = r.choice([2, 4, 8, 16, 40, 90])
    for _ in range(size):
        k = r.choice(kinds)
        if k == "atom":
            pool.append(A(r.choice(["a", "b", "c", "[]", "{}", "", "+", "foo", "hello world", "x%d" % r.randint(0, 60)])))
        elif k == "int":
            pool.append(I(r.randint(-20, 40)))
        elif k == "big":
            pool.append(tg.bigint())
        elif k == "list":
            pool.append(lst([tg.term(0, 0.4) for _ in range(r.randint(1, 3))], NIL if r.random() < 0.7 else V(1)))
        elif k == "float":
            pool.append(F(r.choice(["0.0", "1.0", "-1.5", "2.0", "1.0e+20", "3.25", "0.5"])))
        elif k == "samename":
            n = r.randint(0, 5)
            pool.append(S("f", *[tg.term(0, 0.7) for _ in range(n)]) if n else A("f"))
        elif k == "deep":
            pool.append(S("g", tg.term(2, 0.4)))
        else:
            pool.append(S(r.choice(["f", "g", "-", "+", "s%d" % r.randint(0, 40)]), *[tg.term(1, 0.5) for _ in range(r.choice([1, 1, 2, 3]))]))
    return pool


def index_pred(r, name, ar, tg, ev=True):
    pool = first_args(r, tg)
    n = r.choice([2, 3, 5, 9, 17, 40, 70])
    pvar = r.choice([0, 0, 0.05, 0.2, 0.5])
    out = []
    for i in range(n):
        tg.nv = r.choice([2, 3, 5])
        a1 = V(1) if r.random() < pvar else r.choice(pool)
        rest = [tg.term(1, 0.6) if r.random() < 0.5 else (I(i) if r.random() < 0.7 else tg.var()) for _ in range(ar - 1)]
        if ar > 1:
            rest[-1] = I(i)
        h = S(name, a1, *rest)
        x = r.random()
        b = A("true")
        if x < 0.08:
            b = A("!")
        elif x < 0.2:
            b = S("ev", I(i))
        elif x < 0.25:
            b = S(",", S("ev", V(1)), A("!"))
        elif x < 0.3:
            b = S("=", V(1), r.choice(pool))
            if 1 in vars_of(b[2][1]):
                b = A("true")
        out.append(Clause(h, b))
    return out, pool


def index_test(r, tid):
    pfx = "t%d_" % tid
    tg = TermGen(r, 3, big=True, floats=True)
    cl, qs = [], []
    preds = []
    for i in range(r.choice([1, 1, 2])):
        ar = r.choice([1, 2, 2, 3, 5])
        nm = pfx + "p%d" % i
        c, pool = index_pred(r, nm, ar, tg)
        cl += c
        preds.append((nm, ar, pool))
    for _ in range(r.choice([4, 6, 9])):
        nm, ar, pool = r.choice(preds)
        tg.nv = 3
        a1 = V(9) if r.random() < 0.25 else (r.choice(pool) if r.random() < 0.7 else tg.term(1, 0.4))
        if a1[0] == "s" and r.random() < 0.4:       # the same functor with other arguments
            a1 = S(a1[1], *[tg.term(0, 0.7) for _ in a1[2]])
        if r.random() < 0.1 and a1[0] == "s":
            a1 = A(a1[1])
        rest = [V(10 + j) if r.random() < 0.8 else tg.term(0, 0.5) for j in range(ar - 1)]
        g = S(nm, a1, *rest)
        if r.random() < 0.3:
            g = S(",", S("=", V(20), a1), S(nm, V(20), *rest))
        if r.random() < 0.2:
            g = S(",", g, S("ev", V(9)))
        qs.append((g, [V(v) for v in vars_of(g)], r.choice([1, 2, 100, 100, 100])))
    return Test(cl, queries=qs)


# ---------------------------------------------------------------------------------------------
# P04

class DynGen(ProgGen):
    """Histories of updates and iterations on dynamic predicates."""
    FE = dict(dcall=7, dclause=3, dretract=5, dasserta=3, dassertz=6, dretractall=1.2, dabolish=0.25, ev=5, cut=0.7, ite=1, neg=0.6, disj=1,
              failloop=3, dfindall=1, unify=1, call_user=2, fail=0.7, once=0.5, dunknown=0.2, derr=0.2, catch=0.5)

    def __init__(self, r, pfx):
        super().__init__(r, pfx, feats=DynGen.FE, levels=r.choice([1, 2]), npreds=r.choice([2, 3]))
        self.w = Swarm(r, DynGen.FE, 0.75, always=("dcall", "ev", "dassertz"))
        self.exc = True
        self.dp = [(pfx + "d%d" % i, r.choice([0, 1, 1, 1, 2, 2, 3])) for i in range(r.choice([1, 1, 2, 3]))]
        if r.random() < 0.15:                       # same name, other arity
            self.dp.append((self.dp[0][0], (self.dp[0][1] + 1) % 4))
        self.ctr = 0
        self.pool = None

    def dgoal(self, pv=0.55, nm=None):
        n, ar = nm or self.r.choice(self.dp)
        if ar == 0:
            return A(n)
        args = [self.carg(pv)] + [self.t.term(0, 0.75) for _ in range(ar - 1)]
        return S(n, *args)

    def carg(self, pv):
        if self.r.random() < pv:
            return self.t.var()
        return self.r.choice(self.pool)

    def fact(self):
        n, ar = self.r.choice(self.dp)
        self.ctr += 1
        if ar == 0:
            return A(n)
        a1 = self.carg(0.15)
        return S(n, a1, *[I(self.ctr) if self.r.random() < 0.6 else self.t.term(1, 0.4) for _ in range(ar - 1)])

    def dclause(self):
        r = self.r
        h = self.fact()
        x = r.random()
        if x < 0.7:
            return h
        b = r.choice([A("true"), S("ev", I(self.ctr)), S("=", self.t.var(), self.t.term(0, 0.2)), S(",", S("ev", I(self.ctr)), A("!")), self.t.var(),
                      S("assertz", self.fact()), S("retract", self.dgoal()),
                      S(";", S("ev", I(self.ctr)), A("true"))])
        if h[0] == "s" and r.random() < 0.15:
            b = self.dgoal(0.2, r.choice([d for d in self.dp]))
            # recursion only to predicates of larger index, to keep runs finite
            if key_(b)[0] <= h[1]:
                b = A("true")
        return S(":-", h, b)

    def g_dcall(self, l, d): return self.dgoal()
    def g_dclause(self, l, d): return S("clause", self.dgoal(), self.t.var() if self.r.random() < 0.8 else A("true"))
    def g_dretract(self, l, d):
        h = self.dgoal(0.6)
        x = self.r.random()
        return S("retract", h if x < 0.5 else S(":-", h, self.t.var()) if x < 0.8 else S(":-", h, A("true")))
    def g_dasserta(self, l, d): return S("asserta", self.dclause())
    def g_dassertz(self, l, d): return S("assertz", self.dclause())
    def g_dretractall(self, l, d): return S("retractall", self.dgoal(0.6))
    def g_dabolish(self, l, d):
        n, ar = self.r.choice(self.dp)
        return S("abolish", S("/", A(n), I(ar)))
    def g_failloop(self, l, d):
        if d <= 0:
            return None
        it = self.r.choice([self.g_dcall, self.g_dclause, self.g_dretract])(l, d)
        return S(";", S(",", it, S(",", self.body(l, d - 1, self.r.choice([1, 2, 3])), A("fail"))), A("true"))
    def g_dfindall(self, l, d): return S("findall", self.t.term(0, 0.9), self.r.choice([self.g_dcall, self.g_dclause, self.g_dretract])(l, d), self.t.var())
    def g_dunknown(self, l, d):
        return S("catch", S("call", A(self.p + "u")), S("error", V(1), V(2)), A("true"))
    def g_derr(self, l, d):
        r = self.r
        g = r.choice([S("assertz", self.t.var()), S("assertz", I(3)), S("assertz", S(":-", A(self.p + "d0"), I(4))), S("assertz", S(":-", self.t.var(), A("true"))),
                      S("retract", S(":-", I(4), A("true"))), S("retract", S(":-", self.t.var(), A("true"))), S("clause", self.t.var(), self.t.var()), S("clause", I(4), self.t.var()),
                      S("assertz", S(":-", S("atom", self.t.var()), A("true"))), S("clause", S("atom", self.t.var()), self.t.var()),
                      S("clause", self.dgoal(), I(5)),
                      S("abolish", S("/", self.t.var(), I(1))), S("abolish", self.t.var()), S("abolish", A("foo")),
                      S("asserta", S("foo", self.t.var())) if False else S("asserta", S(":-", self.t.var(), A("true")))])
        return S("catch", g, V(1), S("evb", V(1)))

    def prep(self):
        r = self.r
        self.newterms(r.choice([2, 3, 4]))
        tg = self.t
        base = [I(1), I(2), A("a"), A("b"), S("f", A("a")), S("f", V(1)), lst([I(1)]), NIL, F("1.0"), tg.bigint(), S("g", V(1), V(2)), I(3), A("c")]
        self.pool = r.sample(base, r.choice([1, 2, 3, 5, len(base)]))

    def dyn_clauses(self):
        out = []
        for _ in range(self.r.choice([0, 2, 4, 7])):
            self.newterms(3)
            c = self.dclause()
            if c[0] == "s" and c[1] == ":-" and c[2][1][0] != "v":
                out.append(Clause(c[2][0], c[2][1]))
            elif not (c[0] == "s" and c[1] == ":-"):
                out.append(Clause(c))
        return out

    def query(self):
        self.newterms(self.r.choice([2, 3, 4]))
        g = self.body(-1, 2, self.r.choice([1, 2, 3, 4]))
        return (g, [V(v) for v in vars_of(g)], self.r.choice([1, 4, 10, 10]))


def key_(h):
    return (h[1], len(h[2]) if h[0] == "s" else 0)


def dyn_test(r, tid):
    g = DynGen(r, "t%d_" % tid)
    g.prep()
    if r.random() < 0.4:
        g.preds = []
    cl = g.clauses()
    dyn = g.dyn_clauses()
    qs = [g.query() for _ in range(r.choice([2, 3, 4, 6]))]
    # after everything: what is in the database
    for n, ar in g.dp:
        h = S(n, *[V(i + 1) for i in range(ar)]) if ar else A(n)
        qs.append((S("clause", h, V(9)), [h, V(9)], 60))
    t = Test(cl, dyn, qs, dynkeys=[k for k in g.dp])
    t.modes = ("native", "consult", "meta")
    return t


def big_dyn_test(r, tid):
    """Many clauses, so that erased clauses are reclaimed while scans of older generations are alive."""
    p = "t%d_" % tid
    f = p + "f"
    n = r.choice([30, 80, 150, 300, 300, 1050])
    heavy = n > 200
    X, Y, Z = V(1), V(2), V(3)
    F1 = lambda x: S(f, x)
    keep = r.randint(1, n)
    def seq(*gs): return conj(gs)
    def loop(*gs): return S(";", conj(list(gs) + [A("fail")]), A("true"))
    qs = []
    ops = []
    scan = r.choice([F1(X), S("clause", F1(X), A("true")), S("retract", F1(X))])
    inner = []
    for _ in range(r.choice([1, 2, 3])):
        inner.append(r.choice([
            S("retractall", F1(Y)), S("retractall", F1(Y)) if heavy else loop(S("retract", F1(Y))), S("fill", A(f), I(r.choice([3, 40, 40 if heavy else n]))), S("retractall", F1(I(r.randint(1, n)))),
            S("asserta", F1(I(0))), S("assertz", F1(I(r.randint(1, 9)))), S("once", S("retract", F1(Z))), S("ev", X),
            S("abolish", S("/", A(f), I(1))) if r.random() < 0.2 else S("ev", A("x"))]))
    stop = r.choice([1, 2, 3] if heavy else [1, 2, 3, 5, 12])
    g0 = S("fill", A(f), I(n))
    for _ in range(r.choice([1, 2, 3])):
        g = seq(g0, scan, *inner) if r.random() < 0.6 else seq(scan, *inner)
        qs.append((g, [X], stop))
        if r.random() < 0.4 and not heavy:
            qs.append((seq(F1(X), S("=:=", S("mod", X, I(7)), I(0)), S("ev", X), A("fail")), [], 1))
        if r.random() < 0.4 and not heavy:
            qs.append((loop(S("retract", F1(X)), S("=:=", S("mod", X, I(50)), I(1)), S("ev", X)), [], 1))
    qs.append((S("countall", F1(X), Y), [Y], 2) if r.random() < 0.5 or heavy else (S("findall", X, F1(X), Y), [Y], 2))
    t = Test([], [], qs, dynkeys=[(f, 1)])
    t.modes = ("native", "consult", "meta")
    return t


# ---------------------------------------------------------------------------------------------
# P05

class SolGen(ProgGen):
    FE = dict(call_user=6, unify=4, ev=1.5, cut=0.7, ite=1, disj=2.5, neg=0.5, member=3, findall=4, findall4=1, bagof=4, setof=4, forall=1.5, countall=1,
              between=2, copy=0.5, once=0.5, compare=0.3, fail=0.4, typetest=0.3, solerr=0.3)

    def __init__(self, r, pfx):
        super().__init__(r, pfx, feats=SolGen.FE, levels=r.choice([1, 2, 3]), npreds=r.choice([2, 4]))
        self.w = Swarm(r, SolGen.FE, 0.75, always=("call_user", "unify") + r.choice([("findall",), ("bagof", "setof"), ("setof",), ("bagof",)]))
        self.exc = True

    def g_member(self, l, d):
        r = self.r
        items = [self.t.term(1, 0.15) for _ in range(r.choice([1, 2, 3, 4]))]
        return S("between", I(r.randint(0, 1)), I(r.randint(1, 3)), self.t.var()) if r.random() < 0.3 else alts(self.t.var(), items)

    def agg(self, name, l, d):
        if d <= 0:
            return None
        r = self.r
        g = self.sub(l, d)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            g = S("^", self.t.term(1, 0.8), g)
        v = self.t.var() if r.random() < 0.85 else lst([self.t.term(0, 0.5) for _ in range(r.randint(0, 2))])
        return S(name, self.t.term(1, 0.8), g, v)

    def g_bagof(self, l, d): return self.agg("bagof", l, d)
    def g_setof(self, l, d): return self.agg("setof", l, d)
    def g_findall4(self, l, d): return S("findall", self.t.term(1, 0.8), self.sub(l, d), self.t.var(), self.t.term(0, 0.5)) if d > 0 else None
    def g_countall(self, l, d): return S("countall", self.sub(l, d), self.t.var()) if d > 0 else None
    def g_solerr(self, l, d):
        r = self.r
        v = self.t.var()
        return S("catch", r.choice([S("findall", v, self.t.var(), V(2)), S("findall", v, I(4), V(2)), S("findall", v, A("true"), lst([A("a")], A("b"))), S("bagof", v, I(1), V(2)), S("setof", v, V(3), V(2)),
                                    S("bagof", v, S("^", V(3), V(4)), V(2)), S("setof", v, S("=", v, I(1)), A("foo"))]), V(1), S("evb", V(1)))

    def goal(self, l, d):
        # mostly ground witnesses: free variables are bound before a set predicate is reached
        g = super().goal(l, d)
        if g[0] == "s" and g[1] in ("bagof", "setof") and self.r.random() < 0.7:
            inner = g[2][1]
            while inner[0] == "s" and inner[1] == "^":
                inner = inner[2][1]
            fv = [v for v in vars_of(inner)]
            keep = self.r.sample(fv, min(len(fv), self.r.choice([1, 1, 2])))
            gs = [alts(V(v), [self.t.ground(1) for _ in range(self.r.choice([1, 2, 3]))]) for v in keep]
            tv = vars_of(g[2][0])
            g = S(g[1], g[2][0], ex([v for v in fv if v not in keep and v not in tv], conj(gs + [inner] if self.r.random() < 0.5 else [inner] + gs)), g[2][2])
        return g

    def newterms(self, nv):
        super().newterms(nv)
        self.t.atoms = ["a", "b", "a", "b", "c"]
        self.t.maxar = 2


def ex(vs, g):
    for v in vs:
        g = S("^", V(v), g)
    return g


def alts(v, items):
    g = S("=", v, items[-1])
    for x in reversed(items[:-1]):
        g = S(";", S("=", v, x), g)
    return g


def sol_test(r, tid):
    g = SolGen(r, "t%d_" % tid)
    cl = g.clauses()
    qs = []
    for _ in range(r.choice([2, 3])):
        g.newterms(r.choice([2, 3, 4]))
        goal = g.body(-1, 2, r.choice([1, 1, 2, 3]))
        qs.append((goal, [V(v) for v in vars_of(goal)], r.choice([1, 5, 12])))
    # facts with repeated keys: grouping
    nm = "t%d_k" % tid
    for _ in range(r.choice([3, 5, 8])):
        cl.append(Clause(S(nm, g.r.choice([A("a"), A("b"), I(1), S("f", A("a")), F("1.0")]), I(r.randint(1, 3)), r.choice([A("x"), A("y"), V(1), S("g", V(1))]) if r.random() < 0.25 else r.choice([A("x"), A("y"), I(2)]))))
    for _ in range(r.choice([1, 2])):
        a = r.sample([V(1), V(2), V(3)], 3)
        gg = S(nm, V(1), V(2), V(3))
        for v in a[1:]:
            if r.random() < 0.4:
                gg = S("^", v, gg)
        x = S(r.choice(["bagof", "setof"]), r.choice([a[0], S("-", a[0], a[1]), S("f", a[0], a[0]), A("z")]), gg, V(9))
        qs.append((x, [V(v) for v in vars_of(x)], 20))
    # facts whose keys hold variables that the template shares
    nm = "t%d_v" % tid
    key = lambda: r.choice([V(1), V(1), S("k", V(1)), S("k", V(1)), S("-", V(1), V(2)), S("-", V(1), V(1)), S("k", A("a")), S("k", V(2)), A("x")])
    arg = lambda: r.choice([V(1), V(1), V(2), S("g", V(1)), A("a"), I(1)])
    for _ in range(r.choice([2, 4, 6])):
        cl.append(Clause(S(nm, I(r.randint(1, 3)), arg(), key())))
    for _ in range(r.choice([1, 2])):
        gg = S(nm, V(1), V(2), V(3)) if r.random() < 0.8 else S("^", V(4), S(",", S(nm, V(1), V(2), V(3)), S("=", V(4), A("a"))))
        t = r.choice([S("-", V(1), V(2)), V(2), S("f", V(1), V(2)), V(1)])
        if r.random() < 0.15:
            gg = S("^", V(r.randint(1, 3)), gg)
        x = S(r.choice(["bagof", "setof", "bagof"]), t, gg, V(9))
        qs.append((x, [V(v) for v in vars_of(x)], 20))
    return Test(cl, queries=qs)


# ---------------------------------------------------------------------------------------------
# P06

class GvarGen(ProgGen):
    FE = dict(gassign=6, gassignb=5, glink=4, gread=6, gsize=1, ginc=3, gbit=1.5, gerr=0.6, unify=3, ev=1, cut=0.6, ite=1, disj=3, neg=1, soft=0.4,
              gfail=4, gcatch=2, findall=0.6, call_user=2, once=0.6, forall=0.3)

    def __init__(self, r, pfx):
        super().__init__(r, pfx, feats=GvarGen.FE, levels=r.choice([1, 2]), npreds=r.choice([2, 3]))
        self.w = Swarm(r, GvarGen.FE, 0.75, always=("gassign", "gread", r.choice(["gassignb", "glink"]), r.choice(["disj", "gfail"])))
        self.exc = True
        self.names = [pfx + "g%d" % i for i in range(r.choice([1, 2, 2, 3]))]
        self.parr = r.choice([0.0, 0.3, 0.6])
        self.pidx = r.choice([0.1, 0.3, 0.5]) if self.parr else 0.03
        self.psel = r.choice([0.0, 0.05, 0.3])
        self.pind = r.choice([0.0, 0.1, 0.3])
        self.pauto = r.choice([0.2, 0.5, 0.9])

    def newterms(self, nv):
        super().newterms(nv)
        self.t.atoms = ["a", "b", "c", "k"]
        self.t.funs = ["f", "g", "h"]
        self.t.maxar = 3

    def idx(self):
        r = self.r
        if r.random() < self.pind:
            return self.gname(1)
        return I(r.choice([0, 0, 1, 1, 2, 3, 5, 8, -1]) if r.random() < 0.9 else self.r.randint(0, 40))

    def gname(self, d=0):
        r = self.r
        n = r.choice(self.names)
        g = A(n)
        if r.random() < self.pidx:
            g = S(n, *[self.idx() for _ in range(r.choice([1, 1, 1, 2]))])
        while d < 3 and r.random() < self.psel:
            g = S("-", g, self.idx() if r.random() < 0.3 else I(r.randint(1, 3)))
            d += 1
        return g

    def value(self, d=1):
        r = self.r
        if r.random() < self.parr and d < 3:
            op = r.choice(["g_array", "g_array_extend"]) if r.random() > self.pauto else "g_array_auto"
            x = r.random()
            if x < 0.3:
                return S(op, I(r.choice([1, 2, 3, 4, 7]) if r.random() < 0.95 else r.choice([0, -1, 20])))
            if x < 0.6:
                return S(op, I(r.choice([1, 2, 3])), self.value(d + 1))
            return S(op, lst([self.value(d + 1) for _ in range(r.choice([1, 2, 3, 5]))], NIL if r.random() < 0.97 else self.t.var()))
        if r.random() < 0.25:
            return I(r.randint(-3, 9))
        return self.t.term(2, 0.4)

    def g_gassign(self, l, d): return S("g_assign", self.gname(), self.value())
    def g_gassignb(self, l, d): return S("g_assignb", self.gname(), self.value())
    def g_glink(self, l, d): return S("g_link", self.gname(), self.value() if self.r.random() < 0.7 else self.t.var())
    def g_gread(self, l, d):
        v = self.t.var()
        return S(",", S("g_read", self.gname(), v), S("ev", v)) if self.r.random() < 0.5 else S("g_read", self.gname(), self.t.term(1, 0.8))
    def g_gsize(self, l, d):
        v = self.t.var()
        return S(";", S("->", S("g_array_size", self.gname(), v), S("ev", v)), S("ev", A("none")))
    def num(self): return self.t.var() if self.r.random() < 0.85 else self.t.const()
    def g_ginc(self, l, d):
        r = self.r
        f = r.choice(["g_inc", "g_dec"])
        x = r.random()
        g = self.gname()
        return S(f, g) if x < 0.3 else S(f, g, self.num()) if x < 0.6 else S(f + "o", g, self.num()) if x < 0.8 else S(f, g, self.num(), self.num())
    def g_gbit(self, l, d):
        r = self.r
        f = r.choice(["g_set_bit", "g_reset_bit", "g_test_set_bit", "g_test_reset_bit"])
        g = S(f, self.gname(), I(r.choice([0, 1, 2, 5, 20, 28])) if r.random() < 0.95 else r.choice([self.t.var(), I(-1), A("a")]))
        return g if "test" not in f else S(";", S("->", g, S("ev", A("yes"))), S("ev", A("nope")))
    def g_gfail(self, l, d):
        return S(";", S(",", self.body(l, d - 1, self.r.choice([1, 2, 3])), A("fail")), A("true")) if d > 0 else None
    def g_gcatch(self, l, d):
        if d <= 0:
            return None
        r = self.r
        b = self.body(l, d - 1, r.choice([1, 2, 3]))
        if r.random() < 0.4:
            b = S(",", b, S("throw", A("x")))
        return S("catch", b, V(9), S("evb", V(9)))
    def g_gerr(self, l, d):
        r = self.r
        n = r.choice([self.t.var(), I(3), S(self.names[0], A("a")), S(self.names[0], self.t.var()), S(self.names[0], I(2000000)), S("-", A(self.names[0]), I(9)), F("1.0")])
        return S(r.choice(["g_assign", "g_read", "g_link", "g_assignb", "g_inc"]), n, self.num())

    def clauses(self):
        out = []
        for n, ar, l in self.preds:
            for _ in range(self.r.choice([1, 2])):
                self.newterms(3)
                out.append(Clause(S(n, *[self.t.term(1, 0.8) for _ in range(ar)]) if ar else A(n), self.body(l, 2, self.r.choice([1, 2, 3]))))
        return out

    def history(self):
        """A history of undoable and lasting assignments to one small array, nested in choice points."""
        r = self.r
        a = r.choice(self.names)
        n = r.choice([1, 2, 3])
        kinds = r.sample(["ab", "ab", "ab", "al", "a", "inc", "ext", "extb", "newb", "wholeb", "auto", "bit"], r.choice([2, 3, 4]))
        val = lambda: r.choice([A("k"), I(r.randint(0, 9)), S("f", A("a"), I(r.randint(0, 3))), lst([I(1), A("b")])])
        elem = lambda: S(a, I(r.choice([0, 0, r.randint(0, n - 1)])))
        def op():
            k = r.choice(kinds)
            if k == "ab": return S("g_assignb", elem(), val())
            if k == "al": return S("g_link", elem(), val())
            if k == "a": return S("g_assign", elem(), val())
            if k == "inc": return S("catch", S("g_inc", elem()), self.t.var(), A("true"))
            if k == "bit": return S("catch", S("g_set_bit", elem(), I(r.randint(0, 6))), self.t.var(), A("true"))
            if k == "ext": return S("g_assign", A(a), S("g_array_extend", I(n + r.choice([0, 1, 3, 20, 60]))))
            if k == "extb": return S("g_assignb", A(a), S("g_array_extend", I(n + r.choice([0, 1, 3, 20]))))
            if k == "newb": return S("g_assignb", A(a), S("g_array", I(n), val()))
            if k == "wholeb": return S("g_assignb", A(a), val())
            return S("g_assign", elem(), S("g_array_auto", I(1)))
        def hist(d):
            gs = []
            for _ in range(r.choice([1, 2, 3, 4])):
                if d and r.random() < 0.4:
                    gs.append(S(";", conj(hist(d - 1) + [A("fail")]), A("true")))
                else:
                    gs.append(op())
            return gs
        def show(i):
            return S("catch", S(",", S("g_read", S(a, I(i)), V(40 + i)), S("ev", V(40 + i))), V(50), S("evb", V(50)))
        init = S("g_assign", A(a), S(r.choice(["g_array", "g_array", "g_array_auto"]), I(n), val()))
        return conj([init, S(";", S("catch", conj(hist(2) + [A("fail")]), V(9), S("evb", V(9))), A("true"))] + [show(i) for i in range(n)])

    def query(self):
        self.newterms(self.r.choice([2, 3, 4]))
        r = self.r
        if r.random() < 0.3:
            g = self.history()
            return (g, [V(v) for v in vars_of(g)], 1)
        gs = [self.body(-1, 2, r.choice([2, 3, 4, 6]))]
        if r.random() < 0.8:
            gs = [S(";", S("catch", conj(gs), V(9), S("evb", V(9))), A("true"))]
        if r.random() < 0.5:
            gs += [S("g_read", A(n), V(20 + i)) for i, n in enumerate(self.names)]
        g = conj(gs)
        return (g, [V(v) for v in vars_of(g)], r.choice([1, 3, 6]))


def gvar_test(r, tid):
    g = GvarGen(r, "t%d_" % tid)
    cl = g.clauses()
    qs = [g.query() for _ in range(r.choice([2, 3, 4]))]
    qs.append((conj([S("g_read", A(n), V(i + 1)) for i, n in enumerate(g.names)]), [V(i + 1) for i in range(len(g.names))], 1))
    t = Test(cl, queries=qs)
    t.modes = ("native", "meta")
    return t
