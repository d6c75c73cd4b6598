"""Random programs that go through the C interface (P19): scripts run in C (see "the C interface" in spec/Machine.tla),
called from Prolog and calling Prolog again."""
from plterm import *
from machine import Test
from gen import ProgGen, CONTROL

WEIGHTS = dict(CONTROL)
WEIGHTS.update(scr=9, scrnd=3)
# goals that are predicates in native code, called without call/N in between
NATIVE = ["between", "unify", "catch", "findall", "once", "arg", "functor"]


class CifGen(ProgGen):
    def __init__(self, r, pfx, **kw):
        super().__init__(r, pfx, feats=WEIGHTS, exc=True, **kw)
        self.w.setdefault("scr", 9)
        self.keep = r.choice([0.0, 0.3, 0.6])
        self.dirty = r.random() < 0.4

    def term1(self): return self.t.term(1, 0.6)

    def qgoal(self, l, d):
        r = self.r
        x = r.random()
        g = None
        if x < 0.45:
            g = self.user(l)
        elif x < 0.6:
            g = S("between", I(1), I(r.randint(0, 4)), self.t.var())
        elif x < 0.7:
            g = S("throw", self.ball()) if r.random() < 0.5 else S("catch", self.sub(l, d), self.t.term(1, 0.8), self.sub(l, d))
        if g is None:
            g = self.sub(l, d)
        return g if g[0] in ("a", "s") else S("call", g)

    def simple(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return S("l", self.t.term(2, 0.8))
        if x < 0.75:
            return S("u", self.t.var(), self.t.term(1, 0.6))
        return S("m", self.t.var(), self.t.term(2, 0.5))

    def ops(self, l, d, depth, n):
        r, out = self.r, []
        for _ in range(n):
            if depth >= 3 or r.random() < 0.45:
                out.append(self.simple())
            else:
                out += self.query_block(l, d, depth)
        return out

    def grounded(self, g):
        s = {v: self.t.ground(1) for v in vars_of(g)}
        return subst(g, s)

    def query_block(self, l, d, depth):
        r = self.r
        rec = r.random() < 0.65
        fm = "r" if rec and r.random() < 0.85 else r.choice("ck")
        goal = self.qgoal(l, d)
        if r.random() < 0.2:
            fm, goal = "g", self.grounded(goal)
        out = [S("q", goal, A("r" if rec else "n"), A(fm))]
        if fm == "g":                              # nothing is bound inside it
            for _ in range(r.choice([0, 1, 2, 3])):
                out += [S("l", self.t.term(1, 0.8)), A("n")]
            return out + [S("e", A("c"))]
        last = depth == 0
        how = r.choice("rrc") if rec else "c"
        if depth == 0 and r.random() < self.keep:
            how = "k"
        for i in range(r.choice([0, 0, 1, 2, 3])):
            out += self.ops(l, d, depth + 1, r.choice([0, 1, 1]))
            out.append(A("n"))
        out += self.ops(l, d, depth + 1, r.choice([0, 1, 1, 2]))
        if r.random() < 0.06:
            out.append(S("u", A("a"), r.choice([A("b"), self.t.term(1, 0.5)])))
        out.append(S("e", A(how)))
        return out

    def script(self, l, d):
        r = self.r
        out = self.ops(l, d, 0, r.choice([1, 1, 2, 3]))
        x = r.random()
        if x < 0.12 and out and out[-1][1] == "e":
            out.pop()                              # left open: kept at the end
        elif x < 0.2:
            out.append(S("g", self.qgoal(l, d)))
        elif x < 0.25:
            out.append(S("x", self.ball()))
        elif x < 0.29:
            out.append(A("f"))
        return S("s", *out) if out else A("s")

    def g_scr(self, l, d): return S("scr", self.script(l, d - 1)) if d > 0 else None

    def g_scrnd(self, l, d):
        n = self.r.choice([0, 1, 2, 2, 3, 4])
        return S("scrnd", S("n", *[self.script(l, d - 1) for _ in range(n)]) if n else A("n")) if d > 0 else None


def cif_test(r, tid):
    g = CifGen(r, "t%d_" % tid, levels=r.choice([2, 3, 3]), npreds=r.choice([3, 4, 6]))
    g.maxdepth = r.choice([1, 2, 2, 3])
    cl = g.clauses()
    qs = [g.query() for _ in range(r.choice([1, 2, 2]))]
    for _ in range(2):
        g.newterms(r.choice([2, 3, 4]))
        goal = conj([S("scr", g.script(-1, 2)), S("ev", lst([V(i) for i in range(1, 4)]))])
        qs.append((goal, [V(v) for v in vars_of(goal)], r.choice([1, 5, 12])))
    return Test(cl, queries=qs)
