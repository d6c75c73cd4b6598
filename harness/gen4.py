"""Random grammars (P21)."""
from plterm import *
from machine import Test
from gen import Swarm, TermGen, ProgGen

DCG = dict(nt=7, term=7, var=1, nil=1, cut=1.5, braces=3, disj=3, bar=0.7, ite=2, it=0.7, soft=1, neg=1.5, call=1, callp=0.7, conj=1, phrase=0.5)
SYMS = [A("a"), A("b"), A("c")]


class DcgGen:
    def __init__(self, r, pfx):
        self.r, self.p = r, pfx
        self.w = Swarm(r, DCG, 0.65, always=("nt", "term"))
        self.codes = r.random() < 0.25
        self.levels = r.choice([1, 2, 3])
        self.nts = []
        for l in range(self.levels):
            for i in range(r.choice([1, 2])):
                self.nts.append(("%sn%d_%d" % (pfx, l, i), r.choice([0, 0, 1, 2]), l))
        self.recursive = r.random() < 0.5
        self.maxdepth = r.choice([1, 1, 2])
        self.pg = ProgGen(r, pfx + "x", feats=dict(unify=3, ev=5, typetest=2, fail=1, true=1, cut=0.5, neg=1, disj=1, ite=1, call_user=0.01), levels=1, npreds=1)
        self.pg.preds = []
        self.perr = r.choice([0, 0, 0, 0.1])

    def sym(self):
        if self.codes:
            return I(97 + self.r.randint(0, 2))
        return self.r.choice(SYMS) if self.r.random() < 0.85 else self.t.term(1, 0.6)

    def terminals(self, tail=None):
        return lst([self.sym() for _ in range(self.r.choice([1, 1, 1, 2, 3]))])

    def nt(self, level, args=None):
        c = [n for n in self.nts if n[2] > level]
        if not c:
            return None
        n, ar, _ = self.r.choice(c)
        return S(n, *[self.t.term(1, 0.75) for _ in range(ar)]) if ar else A(n)

    def body(self, l, d, n=None):
        r = self.r
        n = n if n is not None else r.choice([1, 1, 2, 2, 3])
        items = [self.item(l, d) for _ in range(n)]
        out = items[-1]
        for x in reversed(items[:-1]):
            out = S(",", x, out)
        return out

    def item(self, l, d):
        r = self.r
        if r.random() < self.perr:
            return r.choice([I(3), lst([A("a")], A("b")), lst([A("a")], self.t.var())] + ([S("{}", I(3))] if d == self.maxdepth else []))
        for _ in range(10):
            g = getattr(self, "i_" + self.w.pick(r))(l, d)
            if g is not None:
                return g
        return self.terminals()

    def sub(self, l, d): return self.body(l, d - 1, self.r.choice([1, 1, 2]))
    def i_nt(self, l, d): return self.nt(l)
    def i_term(self, l, d): return self.terminals()
    def i_var(self, l, d): return self.t.var() if self.perr else None
    def i_nil(self, l, d): return NIL
    def i_cut(self, l, d): return A("!")
    def i_braces(self, l, d):
        return S("{}", self.pg.body(5, 1, self.r.choice([1, 1, 2])))
    def i_conj(self, l, d): return S(",", self.sub(l, d), self.sub(l, d)) if d > 0 else None
    def i_disj(self, l, d): return S(";", self.sub(l, d), self.sub(l, d)) if d > 0 else None
    def i_bar(self, l, d): return S("|", self.sub(l, d), self.sub(l, d)) if d > 0 else None
    def i_ite(self, l, d): return S(";", S("->", self.sub(l, d), self.sub(l, d)), self.sub(l, d)) if d > 0 else None
    def i_it(self, l, d): return S("->", self.sub(l, d), self.sub(l, d)) if d > 0 else None
    def i_soft(self, l, d): return S(";", S("*->", self.sub(l, d), self.sub(l, d)), self.sub(l, d)) if d > 0 else None
    def i_neg(self, l, d): return S("\\+", self.sub(l, d)) if d > 0 else None
    def i_call(self, l, d):
        g = self.nt(l)
        if g is None:
            return None
        if g[0] == "a":
            return S("call", g)
        k = self.r.randint(0, len(g[2]))
        return S("call", S(g[1], *g[2][:k]) if k else A(g[1]), *g[2][k:])
    def i_callp(self, l, d): return S("call", S("phrase", self.sub(l, d))) if d > 0 else None
    def i_phrase(self, l, d): return S("phrase", self.sub(l, d)) if d > 0 else None

    def newterms(self, n):
        self.t = TermGen(self.r, n)
        self.pg.t = self.t

    def clauses(self):
        r, out = self.r, []
        for n, ar, l in self.nts:
            k = r.choice([1, 2, 2, 3])
            for i in range(k):
                self.newterms(r.choice([1, 2, 3]))
                h = S(n, *[self.t.term(1, 0.75) for _ in range(ar)]) if ar else A(n)
                perr, self.perr = self.perr, 0
                b = self.body(l, self.maxdepth)
                self.perr = perr
                if self.recursive and i == 0 and r.random() < 0.7:
                    h1 = S(n, *[self.t.var() for _ in range(ar)]) if ar else A(n)
                    b = S(",", self.terminals(), S(",", b, h1)) if r.random() < 0.5 else S(",", self.terminals(), h1)
                elif r.random() < 0.4:
                    b = self.terminals() if r.random() < 0.7 else NIL
                push = self.terminals() if r.random() < 0.12 else None
                if push is not None and r.random() < 0.1:
                    push = NIL
                out.append(DcgClause(h, b, push))
        return out

    def lists(self):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 5])
        x = r.random()
        syms = [self.sym() if r.random() < 0.9 else self.t.var() for _ in range(n)]
        if x < 0.6:
            s0 = lst(syms)
        elif x < 0.8:
            s0 = lst(syms[:2], V(7))
        else:
            s0 = V(7)
        y = r.random()
        s = V(8) if y < 0.5 else (NIL if y < 0.7 else (lst(syms[r.randint(0, n):]) if y < 0.95 else lst([self.sym()], V(8))))
        return s0, s

    def query(self):
        r = self.r
        self.newterms(r.choice([1, 2, 3]))
        s0, s = self.lists()
        x = r.random()
        b = self.body(-1, self.maxdepth, r.choice([1, 1, 2])) if x < 0.5 else self.nt(-1)
        if r.random() < 0.04:
            b = r.choice([V(1), I(1), S(",", A("!"), I(1))])
        if x < 0.35:
            g = S("phrase", b, s0, s)
        elif x < 0.6:
            g = S("phrase", b, s0)
        elif x < 0.9 or b[0] not in "as":
            n = self.nt(-1)
            g = ["s", n[1], (n[2] if n[0] == "s" else []) + [s0, s]]
        else:
            nt = self.p + "z"
            rule = S("-->", A(nt), b)
            if r.random() < 0.3:
                rule = S("-->", S(",", A(nt), r.choice([self.terminals(), V(5), A("foo"), lst([A("a")], A("b"))])), b)
            g = S(",", S("x_dcg", rule), S("findall", S("-", V(7), V(8)), S("phrase", A(nt), s0, s), V(9)))
        if r.random() < 0.3:
            g = S("catch", g, V(20), S("evb", V(20)))
        return (g, [V(v) for v in vars_of(g)], r.choice([1, 3, 6]))


def dcg_test(r, tid):
    g = DcgGen(r, "t%d_" % tid)
    cl = g.clauses()
    t = Test(cl, queries=[g.query() for _ in range(r.choice([2, 3, 4]))])
    t.dynkeys = sorted(set(t.dynkeys) | {("t%d_z" % tid, 2)})
    return t
