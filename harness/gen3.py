"""Random programs around groups of built-in predicates: lists (P13), terms (P08), order (P07), atoms (P12), arithmetic (P09)."""
import os
from plterm import *
from plread import read_clauses
from machine import Test
from gen import ProgGen, Swarm

SPEC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec")


def lists_lib():
    return read_clauses(open(os.path.join(SPEC, "lists.pl")).read())


class BipGen(ProgGen):
    """Programs whose goals are mostly calls of the built-ins of FE, within little control."""
    CTL = dict(ev=4, unify=2, cut=0.7, ite=0.8, disj=2, neg=0.6, call_user=1.5, bfail=2, bcatch=1.5, findall=0.7, once=0.7, call=0.4)
    ALWAYS = ("ev",)

    def __init__(self, r, pfx):
        fe = dict(self.CTL, **self.FE)
        super().__init__(r, pfx, feats=fe, levels=r.choice([1, 1, 2]), npreds=r.choice([1, 2]))
        self.w = Swarm(r, fe, 0.6, always=self.ALWAYS + (r.choice(list(self.FE)),))
        self.exc = True
        self.perr = r.choice([0.0, 0.0, 0.03, 0.15])

    def g_bfail(self, l, d):
        return S(";", S(",", self.body(l, d - 1, self.r.choice([1, 2, 3])), A("fail")), A("true")) if d > 0 else None

    def g_bcatch(self, l, d):
        return S("catch", self.body(l, d - 1, self.r.choice([1, 2])), V(9), S("evb", V(9))) if d > 0 else None

    def clauses(self):
        out = []
        for n, ar, l in self.preds:
            for _ in range(self.r.choice([1, 2])):
                self.newterms(3)
                out.append(Clause(S(n, *[self.t.term(1, 0.8) for _ in range(ar)]) if ar else A(n), self.body(l, 2, self.r.choice([1, 2, 3]))))
        return out

    def query(self):
        r = self.r
        self.newterms(r.choice([2, 3, 4]))
        g = self.body(-1, 2, r.choice([1, 1, 2, 2, 3, 4]))
        return (g, [V(v) for v in vars_of(g)], r.choice([1, 4, 9, 30]))

    def wrong(self):
        return self.r.choice([self.t.var(), I(3), I(-1), A("a"), S("f", A("a")), F("1.0"), NIL, lst([I(1)], A("b")), A("[]")])

    def some(self, *alts):
        return self.wrong() if self.r.random() < self.perr else self.r.choice(alts)

    @classmethod
    def test(cls, r, tid):
        g = cls(r, "t%d_" % tid)
        cl = g.clauses()
        return Test(cl, queries=[g.query() for _ in range(r.choice([2, 3, 4]))])


# ---------------------------------------------------------------------------------------------
# P13

class ListGen(BipGen):
    FE = dict(append=5, member=5, memberchk=3, reverse=3, delete=2, select=3, subtract=2, permutation=1.5, prefix=2, suffix=2, sublist=1.5,
              last=2, flatten=2, length=4, nth=4, maxmin=2, maplist=3)

    def el(self, pv=0.4):
        return self.t.term(self.r.choice([0, 0, 1]), pv)

    def list(self, mx=4, pv=0.4):
        r = self.r
        if r.random() < self.perr:
            return self.wrong()
        x = r.random()
        if x < 0.22:
            return self.t.var()
        els = [self.el(pv) for _ in range(r.randint(0, mx))]
        if r.random() < 0.72:
            return lst(els)
        vs = vars_of(lst(els))
        return lst(els, V(r.choice(vs)) if vs and r.random() < 0.3 else self.t.var())

    def proper(self, mx=4, pv=0.4):
        return lst([self.el(pv) for _ in range(self.r.randint(0, mx))])

    def v_or(self, f):
        return self.t.var() if self.r.random() < 0.5 else f()

    def g_append(self, l, d): return S("append", self.list(3), self.list(3), self.v_or(lambda: self.list(5)))
    def g_member(self, l, d): return S("member", self.el(0.6), self.list(5))
    def g_memberchk(self, l, d): return S("memberchk", self.el(0.5), self.list(5))
    def g_reverse(self, l, d): return S("reverse", self.list(4), self.v_or(self.list))
    def g_delete(self, l, d): return S("delete", self.proper(5, 0.3), self.el(), self.v_or(self.list))
    def g_select(self, l, d): return S("select", self.el(0.6), self.list(4), self.v_or(self.list))
    def g_subtract(self, l, d): return S("subtract", self.proper(4, 0.3), self.list(4, 0.3), self.v_or(self.list))
    def g_permutation(self, l, d): return S("permutation", self.proper(3), self.v_or(lambda: self.list(3)))
    def g_prefix(self, l, d): return S("prefix", self.list(3), self.list(4))
    def g_suffix(self, l, d): return S("suffix", self.list(3), self.list(4))
    def g_sublist(self, l, d): return S("sublist", self.list(3), self.list(4))
    def g_last(self, l, d): return S("last", self.list(4), self.el(0.7))
    def g_flatten(self, l, d):
        r = self.r
        def nest(k):
            if k == 0 or r.random() < 0.4:
                return r.choice([self.t.const(), self.t.var(), NIL, self.el()])
            return lst([nest(k - 1) for _ in range(r.randint(0, 3))], NIL if r.random() < 0.9 else self.t.const())
        return S("flatten", nest(3), self.v_or(self.list))

    def g_length(self, l, d):
        return S("length", self.list(5), self.some(self.t.var(), I(self.r.randint(0, 6)), I(-1)))

    def g_nth(self, l, d):
        return S(self.r.choice(["nth", "nth0", "nth1"]), self.some(self.t.var(), I(self.r.randint(-1, 5))), self.list(5), self.el(0.7))

    def g_maxmin(self, l, d):
        r = self.r
        return S(r.choice(["max_list", "min_list", "sum_list"]), lst([I(r.randint(-9, 9)) if r.random() > 0.05 else self.wrong() for _ in range(r.randint(0, 6))]),
                 self.t.var() if r.random() < 0.8 else I(r.randint(-5, 5)))

    def g_maplist(self, l, d):
        r = self.r
        n = r.choice([1, 2, 2, 3, 4])
        g = {1: [A("ev"), A("var"), S("=", self.el()), A("atom"), S("append", self.proper(1), self.proper(1)), S("member", self.el())],
             2: [A("="), S("append", self.proper(2)), A("member"), A("=="), S("f", self.el()), A("compare"), A("copy_term"), A("length")],
             3: [A("append"), A("select"), A("functor"), A("arg"), A("compare")],
             4: [A("t_none"), A("foo"), S("call", A("append"))]}[n]
        goal = r.choice(g)
        if goal == A("compare") and n == 2:
            goal = S("compare", self.t.var())
        k = r.randint(0, 3)
        ls = []
        for _ in range(n):
            x = r.random()
            ls.append(self.t.var() if x < 0.25 else lst([self.el(0.5) if r.random() < 0.7 else lst([self.el()]) for _ in range(k if r.random() < 0.85 else r.randint(0, 3))],
                                                     NIL if r.random() < 0.85 else self.t.var()))
        return S("maplist", goal, *ls)

    def newterms(self, nv):
        super().newterms(nv)
        self.t.atoms = ["a", "b", "[]", "c"]
        self.t.funs = ["f", "g", "-"]
        self.t.maxar = 2


def list_test(r, tid):
    t = ListGen.test(r, tid)
    return t


# ---------------------------------------------------------------------------------------------
# P08

class TermBipGen(BipGen):
    FE = dict(uni=5, nuni=2, occ=3, functor=4, arg=4, univ=4, copy=4, tvars=3, tvars3=2, subsumes=4, test=3, ground=1, setarg=2, setargb=2,
              numbervars=1, bindvars=1.2)

    def __init__(self, r, pfx):
        super().__init__(r, pfx)
        self.depth = r.choice([1, 2, 2, 3, 4])
        self.pv = r.choice([0.2, 0.35, 0.5, 0.7])

    def newterms(self, nv):
        super().newterms(self.r.choice([nv, 2, 6]))
        self.t.big = self.t.floats = self.r.random() < 0.3

    def tm(self, pv=None):
        return self.t.term(self.depth, self.pv if pv is None else pv)

    def similar(self, t):
        """The same term with some sub-terms replaced by variables or other terms."""
        r = self.r
        if r.random() < 0.15:
            return self.t.var()
        if r.random() < 0.05:
            return self.t.term(1, 0.4)
        if t[0] == "s":
            return S(t[1], *[self.similar(a) for a in t[2]])
        return t

    def pair(self):
        t = self.tm()
        return t, (self.similar(t) if self.r.random() < 0.7 else self.tm())

    def out(self, f=None):
        return self.t.var() if self.r.random() < 0.7 else (f or self.tm)()

    def g_uni(self, l, d): return S("=", *self.pair())
    def g_nuni(self, l, d): return S("\\=", *self.pair())
    def g_occ(self, l, d): return S("unify_with_occurs_check", *self.pair())

    def g_functor(self, l, d):
        r = self.r
        if r.random() < 0.5:
            return S("functor", self.tm(0.1), self.out(self.t.const), self.out(lambda: I(r.randint(0, 4))))
        v = self.t.var()
        n = r.choice([0, 1, 2, 3, 5, 254, 255, 256, 257, 1000, -1])
        g = S("functor", v, self.some(A(r.choice(["f", ".", "[]", "a", "-"])), self.t.const()), self.some(I(n), I(r.randint(0, 3))))
        if n > 20:
            return S(",", g, S(",", S("arg", I(r.choice([1, 254, 255, 256])), v, self.t.const()), S("functor", v, V(8), V(9))))
        return g

    def g_arg(self, l, d): return S("arg", self.some(I(self.r.randint(0, 4)), I(self.r.randint(1, 3))), self.some(self.tm(0.05)), self.out())

    def g_univ(self, l, d):
        r = self.r
        if r.random() < 0.5:
            return S("=..", self.tm(0.05), self.out(lambda: lst([self.tm() for _ in range(r.randint(0, 3))], NIL if r.random() < 0.7 else self.t.var())))
        if r.random() < 0.04:
            n = r.choice([253, 254, 255, 256])
            return S("\\+", S("\\+", conj([S("functor", V(30), A("f"), I(n - 1)), S("=..", V(30), C(A("f"), V(31))), S("=..", V(32), C(A("g"), C(A("x"), V(31)))),
                                          S("functor", V(32), V(33), V(34)), S("ev", V(34))])))
        return S("=..", self.t.var(), self.some(lst([self.some(A(r.choice(["f", ".", "g", "a"])), self.t.const(), self.tm())] + [self.tm() for _ in range(r.randint(0, 4))],
                                                    self.t.var() if r.random() < 0.1 else NIL)))

    def g_copy(self, l, d): return S("copy_term", *self.pair()) if self.r.random() < 0.5 else S("copy_term", self.tm(), self.t.var())
    def g_tvars(self, l, d): return S("term_variables", self.tm(), self.out(lambda: lst([self.t.var() for _ in range(self.r.randint(0, 3))], NIL if self.r.random() < 0.8 else self.t.var())))
    def g_tvars3(self, l, d): return S("term_variables", self.tm(), self.out(), self.out())
    def g_subsumes(self, l, d): return S("subsumes_term", *self.pair())
    def g_test(self, l, d):
        return S(self.r.choice(["var", "nonvar", "atom", "integer", "float", "number", "atomic", "compound", "callable", "is_list", "list", "partial_list", "list_or_partial_list"]), self.tm())
    def g_ground(self, l, d): return S("ground", self.tm(self.r.choice([0.0, 0.05, 0.3])))
    def g_setarg(self, l, d): return S("x_setarg", self.some(I(self.r.randint(0, 4)), I(1)), self.some(self.tm(0.05)), self.tm(), self.t.var())
    def g_setargb(self, l, d):
        u = self.r.random() < 0.5
        return S("x_setargb", self.some(I(self.r.randint(0, 4)), I(1)), self.some(self.tm(0.05)), self.tm() if u else self.some(self.t.const()),
                 self.some(A("true" if u else "false")), self.t.var(), self.t.var())
    def g_numbervars(self, l, d):
        r = self.r
        return S("numbervars", self.tm()) if r.random() < 0.2 else S("numbervars", self.tm(), self.some(I(r.choice([0, 0, 1, 5, 25, 26]))), self.out(lambda: I(r.randint(0, 6))))
    def g_bindvars(self, l, d):
        r = self.r
        def name(): return r.choice([S("$VAR", I(r.randint(0, 4))), S("$VARNAME", A(r.choice(["A", "B", "C", "D1", "Z9", "A1"]))), S("=", A(r.choice(["A", "B", "E", "x"])), self.t.var()), self.tm(0.2)])
        os = [r.choice([A("numbervars"), A("namevars"), S("from", I(r.choice([0, 1, 3, 25, 26, 51]))), S("next", self.out(lambda: I(r.randint(0, 5)))),
                        S("exclude", lst([name() for _ in range(r.randint(0, 3))]))]) for _ in range(r.randint(0, 4))]
        return S("bind_variables", self.tm(), lst(os))


# ---------------------------------------------------------------------------------------------
# P07

class OrderGen(BipGen):
    FE = dict(compare=5, cmpop=5, eq=3, sort=4, msort=3, keysort=4, sort1=3, setof=1)
    FLOATS = ["0.0", "1.0", "-1.5", "2.0", "1.0e+20", "3.25", "-1.0e+20", "1.5", "1024.0", "-3.25", "1.0e-10", "100.0"]
    NAMES = ["a", "b", "aa", "ab", "a1", "B", "A", "", "[]", "{}", "_", "!", "z", "é", "Z", "hello", "hellp", "hell", ".", "-", "+", "ÿ", "abcdefghijklmnop", "abcdefghijklmnoq"]

    def newterms(self, nv):
        super().newterms(nv)
        r = self.r
        self.pool = [self.atom_of(r.choice(["int", "flt", "big", "atm", "atm", "str", "str", "lst"])) for _ in range(r.choice([3, 5, 9]))]
        self.pvar = r.choice([0, 0, 0.05, 0.2])

    def atom_of(self, k, d=2):
        r = self.r
        if k == "int": return I(r.choice([0, 1, -1, 2, 3, 10, 9, 100, -10, r.randint(-50, 50)]))
        if k == "flt": return F(r.choice(self.FLOATS))
        if k == "big": return self.t.bigint()
        if k == "atm": return A(r.choice(self.NAMES))
        if k == "lst": return lst([self.atom_of(r.choice(["int", "flt", "atm", "big"])) for _ in range(r.randint(1, 3))], r.choice([NIL, A("a"), I(1)]))
        return S(r.choice(["f", "g", "ff", "a", "-", "."]), *[self.atom_of(r.choice(["int", "flt", "atm", "big", "atm"] + (["str", "lst"] if d else [])), d - 1) for _ in range(r.choice([1, 1, 2, 2, 3, 9]))])

    def tm(self):
        r = self.r
        if r.random() < self.pvar: return self.t.var()
        if r.random() < 0.75: return r.choice(self.pool)
        t = r.choice(self.pool)
        if t[0] == "s" and r.random() < 0.7:           # a neighbour in the order
            as_ = list(t[2])
            i = r.randrange(len(as_))
            as_[i] = self.tm()
            return S(t[1], *as_)
        return self.atom_of(r.choice(["int", "flt", "big", "atm", "str", "lst"]))

    def items(self):
        r = self.r
        return [self.tm() for _ in range(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 30]))]

    def g_compare(self, l, d): return S("compare", self.some(self.t.var(), A(self.r.choice(["<", "=", ">"]))), self.tm(), self.tm())
    def g_cmpop(self, l, d): return S(self.r.choice(["@<", "@=<", "@>", "@>="]), self.tm(), self.tm())
    def g_eq(self, l, d): return S(self.r.choice(["==", "\\=="]), self.tm(), self.tm())
    def g_sort(self, l, d): return S("sort", self.some(lst(self.items())), self.out())
    def g_msort(self, l, d): return S("msort", self.some(lst(self.items())), self.out())
    def out(self): return self.t.var() if self.r.random() < 0.85 else self.some(lst(self.items()[:3], self.t.var()))
    def pairs(self):
        ks = [self.tm() for _ in range(self.r.choice([1, 2, 4]))]
        return lst([S("-", self.r.choice(ks), I(i)) if self.r.random() > self.perr * 0.3 else self.wrong() for i in range(self.r.choice([0, 1, 2, 4, 7, 13, 20, 33]))],
                   NIL if self.r.random() > self.perr * 0.3 else self.wrong())
    def g_keysort(self, l, d): return S("keysort", self.pairs(), self.t.var() if self.r.random() < 0.8 else self.some(lst([S("-", self.t.var(), self.t.var())], self.t.var())))
    def g_sort1(self, l, d):
        k = self.r.choice(["sort", "msort", "keysort"])
        save, self.pvar = self.pvar, 0
        try:
            return self.sort1(k)
        finally:
            self.pvar = save

    def sort1(self, k):
        return S("x_sort1", A(k), self.pairs() if k == "keysort" else self.some(lst(self.items())), V(self.r.randint(20, 29)))
    def g_setof(self, l, d):
        v = V(19)
        return S(self.r.choice(["setof", "bagof"]), v, S("member", v, lst(self.items())), self.t.var())


def term_test(r, tid): return TermBipGen.test(r, tid)
def order_test(r, tid): return OrderGen.test(r, tid)


# ---------------------------------------------------------------------------------------------
# P12

class AtomGen(BipGen):
    FE = dict(length=2, concat=4, sub=7, ccode=1.5, upper=1, achars=3, acodes=3, nchars=3, ncodes=3, natom=2, name=2, atoms=0.2, eq=1)

    def newterms(self, nv):
        super().newterms(self.r.choice([3, 5, 8]))
        r = self.r
        al = r.choice(["ab", "ab", "a", "abc", "aA1", "xyzXYZ_", "-1 .e", "a' \\\n"])
        self.t.atoms = ["a", "b", "[]", "ab", "foo"]
        self.words = ["".join(r.choice(al) for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6, 9]))) for _ in range(3)]
        self.nums = ["12", "-7", " 5", "0", "007", "12 ", "1a", "x", "", "-", "1073741823", "1073741824", "123456789012345678", "-1073741824",
                     "1.5", "-2.0", "3.25", "--1", "1_", "9,", "(1)", " -3", "4g"]

    def word(self):
        r = self.r
        w = r.choice(self.words)
        x = r.random()
        if x < 0.35 and w:
            i = r.randint(0, len(w))
            j = r.randint(i, len(w))
            return w[i:j]
        return w + r.choice(self.words) if x < 0.45 else w

    def a(self, pv=0.5): return self.t.var() if self.r.random() < pv else self.some(A(self.word()), A(self.r.choice(self.nums)) if self.r.random() < 0.3 else A(self.word()))
    def n(self, pv=0.6, hi=6):
        r = self.r
        return self.t.var() if r.random() < pv else self.some(I(r.choice([0, 0, 1, 1, 2, 2, 3, r.randint(0, hi), 100]) if r.random() < 0.97 else r.choice([1 << 59, 1 << 58, (1 << 60) - 1, 1 << 31, 1 << 32])))
    def ch(self, pv=0.4): return self.t.var() if self.r.random() < pv else self.some(A(self.r.choice("aAbzZ1 _~'\\\n")), A("ab"))

    def text(self, codes, w=None, pv=0.5):
        r = self.r
        if r.random() < pv:
            return self.t.var()
        if r.random() < self.perr:
            return self.wrong()
        w = self.word() if w is None else w
        els = []
        for c in w:
            x = r.random()
            els.append(self.t.var() if x < 0.06 else (self.wrong() if x < 0.06 + self.perr / 4 else (I(ord(c)) if codes else A(c))))
        return lst(els, NIL if r.random() < 0.9 else self.t.var())

    def num(self, pv=0.5):
        r = self.r
        return self.t.var() if r.random() < pv else self.some(I(r.choice([0, 5, 12, -7, 1073741823, -3])), self.t.bigint(), F(r.choice(["1.5", "-2.0", "3.25", "0.0"])))

    def g_length(self, l, d): return S("atom_length", self.a(0.1), self.n(0.7))
    def g_concat(self, l, d):
        r = self.r
        return S("atom_concat", self.a(), self.a(), self.a(0.3))
    def g_sub(self, l, d): return S("sub_atom", self.a(0.07), self.n(), self.n(), self.n(), self.a(0.6))
    def g_ccode(self, l, d): return S("char_code", self.ch(), self.t.var() if self.r.random() < 0.5 else self.some(I(self.r.randint(32, 126)), I(self.r.choice([97, 65, -1, 256, 1 << 40]))))
    def g_upper(self, l, d): return S("lower_upper", self.ch(), self.ch())
    def g_achars(self, l, d): return S("atom_chars", self.a(), self.text(False))
    def g_acodes(self, l, d): return S("atom_codes", self.a(), self.text(True))
    def g_nchars(self, l, d): return S("number_chars", self.num(), self.text(False, self.r.choice(self.nums), 0.3))
    def g_ncodes(self, l, d): return S("number_codes", self.num(), self.text(True, self.r.choice(self.nums), 0.3))
    def g_natom(self, l, d): return S("number_atom", self.num(), self.some(A(self.r.choice(self.nums)), self.t.var()))
    def g_name(self, l, d): return S("name", self.r.choice([self.num(), self.a()]), self.text(True, self.r.choice([None, self.r.choice(self.nums)])))
    def g_atoms(self, l, d): return S("x_atoms", I(self.r.choice([1, 10, 300])))
    def g_eq(self, l, d): return S("==", self.a(), self.a())


def atom_test(r, tid): return long_atom_test(r, tid) if tid % 75 == 7 else AtomGen.test(r, tid)


def long_atom_test(r, tid):
    """Atoms around and beyond 2^16 characters, made by doubling; lengths, slices and pieces at far offsets."""
    p = "t%d_" % tid
    X, Y, Z, N, M = V(1), V(2), V(3), V(4), V(5)
    G = lambda n, a, b: S(p + "grow", n, a, b)
    cl = [Clause(G(I(0), X, X), A("!")),
          Clause(G(N, X, Y), conj([S("is", M, S("-", N, I(1))), S("atom_concat", X, X, Z), G(M, Z, Y)]))]
    w = "".join(r.choice("abcXY_ 1") for _ in range(r.choice([1, 2, 3, 5, 7])))
    k = 13 + r.choice([0, 1, 1, 2, 3]) - (len(w) > 4)
    while (len(w) << k) > 150000:
        k -= 1
    n = len(w) << k
    pre = [G(I(k), A(w), X)]
    ln = n
    if r.random() < 0.7:
        e = "".join(r.choice("Z.") for _ in range(r.choice([1, 2, 4])))
        pre += [S("atom_concat", X, A(e), Y)]
        ln = n + len(e)
    else:
        pre, e = [G(I(k), A(w), Y)], ""
    full = w * (1 << k) + e
    qs = []
    for _ in range(r.choice([2, 3, 4])):
        off = r.choice([0, 1, ln - 1, ln, ln - 3, ln + 1, 65535, 65536, 65537, n - 1, n, r.randrange(ln)])
        l = r.choice([0, 1, 3, 6])
        x = r.random()
        if x < 0.2:
            g, vs = S("atom_length", Y, N), [N]
        elif x < 0.4:
            g, vs = S("sub_atom", Y, I(off), I(l), N, M), [N, M]
        elif x < 0.55:
            g, vs = S("sub_atom", Y, N, I(l), I(max(0, ln - off - l)), M), [N, M]
        elif x < 0.65 and off <= ln:
            g, vs = conj([S("sub_atom", Y, I(off), N, I(0), Z), S("atom_length", Z, M)]), [N, M]
        elif x < 0.75 and e:
            g, vs = S("sub_atom", Y, N, M, V(6), A(e)), [N, M, V(6)]
        elif x < 0.85:
            g, vs = conj([S("sub_atom", Y, I(min(off, ln)), V(6), I(0), Z), S("atom_concat", V(7), Z, Y), S("atom_length", V(7), N)]), [N, V(6)]
        else:
            o = min(off, ln)
            g, vs = conj([S("sub_atom", Y, I(0), I(o), V(6), Z), S("atom_concat", Z, V(7), Y), S("atom_length", V(7), N), S("==", V(6), N)]), [N]
        if r.random() < 0.2:
            g = conj([g, S("atom_concat", Y, Y, V(8)), S("atom_length", V(8), V(9))])
            vs = vs + [V(9)]
        qs.append((conj(pre + [g]), vs, 3))
    return Test(cl, queries=qs)


def finding_tests(which):
    """Histories of the known findings: the specification's answer is not the one of the implementation."""
    if which == "sort1_var":
        return [Test([], queries=[(S("x_sort1_any", A("msort"), lst([A("a"), V(1)]), V(2)), [V(2)], 5)], tags=("finding_sort1_var",))]
    return [Test([], queries=[(S("x_setarg_any", I(1), S("s", V(1), V(1)), I(3), V(2)), [V(2)], 5)], tags=("finding_setarg_var",))]


# ---------------------------------------------------------------------------------------------
# integer arithmetic (P09)

MAXINT, MININT = (1 << 60) - 1, -(1 << 60)
BINOPS = ["+", "-", "*", "//", "rem", "div", "mod", "min", "max", "gcd", "/\\", "\\/", "xor", "<<", ">>", "^"]
UNOPS = ["-", "+", "abs", "sign", "inc", "dec", "\\", "msb", "lsb", "popcount"]


class ArithGen:
    def __init__(self, r, tid):
        self.r, self.p = r, "t%d_" % tid
        k = r.choice([2, 4, 8, 16])
        self.bin = r.sample(BINOPS, k)
        self.un = r.sample(UNOPS, r.randint(1, 6))
        self.pvar = r.choice([0.3, 0.6, 0.9])
        self.size = r.choice(["edge", "edge", "mixed", "mixed", "small"])

    def num(self):
        r = self.r
        x = r.random()
        if self.size == "small" or (self.size == "mixed" and x < 0.4):
            return r.choice([0, 1, -1, 2, -2, 3, 7, -7, 10, 59, 60, 61, 62, 63, 64, -60, -61, -62, -64, 255, r.randint(-1000, 1000)])
        y = r.random()
        if y < 0.25:
            return r.choice([MAXINT, MININT, MAXINT - 1, MININT + 1])
        if y < 0.65:
            v = (1 << r.randint(0, 60)) + r.randint(-2, 2)
        elif y < 0.8:
            v = r.getrandbits(r.randint(1, 60))
        elif y < 0.9:
            v = 3 ** r.randint(0, 37)
        else:
            v = int(MAXINT ** 0.5) + r.randint(-2, 2)
        if r.random() < 0.5:
            v = -v
        return max(MININT, min(MAXINT, v))

    def small(self):
        return self.r.choice([0, 1, 2, 3, 5, 19, 20, 29, 30, 31, 32, 33, 37, 38, 58, 59, 60, 61, 63, 64, 65, -1, -2, -5, -59, -60, -61, -64, -100])

    def expr(self, d, nv):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            if nv and r.random() < self.pvar:
                return V(r.randint(1, nv))
            return I(self.num())
        if r.random() < 0.25:
            return S(r.choice(self.un), self.expr(d - 1, nv))
        f = r.choice(self.bin)
        if f in ("<<", ">>", "^") and r.random() < 0.7:
            if f == "^" and r.random() < 0.6:
                return S(f, I(r.choice([0, 1, -1, 2, -2, 3, -3, 4, 7, 10, -10, 100, 1000, 1 << 20, 1 << 30, -(1 << 30), 33])), I(self.small()))
            return S(f, self.expr(d - 1, nv), I(self.small()))
        return S(f, self.expr(d - 1, nv), self.expr(d - 1, nv))

    def odd(self):
        r = self.r
        return r.choice([V(7), A("a"), A("foo"), S("foo", I(1)), S("g", I(1), I(2)), lst([I(self.num())]), lst([V(7)]), S("bar", V(7))])

    def test(self):
        r = self.r
        out, qs = [], []
        for i in range(r.choice([2, 3, 5])):
            nv = r.choice([0, 1, 2, 2, 3])
            d = r.choice([1, 1, 2, 3])
            vs = [V(k + 1) for k in range(nv)]
            n = "%sp%d" % (self.p, i)
            x = r.random()
            if x < 0.65:
                R = V(nv + 1)
                e = self.expr(d, nv)
                body = S("is", R, e)
                if r.random() < 0.2:
                    body = conj([body, S("ev", R), S("is", V(nv + 2), S(r.choice(self.bin), R, I(self.num()))), S("ev", V(nv + 2))])
                head = S(n, *(vs + [R]))
            else:
                body = S(r.choice(["=:=", "=\\=", "<", "=<", ">", ">="]), self.expr(d - (r.random() < 0.5), nv), self.expr(d - (r.random() < 0.5), nv))
                if r.random() < 0.4:
                    body = S(";", S("->", body, S("ev", A("yes"))), S("ev", A("no")))
                head = S(n, *vs) if vs else A(n)
            out.append(Clause(head, body))
            for _ in range(r.choice([1, 2, 3])):
                args = [I(self.num()) for _ in vs]
                if args and r.random() < 0.25:          # equal or close arguments
                    v = self.num()
                    args = [I(max(MININT, min(MAXINT, v + r.choice([0, 0, 1, -1])))) for _ in vs]
                if r.random() < 0.08 and args:
                    args[r.randrange(len(args))] = self.odd()
                if x < 0.65:
                    args = args + [V(8) if r.random() < 0.9 else I(self.num())]
                g = S(n, *args) if args else A(n)
                qs.append((g, [V(v) for v in vars_of(g)], 2))
        for _ in range(r.choice([1, 2, 4])):
            x = r.random()
            if x < 0.5:
                g = S("call", S("is", V(8), self.expr(r.choice([1, 2, 3]), 0)))
            elif x < 0.7:
                g = S("call", S(r.choice(["=:=", "=\\=", "<", "=<", ">", ">="]), self.expr(r.choice([0, 1, 2]), 0), self.expr(r.choice([0, 1]), 0)))
            elif x < 0.8:
                g = S("call", S("is", V(8), S(r.choice(self.bin), self.odd(), I(self.num())))) if r.random() < 0.5 else S("call", S("is", V(8), S(r.choice(self.un), self.odd())))
            else:
                a, b = I(self.num()), I(self.num())
                if r.random() < 0.5:
                    a = I(r.choice([0, 1, 5, MAXINT, MAXINT - 1, -1, MININT]))
                y = r.random()
                a, b = (a, V(8)) if y < 0.4 else (V(8), a) if y < 0.75 else (a, b)
                if r.random() < 0.1:
                    b = r.choice([A("a"), V(9), F("1.0")])
                g = S("succ", a, b)
                if r.random() < 0.4:
                    pre = [S("=", V(20), a), S("=", V(21), b)]
                    g = conj(pre + [S("succ", V(20), V(21))])
            qs.append((g, [V(v) for v in vars_of(g)], 2))
        return Test(out, queries=qs)


def arith_test(r, tid):
    return ArithGen(r, tid).test()
