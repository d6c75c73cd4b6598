"""Histories of the finite domain solver, decided against spec/Fd.tla (P15-P18).

A history is a script over a few variables: constraints, unifications, choice points, exceptions, labelings.  The real
solver runs the script and shows the domains after every step; TLC (FdRun.tla) decides the recorded history."""
import os, json
import vlib
from vlib import log, CheckError

HERE = os.path.dirname(os.path.abspath(__file__))
CAP = 200000


def V(k): return ["v", k]
def I(n): return ["i", n]
def E(f, *a): return ["e", f, list(a)]


INFIX = {"+", "-", "*", "//", "rem", "/", "**", "#=", "#\\=", "#<", "#=<", "#>", "#>=", "#=#", "#\\=#", "#<#", "#=<#", "#>#", "#>=#",
         "#<=>", "#\\<=>", "##", "#==>", "#\\==>", "#/\\", "#\\/\\", "#\\/", "#\\\\/", "="}
RELS = ["#=", "#\\=", "#<", "#=<", "#>", "#>="]
BOOLS = ["#<=>", "#\\<=>", "##", "#==>", "#\\==>", "#/\\", "#\\/\\", "#\\/", "#\\\\/"]
NAMES = {"fd_cardinality3": "fd_cardinality", "fd_domain_list": "fd_domain"}


def text(e):
    if e[0] == "v":
        return "V%d" % e[1]
    if e[0] == "i":
        return str(e[1]) if e[1] >= 0 else "(%d)" % e[1]
    f, as_ = e[1], e[2]
    if f == "all":
        return "(" + ",".join(text(x) for x in as_[0]) + ")"
    if f in INFIX and len(as_) == 2:
        return "(%s %s %s)" % (text(as_[0]), f, text(as_[1]))
    if f in ("-", "+", "#\\") and len(as_) == 1:
        return "(%s(%s))" % (f, text(as_[0]))
    return "%s(%s)" % (NAMES.get(f, f), ",".join(arg(a) for a in as_))


def arg(a):
    if isinstance(a, int):
        return str(a)
    if a and a[0] in ("v", "i", "e") and isinstance(a[0], str):
        return text(a)
    return "[" + ",".join(arg(x) for x in a) + "]"


class Hist:
    def __init__(self, box, script, tags=(), der=()):
        self.box, self.script, self.tags, self.der = box, script, tags, list(der)
        self.ops = {}
        self._index(script)

    def _index(self, s):
        for o in s:
            o["id"] = len(self.ops) + 1
            self.ops[o["id"]] = o
            for k in ("s", "s1", "s2"):
                if k in o:
                    self._index(o[k])

    def stext(self, s):
        return "[" + ",".join(self.otext(o) for o in s) + "]"

    def otext(self, o):
        k, i = o["k"], o["id"]
        if k == "c":
            return "c(%d,%s)" % (i, text(o["c"]) if o["c"][1] not in ("fd_domain", "fd_domain_list", "fd_domain_bool") or len(o["c"][2][0]) != 1 or not o.get("single")
                                 else text(o["c"]).replace("([" + text(o["c"][2][0][0]) + "]", "(" + text(o["c"][2][0][0])))
        if k in ("try", "tryc", "opt"):
            return "%s(%d,%s)" % (k, i, self.stext(o["s"]))
        if k == "alt":
            return "alt(%d,%s,%s)" % (i, self.stext(o["s1"]), self.stext(o["s2"]))
        if k == "sols":
            return "sols(%d,[%s],%s)" % (i, ",".join("V%d" % v for v in o["vs"]), o["opts"])
        if k == "nth":
            return "nth(%d,[%s],%s,%d)" % (i, ",".join("V%d" % v for v in o["vs"]), o["opts"], o["n"])
        if k == "best":
            return "best(%d,%s,%s,V%d)" % (i, "min" if o["min"] else "max", o["goal"], o["v"])
        return "fail"

    def text(self, tid):
        return "ft(%d,[%s],%s)." % (tid, ",".join("V%d" % (i + 1) for i in range(len(self.box))), self.stext(self.script))

    def events(self, evs):
        out = []
        for e in evs:
            o = self.ops.get(e.get("id"), {})
            k = e["e"]
            e = dict(e)
            e["k"] = o.get("k", "")
            if k == "op":
                e["c"] = o["c"]
            elif k in ("sols", "nth"):
                e["vs"] = o["vs"]
                e["vm"], e["vals"] = o["vm"], o["val"]
                if k == "nth":
                    e["n"] = o["n"]
            elif k == "best":
                e["v"], e["min"] = o["v"], o["min"]
            out.append(e)
        return dict(box=self.box, der=self.der, events=out)


def record(src, hs, drv, timeout=60, vmax=127):
    """The events of every history in the real solver."""
    d = vlib.workdir()
    n = len(hs)
    k = max(1, min(n, vlib.NCPU * 2))
    parts = [(n * i // k, n * (i + 1) // k) for i in range(k)]

    def exec_(fn, lo, hi, tmo):
        env = vlib.plenv(src, TESTFILE=fn, TESTLO=str(lo), TESTHI=str(hi - 1), VECTORMAX=str(vmax))
        rc, out, err = vlib.run([drv], timeout=tmo, env=env, cwd=d)
        res, cur, done = {}, None, False
        for line in out.decode("latin-1").split("\n"):
            i = line.find("{\"")
            if i < 0:
                continue
            try:
                o = json.loads(line[i:])
            except ValueError:
                if cur is not None:
                    cur.append(dict(e="garbled: " + line[:200]))
                continue
            if "t" in o:
                cur = res.setdefault(o["t"], [])
                del cur[:]
            elif "done" in o:
                done = True
            else:
                cur.append(o)
        return res, done, rc, err.decode(errors="replace")[-300:]

    def go(b):
        lo, hi = b
        fn = os.path.join(d, "fd%d.pl" % lo)
        with open(fn, "w") as f:
            f.write("\n".join(hs[i].text(i) for i in range(lo, hi)) + "\n")
        out, fails = {}, 0
        while lo < hi:
            res, done, rc, info = exec_(fn, lo, hi, timeout)
            out.update(res)
            if done:
                return out
            last = max(list(res) or [lo])
            res1, done1, rc1, info1 = exec_(fn, last, last + 1, 20)
            ev = res1.get(last, [])
            if not done1:
                ev.append(dict(e="died %s %s" % (rc1, info1)))
            out[last] = ev
            fails += 1
            if fails > 4:
                for i in range(last + 1, hi):
                    out[i] = None
                return out
            lo = last + 1
        return out
    allres = {}
    for r in vlib.pmap(go, parts):
        allres.update(r)
    return allres


def decide(check, hs, evs, timeout=800):
    """The verdict of the specification on each recorded history: {index: dict(ph, why, i)}."""
    p = os.path.join(vlib.workdir(), "hist-%d.json" % len(os.listdir(vlib.workdir())))
    idx = [i for i in range(len(hs)) if evs.get(i) is not None]
    with open(p, "w") as f:
        json.dump([hs[i].events(evs[i]) for i in idx], f)
    r = vlib.tlc("FdRun", env=dict(TESTS=p), timeout=timeout)
    check.add_tlc(r)
    outs = vlib.tlc_strings(r.out, "OUT")
    if len(outs) != len(idx):
        import sys
        sys.stderr.write(r.out[-3000:])
        raise CheckError("the specification decided %d of %d histories" % (len(outs), len(idx)))
    return {i: outs[k + 1] for k, i in enumerate(idx)}


def conform(check, hs, label="fd", src=None, vmax=127):
    src = src or vlib.build()
    drv = os.path.join(vlib.workdir(), "fddrv")
    if not os.path.exists(drv):
        e = vlib.gplc(src, [os.path.join(HERE, "pl", "fddrv.pl")], drv, ["--no-top-level"])
        if e:
            check.violation("compile", "the driver no longer compiles: " + e, dict(error=e))
            return
    evs = record(src, hs, drv, vmax=vmax)
    log(label, "recorded", sum(len(x or []) for x in evs.values()))
    ver = decide(check, hs, evs)
    log(label, "decided")
    for i, v in sorted(ver.items()):
        check.count("traces_validated_against_impl")
        check.count("events_compared", v["i"])
        if v["ph"] == "skip":
            check.count("undefined_rest")
        elif v["why"]:
            evs1 = record(src, [hs[i]], drv, vmax=vmax).get(0) or []
            ver1 = decide(check, [hs[i]], {0: evs1}).get(0)
            note = ""
            if ver1 is None or not ver1["why"]:
                log("a mismatch did not repeat alone", i, v["why"])
                evs2 = record(src, hs, drv, vmax=vmax)
                ver2 = decide(check, hs, evs2).get(i)
                if ver2 is None or not ver2["why"]:
                    continue
                note, evs1, ver1 = "(only after other histories) ", evs2[i], ver2
            k = ver1["i"] - 1
            e = evs1[k] if k < len(evs1) else {"e": "end of the recording"}
            what = "%s%s at event %d: %s" % (note, ver1["why"], ver1["i"], json.dumps(e)[:600])
            o = hs[i].ops.get(e.get("id"))
            if o:
                what += "\n  step: " + hs[i].otext(o)[:300]
            prev = [x for x in evs1[:k] if "dom" in x]
            if prev:
                what += "\n  before: " + json.dumps(prev[-1]["dom"])[:600]
            what += "\n" + hs[i].text(i)
            check.violation(",".join(hs[i].tags) or label, what, dict(history=hs[i].text(i), box=hs[i].box, events=evs1, verdict=ver1))
            if len(check.viol) > 12:
                break
    for i in list(range(0, len(hs), max(1, len(hs) // 3)))[:3]:
        check.sample(dict(history=hs[i].text(i)[:800], events=len(evs.get(i) or []), verdict=str(ver.get(i))))


# -------------------------------------------------------------------------------------------------------------
# generation

def mag(e, box, late=()):
    """A bound on the values that appear while an expression or constraint is decomposed."""
    if e[0] == "i":
        return abs(e[1])
    if e[0] == "v":
        return 268435455 if e[1] in late else box[e[1] - 1][-1]
    f, m = e[1], [mag(x, box, late) for x in e[2]]
    if f == "*":
        return max(m[0] * m[1], m[0], m[1])
    if f == "**":
        return max(max(m[0], 1) ** min(m[1], 12), m[0], m[1])
    return sum(m)


MAXINT = 268435455


def loads(e, box, late=()):
    """A constraint is normalised to a polynomial over its variables and the results of its non-linear operations,
    which range over 0..fd_max_integer while the polynomial is loaded; overflows are not checked, as documented.
    Returns (sum of |a|*max of the linear terms, sum of |a| of the linear terms, sum of |a| of the others, |constant|),
    None when something overflows."""
    if e[0] == "i":
        return 0, 0, 0, abs(e[1])
    if e[0] == "v":
        return (0, 0, 1, 0) if e[1] in late else (box[e[1] - 1][-1], 1, 0, 0)
    ls = [loads(x, box, late) for x in e[2]]
    if None in ls:
        return None
    f = e[1]
    if f in ("+", "-") or f in RELS or f.endswith("#"):
        return tuple(map(sum, zip(*ls)))
    if f == "*":
        (l1, a1, n1, c1), (l2, a2, n2, c2) = ls
        return c1 * l2 + c2 * l1, c1 * a2 + c2 * a1, c1 * n2 + c2 * n1 + (a1 + n1) * (a2 + n2), c1 * c2
    if any(l + n * MAXINT + c >= 2 ** 31 for l, a, n, c in ls):
        return None
    return 0, 0, 1, 0


def fits(c, box, late=()):
    """No overflow while a relation is posted."""
    x = loads(c, box, late)
    return x is not None and x[0] + x[2] * MAXINT + x[3] < 2 ** 31


def has(e, f):
    return e[0] == "e" and (e[1] == f or any(has(x, f) for x in e[2]))


class Gen:
    def __init__(self, r, w, vmax=127, wide=False):
        """w: weights of the constraint kinds; vmax: the solver's vector_max (larger values are lost as soon as a
        domain or an intermediate result gets holes, as documented)."""
        self.r, self.w, self.vmax = r, w, vmax
        n = r.choice([2, 3, 3, 3, 4, 4, 5]) if not wide else r.choice([2, 3])
        self.n = n
        size = [2, 3, 4] if wide else {2: [6, 12, 25], 3: [4, 6, 9], 4: [3, 4, 5], 5: [2, 3]}[n]
        self.box, self.kind = [], []
        off = r.choice([0, 0, 0, 0, 1, 2, 5, 30, 60] + ([58, 118, 185, 250, 400] if vmax >= 500 else []))
        for i in range(n):
            x = r.random()
            if x < 0.2:
                self.box.append([0, 1]); self.kind.append("bool")
            elif x < 0.75:
                lo = max(0, off + r.choice([0, 0, 0, 1, 1, 2, 3]))
                self.box.append(list(range(lo, lo + r.choice(size)))); self.kind.append("int")
            else:
                m = r.choice(size)
                self.box.append(sorted(r.sample(range(off, min(off + 3 * m, vmax - 2) + 1), min(m, 3 * m)))); self.kind.append("set")
        self.late = [i + 1 for i in range(n) if r.random() < (0.12 if w.get("late", 1) else 0)]
        # wide histories: many variables that follow others (V #= W + constant)
        self.der = []
        if wide:
            self.late = []
            dep = r.choice([0, 2, n, n])
            mix = r.choice([0, 0, .1])
            sw = r.random() < 0.7              # the first variable switches the others on and off
            if sw:
                self.box[0], self.kind[0] = [0, 1], "bool"
            for _ in range(r.choice([6, 20, 49, 50, 54, 54, 60, 60, 75, 75])):
                b = r.randint(2, n) if dep == 0 or r.random() < mix else dep
                m = 1 if sw else 0
                c = r.choice([0, 0, 1, 2, 3])
                self.der.append([b, m, c])
                self.box.append(sorted(set(x * y + c for x in self.box[b - 1] for y in (self.box[m - 1] if m else [1]))))
                self.kind.append("der")
            self.n += len(self.der)

    # -- expressions with their bounds
    def var(self, bools=False, nolate=False):
        c = [i + 1 for i in range(self.n) if (not bools or self.kind[i] == "bool") and not (nolate and i + 1 in self.late)]
        return self.r.choice(c) if c else None

    def leaf(self, nolate=False):
        r = self.r
        v = self.var(nolate=nolate)
        if r.random() < 0.72 and v:
            b = self.box[v - 1]
            return V(v), b[0], b[-1]
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 12, 20, -1, -2, -3, 100, 101, 128, 300])
        if n >= 100 and r.random() < 0.6:
            n = r.randint(0, 9)
        return I(n), n, n

    def expr(self, d, nolate=False):
        r = self.r
        if d <= 0:
            return self.leaf(nolate)
        x = r.random()
        for _ in range(8):
            f = r.choices(["+", "-", "*", "-1", "+1", "//", "rem", "/", "**", "min", "max", "dist", "quot_rem", "lin"],
                          [4, 4, 4, .5, .3, 1, 1, 1, .8, .8, .8, .8, .5, 3])[0]
            if f == "lin":                     # a linear combination
                e, lo, hi = None, 0, 0
                for _ in range(r.choice([2, 2, 3, 4] if not self.der else [2, 3, 5, 9, 14])):
                    v = self.var(nolate=nolate)
                    if not v:
                        break
                    c = r.choice([1, 1, 2, 3, 5, 7, 11])
                    t = V(v) if c == 1 else (E("*", I(c), V(v)) if r.random() < .7 else E("*", V(v), I(c)))
                    b = self.box[v - 1]
                    if e is None:
                        e, lo, hi = t, c * b[0], c * b[-1]
                    elif r.random() < 0.6:
                        e, lo, hi = E("+", e, t), lo + c * b[0], hi + c * b[-1]
                    else:
                        e, lo, hi = E("-", e, t), lo - c * b[-1], hi - c * b[0]
                if e is None:
                    continue
                return e, lo, hi
            nl = nolate or f not in ("+", "-", "-1", "+1")
            a, al, ah = self.expr(d - 1, nl)
            if f in ("-1", "+1"):
                return (E("-", a), -ah, -al) if f == "-1" else (E("+", a), al, ah)
            b, bl, bh = self.expr(d - 1, nl)
            if f in ("//", "rem", "/", "min", "max", "dist", "quot_rem") and r.random() < .35:
                k = r.choice([0, 0, 1, 2, 3, 5, 6, 12, r.randint(0, 60)])
                if r.random() < .5:
                    a, al, ah = I(k), k, k
                else:
                    b, bl, bh = I(k), k, k
            if f == "**":
                if r.random() < .6:
                    b = I(r.choice([0, 1, 2, 2, 3, 4])); bl = bh = b[1]
                else:
                    a = I(r.choice([0, 1, 2, 3])); al = ah = a[1]
                if bh > 12 or max(abs(ah), 2) ** max(bh, 0) > CAP:
                    continue
                return E("**", a, b), 0, max(abs(ah), 1) ** max(bh, 0)
            if f in ("+", "-", "*"):
                c = {"+": (al + bl, ah + bh), "-": (al - bh, ah - bl)}.get(f) or (min(al * bl, al * bh, ah * bl, ah * bh), max(al * bl, al * bh, ah * bl, ah * bh))
            elif f in ("min", "max"):
                c = (min(al, bl), max(ah, bh))
            elif f == "dist":
                c = (0, max(abs(ah - bl), abs(bh - al)))
            elif f == "quot_rem":
                q, _, _ = self.leaf(True)
                if q[0] == "i" and q[1] < 0:
                    continue
                if max(abs(al), abs(ah), abs(bl), abs(bh)) > CAP:
                    continue
                return E(f, a, b, q), 0, max(ah, 0)
            else:
                c = (0, max(ah, bh, 0))
            if max(abs(c[0]), abs(c[1])) > CAP:
                continue
            return E(f, a, b), c[0], c[1]
        return self.leaf(nolate)

    def rel(self, d=None, reified=False):
        for _ in range(20):
            c = self.rel1(d)
            m = mag(c, self.box, self.late)
            if m > 1800000000 or not fits(c, self.box, self.late):
                continue                       # the solver does not check for overflows
            if not (reified or c[1].endswith("#") or c[1] == "#\\=" or has(c, "dist")) or m <= self.vmax:
                return c
            d = self.r.choice([0, 0, 1])
        return E("#=<", V(1), V(1)) if 1 in self.late else E("#=", V(1), V(1))

    def rel1(self, d=None):
        r = self.r
        d = d if d is not None else r.choice([0, 1, 1, 2, 2, 3])
        a = self.expr(d)
        x = r.random()
        if x < 0.35 and a[1] <= a[2]:          # a constant near the values
            n = r.randint(a[1], min(a[2], a[1] + 40)) if r.random() < .9 else r.choice([0, -1])
            b = I(n)
        else:
            b = self.expr(r.choice([0, 0, 1, 1, 2]))[0]
        a = a[0]
        if r.random() < 0.4:
            a, b = b, a
        op = r.choice(["#=", "#=", "#="] + RELS) + r.choice(["", "", "#"])
        return E(op, a, b)

    def boolx(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            v = self.var(bools=True) if r.random() < .8 else self.var()
            x = r.random()
            if v and x < 0.55:
                return V(v)
            if x < 0.62:
                return I(r.choice([0, 1]))
            return self.rel(r.choice([0, 0, 1, 1, 2]), reified=True)
        if r.random() < 0.15:
            return E("#\\", self.boolx(d - 1))
        return E(r.choice(BOOLS), self.boolx(d - 1), self.boolx(d - 1))

    def vars_(self, lo=1, hi=None, dup=0.1, ints=0.1):
        r = self.r
        k = r.randint(lo, hi or self.n)
        l = [V(v) for v in r.sample(range(1, self.n + 1), min(k, self.n))]
        if r.random() < dup:
            l.append(r.choice(l))
        if r.random() < ints:
            l[r.randrange(len(l))] = I(r.choice([0, 1, 2, 3, 5]))
        return l

    def value(self):
        r = self.r
        return r.choice(r.choice(self.box)) if r.random() < .85 else r.choice([0, 1, 7, 126, self.vmax])

    def symbolic(self):
        r = self.r
        k = r.choice(["ad", "ad", "el", "elv", "am", "al", "ex", "rel", "relc", "prime", "nprime", "rin", "card", "card3", "alo", "amo", "oo"])
        if k == "ad":
            return E("fd_all_different", self.vars_(2, dup=0.03))
        if k == "el":
            return E("fd_element", V(self.var()), [self.value() for _ in range(r.randint(1, 6))], V(self.var()))
        if k == "elv":
            return E("fd_element_var", V(self.var()), self.vars_(1, 5, 0.3, 0.3), V(self.var()))
        if k in ("am", "al", "ex"):
            return E({"am": "fd_atmost", "al": "fd_atleast", "ex": "fd_exactly"}[k], r.choice([0, 1, 1, 2, 2, 3]), self.vars_(1, dup=.05), self.value())
        if k in ("rel", "relc"):
            m = r.randint(1, min(3, self.n))
            vs = self.vars_(m, m, 0.1, 0.1)
            rows = [[(r.choice(self.box[x[1] - 1]) if x[0] == "v" and r.random() < .9 else self.value()) for x in vs] for _ in range(r.randint(1, 7))]
            if k == "rel":
                return E("fd_relation", rows, vs)
            return E("fd_relationc", [list(c) for c in zip(*rows)], vs)
        if k in ("prime", "nprime"):
            return E("fd_prime" if k == "prime" else "fd_not_prime", V(self.var()))
        if k == "rin":
            lo = self.value()
            return E("fd_reified_in", V(self.var()), lo, lo + r.choice([-1, 0, 1, 2, 3, 8]), V(self.var(bools=True) or self.var()))
        bs = [self.boolx(r.choice([0, 0, 1])) for _ in range(r.randint(1, 4))]
        if k == "card":
            return E("fd_cardinality", bs, V(self.var()) if r.random() < .7 else I(r.choice([0, 1, 2])))
        if k == "card3":
            lo = r.choice([0, 0, 1, 2])
            return E("fd_cardinality3", lo, bs, lo + r.choice([0, 1, 1, 2]))
        return E({"alo": "fd_at_least_one", "amo": "fd_at_most_one", "oo": "fd_only_one"}[k], bs)

    def unif(self):
        r = self.r
        a = V(self.var())
        b = V(self.var()) if r.random() < .5 else I(r.choice(self.box[a[1] - 1]) if r.random() < .85 else self.value())
        return E("=", a, b)

    def domain(self):
        r = self.r
        x = r.random()
        vs = self.vars_(1, 2, 0.1, 0.02)
        lo = self.value()
        if x < .5:
            return E("fd_domain", vs, max(0, lo - r.choice([0, 0, 1, 2, 5])) - r.choice([0] * 9 + [3]), lo + r.choice([0, 0, 1, 2, 5, 100000]))
        if x < .9:
            return E("fd_domain_list", vs, [self.value() for _ in range(r.randint(1, 7))])
        v = self.var(nolate=True)
        return E("fd_use_vector", V(v)) if v else self.unif()

    def cons(self):
        k = self.r.choices(["rel", "bool", "sym", "unif", "dom"], [self.w.get(k, 0) for k in ("rel", "bool", "sym", "unif", "dom")])[0]
        return {"rel": self.rel, "bool": lambda: self.boolx2(), "sym": self.symbolic, "unif": self.unif, "dom": self.domain}[k]()

    def boolx2(self):
        for _ in range(10):
            b = self.boolx(self.r.choice([1, 1, 2, 2, 3]))
            if b[0] == "e" and b[1] not in RELS and not b[1].endswith("#") or (b[0] == "e" and b[1] == "##"):
                return b
        return E("#<=>", self.boolx(1), self.boolx(1))

    # -- scripts
    def decl(self, v):
        b, k = self.box[v - 1], self.kind[v - 1]
        if k == "der":
            w, m, c = self.der[v - 1 - (self.n - len(self.der))]
            w = E("*", V(w), V(m)) if m else V(w)
            return dict(k="c", c=self.r.choice([E("#=", V(v), E("+", w, I(c))), E("#=", E("-", V(v), I(c)), w), E("#=", E("+", I(c), w), V(v))]))
        if k == "bool" and self.r.random() < .4:
            c = E("fd_domain_bool", [V(v)])
        elif b == list(range(b[0], b[-1] + 1)) and self.r.random() < .85:
            c = E("fd_domain", [V(v)], b[0], b[-1])
        else:
            c = E("fd_domain_list", [V(v)], b)
        return dict(k="c", c=c, single=self.r.random() < .7)

    def opts(self):
        r = self.r
        if r.random() < self.w.get("plain", 0.5) * (.3 if self.der else 1):
            return ("[]", "standard", "min") if r.random() < .6 else (("none", "standard", "min") if r.random() < .5 else ("ff", "ff", "min"))
        vm = r.choice(["standard", "first_fail", "ff", "most_constrained", "smallest", "largest", "max_regret", "random", None])
        vl = r.choice(["min", "max", "middle", "limits", "bisect", "random", "bounds", None])
        o = []
        if vm:
            o.append("variable_method(%s)" % vm)
        if vl:
            o.append("value_method(%s)" % vl)
        if r.random() < .4:
            o.append("reorder(%s)" % r.choice(["true", "false"]))
        if r.random() < .15:
            o.append("backtracks(_)")
        r.shuffle(o)
        return ("[" + ",".join(o) + "]", vm or "standard", vl or "min")

    def label(self, vs=None):
        r = self.r
        vs = vs or r.sample(range(1, self.n + 1), self.n)
        x = r.random()
        if x < .6:
            vs = sorted(vs)
            if self.der and x < .5:            # the switch, the other variables that are not derived, then the rest; or these last
                k = self.n - len(self.der)
                b = [v for v in vs if 1 < v <= k]
                r.shuffle(b)
                d = [v for v in vs if v > k]
                vs = [v for v in vs if v == 1] + (b + d if x < .25 else d + b)
        o, vm, vl = self.opts()
        return dict(vs=vs, opts=o, vm=vm, val=vl)

    def script(self, d, undecl, k=None, final=True):
        r, out = self.r, []
        undecl = set(undecl)
        for _ in range(k if k is not None else r.choice([1, 2, 2, 3])):
            x = r.random()
            if undecl and r.random() < .3:
                v = r.choice(sorted(undecl))
                undecl.discard(v)
                out.append(self.decl(v))
            if d > 0 and x < self.w.get("nest", .3):
                kind = r.choice(["try", "try", "tryc", "opt", "alt"])
                if kind == "alt":
                    out.append(dict(k="alt", s1=self.script(d - 1, undecl, final=False), s2=self.script(d - 1, undecl, final=False)))
                else:
                    s = self.script(d - 1, undecl, final=r.random() < .4)
                    if kind == "opt" and r.random() < .3:
                        s.append(dict(k="fail"))
                    out.append(dict(k=kind, s=s))
                    if kind == "opt":
                        undecl = set(range(1, self.n + 1)) & undecl    # what was declared inside may be undone
            elif not undecl and x < self.w.get("nest", .3) + .06:
                vs = r.sample(range(1, self.n + 1), r.randint(1, self.n))
                out.append(dict(k="nth", n=r.choice([1, 1, 2, 3]), **self.label(vs)))
            else:
                out.append(dict(k="c", c=self.cons()))
        if final:
            for v in sorted(undecl):
                out.append(self.decl(v))
            out.append(dict(k="sols", **self.label()))
            if r.random() < self.w.get("best", .1):
                l = self.label()
                out.append(dict(k="best", min=r.random() < .5, v=self.var(), goal="fd_labeling([%s],%s)" % (
                    ",".join("V%d" % v for v in l["vs"]), l["opts"] if l["opts"] not in ("none", "ff") else "[]")))
        return out

    def hist(self):
        decls = [self.decl(i + 1) for i in range(self.n - len(self.der)) if i + 1 not in self.late]
        for k in range(0, len(self.der), 25):
            decls.append(dict(k="c", c=E("all", [self.decl(self.n - len(self.der) + i + 1)["c"] for i in range(k, min(k + 25, len(self.der)))])))
        s = self.script(self.r.choice([0, 1, 1, 2]), set(self.late), self.r.choice([0, 0, 1] if self.der else [1, 2, 3, 4]))
        return Hist(self.box, decls + s, der=self.der)


WEIGHTS = {
    "P15": dict(rel=8, dom=1, unif=1, nest=.12),
    "P16": dict(rel=4, dom=2, unif=2, bool=1, sym=2, nest=.5),
    "P17": dict(rel=1.5, dom=.7, unif=.7, bool=5, sym=5, nest=.15),
    "P18": dict(rel=4, dom=1, unif=.5, bool=1, sym=2, nest=.1, plain=.05, best=.4, late=0),
}


def hists(pid, r, n, vmax=127, wide=0):
    return [Gen(r, WEIGHTS[pid], vmax).hist() for _ in range(n)] + [Gen(r, WEIGHTS[pid], vmax, True).hist() for _ in range(wide)]
