"""Programs that load their own file again while they run (P20): see reload/0 in spec/Machine.tla and pl/driver.pl."""
from plterm import *
from machine import Test
from gen import ProgGen, CONTROL

WEIGHTS = dict(CONTROL)
WEIGHTS.update(reload=7, call_user=12, between=4, disj=4)


class ReloadGen(ProgGen):
    def __init__(self, r, pfx, **kw):
        super().__init__(r, pfx, feats=WEIGHTS, exc=r.random() < 0.4, **kw)
        self.w.setdefault("reload", 7)
        self.w.setdefault("between", 4)

    def g_reload(self, l, d): return A("reload")


def reload_test(r, tid):
    g = ReloadGen(r, "t%d_" % tid, levels=r.choice([3, 4]), npreds=r.choice([3, 4, 6]))
    g.maxdepth = r.choice([1, 1, 2])
    cl = g.clauses()
    qs = []
    for _ in range(r.choice([1, 2])):
        goal, vs, n = g.query()
        qs.append((conj([goal, A("reload")]), vs, 12))
    return Test(cl, queries=qs)
