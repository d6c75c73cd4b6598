"""P08: construction, decomposition, copying, unification and tests of terms against spec/Terms.tla and spec/Builtins.tla."""
import vlib, gen3
from machine import conform


def check(c):
    src = vlib.build()
    conform(c, gen3.finding_tests("setarg_var"), modes=("meta",), label="finding", src=src)
    for k in range(8 if vlib.THOROUGH else 1):
        r = vlib.rng("P08", k)
        conform(c, [gen3.term_test(r, i) for i in range(1600)], modes=("native", "meta"), label="term", src=src)
