"""P01: pure control programs in four execution modes against spec/Machine.tla."""
import vlib, gen
from machine import conform


def check(c):
    src = vlib.build()
    n = 6 if vlib.THOROUGH else 1
    for k in range(n):
        r = vlib.rng("P01", "control", k)
        conform(c, [gen.control_test(r, i) for i in range(700)], label="control", src=src)
        r = vlib.rng("P01", "perm", k)
        conform(c, [gen.perm_test(r, i) for i in range(500)], label="perm", src=src)
