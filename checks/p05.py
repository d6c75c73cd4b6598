"""P05: all-solutions predicates against spec/Machine.tla."""
import vlib, gen2
from machine import conform


def check(c):
    src = vlib.build()
    for k in range(6 if vlib.THOROUGH else 1):
        r = vlib.rng("P05", k)
        conform(c, [gen2.sol_test(r, i) for i in range(900)], label="sol", src=src)
