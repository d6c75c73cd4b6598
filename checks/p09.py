"""P09: integer arithmetic against the exact integers of spec/Arith.tla."""
import vlib, gen3
from machine import conform


def check(c):
    src = vlib.build()
    for k in range(8 if vlib.THOROUGH else 1):
        r = vlib.rng("P09", k)
        conform(c, [gen3.arith_test(r, i) for i in range(1500)], label="arith", src=src)
