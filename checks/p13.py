"""P13: list library predicates against their textbook definitions (spec/lists.pl run by spec/Machine.tla)."""
import vlib, gen3
from machine import conform


def check(c):
    src = vlib.build()
    for k in range(6 if vlib.THOROUGH else 1):
        r = vlib.rng("P13", k)
        conform(c, [gen3.list_test(r, i) for i in range(1000)], modes=("native", "meta"), lib=gen3.lists_lib(), label="list", src=src)
