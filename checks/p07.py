"""P07: standard order and sorting against spec/Order.tla (and the abstract machine)."""
import vlib, gen3
from machine import conform


def check(c):
    src = vlib.build()
    conform(c, gen3.finding_tests("sort1_var"), modes=("meta",), label="finding", src=src)
    for k in range(8 if vlib.THOROUGH else 1):
        r = vlib.rng("P07", k)
        conform(c, [gen3.order_test(r, i) for i in range(900)], modes=("native", "meta"), lib=gen3.lists_lib(), label="order", src=src)
