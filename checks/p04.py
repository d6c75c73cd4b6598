"""P04: histories of database updates and scans against spec/Machine.tla (logical update view)."""
import vlib, gen2
from machine import conform

MODES = ("native", "consult", "meta")


def check(c):
    src = vlib.build()
    for k in range(6 if vlib.THOROUGH else 1):
        r = vlib.rng("P04", "dyn", k)
        conform(c, [gen2.dyn_test(r, i) for i in range(900)], modes=MODES, label="dyn", src=src)
        r = vlib.rng("P04", "big", k)
        conform(c, [gen2.big_dyn_test(r, i) for i in range(80)], modes=MODES, label="big", src=src)
