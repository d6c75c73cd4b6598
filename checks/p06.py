"""P06: histories of global-variable operations against spec/Gvar.tla (inside spec/Machine.tla)."""
import vlib, gen2
from machine import conform


def check(c):
    src = vlib.build()
    for k in range(8 if vlib.THOROUGH else 1):
        r = vlib.rng("P06", k)
        conform(c, [gen2.gvar_test(r, i) for i in range(900)], modes=("native", "meta"), label="gvar", src=src)
