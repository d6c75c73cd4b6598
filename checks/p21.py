"""P21: grammars against the textbook translation of spec/Dcg.tla run by the machine."""
import vlib, gen4
from machine import conform


def check(c):
    src = vlib.build()
    for k in range(8 if vlib.THOROUGH else 1):
        r = vlib.rng("P21", k)
        conform(c, [gen4.dcg_test(r, i) for i in range(1500)], label="dcg", src=src)
