"""P02: clause selection (first-argument indexing) in every execution mode against spec/Machine.tla."""
import vlib, gen2
from machine import conform


def check(c):
    src = vlib.build()
    for k in range(6 if vlib.THOROUGH else 1):
        r = vlib.rng("P02", k)
        conform(c, [gen2.index_test(r, i) for i in range(900)], label="index", src=src)
