"""P03: catch/throw in every execution mode against spec/Machine.tla."""
import vlib, gen
from machine import conform


def check(c):
    src = vlib.build()
    for k in range(6 if vlib.THOROUGH else 1):
        r = vlib.rng("P03", k)
        conform(c, [gen.control_test(r, i, exc=True) for i in range(900)], label="exc", src=src)
