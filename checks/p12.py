"""P12: atom and character built-ins against their relations (spec/Atoms.tla run by spec/Machine.tla)."""
import vlib, gen3
from machine import conform


def check(c):
    src = vlib.build()
    for k in range(6 if vlib.THOROUGH else 1):
        r = vlib.rng("P12", k)
        conform(c, [gen3.atom_test(r, i) for i in range(900)], modes=("native", "meta"), label="atom", src=src)
