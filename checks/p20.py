"""P20: loading source files defines what the text says (spec/Load.tla, spec/LoadRun.tla)."""
import vlib, syn, load, genreload
from machine import conform


def check(c):
    src = vlib.build()
    for k in range(20 if vlib.THOROUGH else 2):
        syn.conform(c, load.hists("P20", vlib.rng("P20", k), 800, 14 if k % 4 else 20), label="h%d-" % k, src=src, module="LoadRun", drv="loaddrv", one=load.one, show=load.shown)
    for k in range(12 if vlib.THOROUGH else 1):
        r = vlib.rng("P20reload", k)
        conform(c, [genreload.reload_test(r, i) for i in range(400)], modes=("consult",), label="reload%d" % k, src=src, chunk=10)
