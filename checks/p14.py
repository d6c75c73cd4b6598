"""P14: streams deliver and record exactly the characters, positions and modes (spec/Stream.tla, spec/StreamRun.tla)."""
import vlib, syn, stm


def check(c):
    src = vlib.build()
    for k in range(30 if vlib.THOROUGH else 3):
        hs = stm.hists("P14", vlib.rng("P14", k), 500, 45) + stm.hists("P14", vlib.rng("P14", k, "long"), 150, 90) + stm.hists("P14", vlib.rng("P14", k, "short"), 200, 20)
        syn.conform(c, hs, label="h%d" % k, src=src, module="StreamRun", drv="stmdrv", one=stm.one, show=stm.shown)
