"""P17: reified, boolean and symbolic constraints mean what they say (spec/Fd.tla)."""
import vlib, fd


def check(c):
    src = vlib.build()
    for k in range(14 if vlib.THOROUGH else 1):
        for vmax, n, wide in ((127, 2000, 150), (600, 700, 0), (1000, 500, 40)):
            r = vlib.rng("P17", k, vmax)
            fd.conform(c, fd.hists("P17", r, n, vmax, wide), label="fd%d" % vmax, src=src, vmax=vmax)
