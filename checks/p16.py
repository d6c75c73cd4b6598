"""P16: domains only shrink, keep every solution, and come back on backtracking, exceptions and failures (spec/FdRun.tla)."""
import vlib, fd


def check(c):
    src = vlib.build()
    for k in range(14 if vlib.THOROUGH else 1):
        for vmax, n, wide in ((127, 2000, 150), (600, 700, 0), (1000, 500, 40)):
            r = vlib.rng("P16", k, vmax)
            fd.conform(c, fd.hists("P16", r, n, vmax, wide), label="fd%d" % vmax, src=src, vmax=vmax)
