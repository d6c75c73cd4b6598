"""P15: relations over FD variables: labeling gives exactly the assignments that satisfy the constraints (spec/Fd.tla)."""
import vlib, fd


def check(c):
    src = vlib.build()
    for k in range(14 if vlib.THOROUGH else 1):
        for vmax, n, wide in ((127, 2000, 150), (600, 700, 0), (1000, 500, 40)):
            r = vlib.rng("P15", k, vmax)
            fd.conform(c, fd.hists("P15", r, n, vmax, wide), label="fd%d" % vmax, src=src, vmax=vmax)
