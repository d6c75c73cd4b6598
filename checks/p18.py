"""P18: labeling options only change the order; fd_minimize and fd_maximize find the optimum (spec/Fd.tla)."""
import vlib, fd


def check(c):
    src = vlib.build()
    for k in range(14 if vlib.THOROUGH else 1):
        for vmax, n, wide in ((127, 1500, 900), (600, 700, 0), (1000, 500, 40)):
            r = vlib.rng("P18", k, vmax)
            fd.conform(c, fd.hists("P18", r, n, vmax, wide), label="fd%d" % vmax, src=src, vmax=vmax)
