"""P25: format/2,3 lays out text and columns as specified (spec/Format.tla, spec/FormatRun.tla)."""
import vlib, syn, fmt


def check(c):
    src = vlib.build()
    for k in range(24 if vlib.THOROUGH else 2):
        syn.conform(c, fmt.hists("P25", vlib.rng("P25", k), 4000), label="h%d-" % k, src=src, module="FormatRun", drv="fmtdrv", one=fmt.one, show=fmt.shown)
