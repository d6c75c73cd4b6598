"""P24: flags, character conversions and predicate tables change and act as specified (spec/Flags.tla, spec/FlagsRun.tla)."""
import vlib, syn, flg


def check(c):
    src = vlib.build()
    for k in range(24 if vlib.THOROUGH else 2):
        syn.conform(c, flg.hists("P24", vlib.rng("P24", k), 700), label="h%d-" % k, src=src, module="FlagsRun", drv="flgdrv", one=flg.one, show=flg.shown)
