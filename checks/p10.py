"""P10: text written for a term denotes it and reads back as it under any operator table (spec/Syntax.tla)."""
import vlib, syn


def check(c):
    src = vlib.build()
    for k in range(20 if vlib.THOROUGH else 1):
        syn.conform(c, syn.hists("P10", vlib.rng("P10", k), 900, 24), label="h%d" % k, src=src)
