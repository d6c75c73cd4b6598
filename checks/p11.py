"""P11: op/3 histories, clause texts and tokens: the operator table and the terms read (spec/Syntax.tla)."""
import vlib, syn


def check(c):
    src = vlib.build()
    for k in range(20 if vlib.THOROUGH else 1):
        syn.conform(c, syn.hists("P11", vlib.rng("P11", k), 600, 24), label="h%d" % k, src=src)
