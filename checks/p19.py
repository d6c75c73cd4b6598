"""P19: the C interface against spec/Machine.tla (scripts run in C)."""
import os
import vlib, gencif
from machine import conform

HERE = os.path.join(vlib.VERIF, "harness", "c")


def cobjs(src):
    """The C functions and their foreign declarations, compiled with the tree's own header."""
    out = os.path.join(vlib.workdir(), "cif.o")
    inc = "-I%s -I%s" % (os.path.join(src, "EnginePl"), os.path.join(src, "BipsPl"))
    e = vlib.gplc(src, [os.path.join(HERE, "cif.c")], out, opts=["-C", inc, "-c"])
    if e:
        raise vlib.CheckError("cif.c does not compile: " + e[-800:])
    return [out, os.path.join(HERE, "cif.pl")]


def check(c):
    src = vlib.build()
    objs = cobjs(src)
    for k in range(6 if vlib.THOROUGH else 1):
        r = vlib.rng("P19", k)
        conform(c, [gencif.cif_test(r, i) for i in range(900)], label="cif", src=src, objs=objs)
