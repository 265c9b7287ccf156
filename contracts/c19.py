"""C19 ELBND"""
from pyvc.dsl import *

N, n = ivar("N"), ivar("n")
COVERS = ["padasip/detection/elbnd.py"]
SRC = """
import padasip as pa
import numpy as np

def elbnd(w, e, f):
    return pa.detection.ELBND(w, e, function=f), w, e

def default(w, e):
    return pa.detection.ELBND(w, e)

def both(w, e, off):
    m = pa.detection.ELBND(w, e, "max")
    s = pa.detection.ELBND(w, e, "sum")
    m2 = pa.detection.ELBND(w + off, e, "max")
    s2 = pa.detection.ELBND(w + off, e, "sum")
    return m, s, m2, s2
"""
w, e = fn("w"), fn("e")


def inc(k, i):
    return abs_((w(k + 1, i) - w(k, i)) * e(k))


def value(f):
    agg = MAX if f == "max" else SUM
    return lambda k: IF(LT(k, N - 1), agg(n, lambda i: inc(k, i)), 0)


def contracts():
    out = []
    req = pos(N, n)
    ins = {"w": A(N, n), "e": A(N)}
    for f in ("max", "sum"):
        out.append(Contract("value." + f, SRC, "elbnd", dict(ins, f=C(f)),
                            lambda R, f=f: is_arr("value", R[0], [N], value(f)) + is_arr("weights unchanged", R[1], [N, n], w)
                            + is_arr("errors unchanged", R[2], [N], e) + each("never negative", R[0], lambda v, k: LE(0, v), [N])
                            , requires=req, covers=COVERS, samples=20))
    out.append(Contract("value.default", SRC, "default", ins, lambda R: is_arr("value", R, [N], value("max")), requires=req, covers=COVERS))
    off = fn("off")
    out.append(Contract("relations", SRC, "both", dict(ins, off=A(n)),
                        lambda R: is_arr("offset (max)", R[2], [N], lambda k: R[0](k)) + is_arr("offset (sum)", R[3], [N], lambda k: R[1](k))
                        + each("sum not below max", R[1], lambda v, k: LE(R[0](k), v), [N]),
                        requires=req, covers=COVERS))
    for f in ("mean", "", "MAX", "Sum", "min"):
        out.append(Contract("refuse." + f, SRC, "elbnd", dict(ins, f=C(f)), lambda R: [], requires=req,
                            raises={"ValueError": T.TRUE}, covers=COVERS, samples=3))
    out.append(Contract("refuse.anyother", SRC, "elbnd", dict(ins, f=Str(["avg", "maxsum", "max ", "x"])), lambda R: [],
                        requires=req + notstr("f", "max", "sum"), raises={"ValueError": T.TRUE}, covers=COVERS, samples=4))
    return out
