"""C15 standardization"""
from pyvc.dsl import *

N = ivar("N")
COVERS = ["padasip/preprocess/standardize.py", "padasip/preprocess/standardize_back.py"]
SRC = """
import padasip as pa
import numpy as np

def std(x, offset, scale):
    return pa.standardize(x, offset=offset, scale=scale), x

def std_default(x):
    return pa.standardize(x), x

def std_offset(x, offset):
    return pa.standardize(x, offset=offset), x

def std_scale(x, scale):
    return pa.standardize(x, scale=scale), x

def back(x, offset, scale):
    return pa.standardize_back(x, offset, scale), x

def roundtrip(x, offset, scale):
    xs = pa.standardize(x, offset=offset, scale=scale)
    y = pa.standardize_back(xs, offset, scale)
    xb = pa.standardize_back(x, offset, scale)
    z = pa.standardize(xb, offset=offset, scale=scale)
    return y, z
"""


def contracts():
    out = []
    KINDS = {"array": (lambda: A(N), False), "list": (lambda: Lst(N), False), "intarray": (lambda: A(N, dt="i"), True)}
    o, s = var("offset"), var("scale")
    nz = [Not(EQ(s, 0))]
    for kn, (k, ii) in KINDS.items():
        x = fn("x", ii)
        m = SUM(N, x) / N
        v = SUM(N, lambda i: (x(i) - m) ** 2) / N
        sd = sqrt(v)
        nonconst = pos(N) + [LT(0, v)]
        same = lambda R, x=x: is_arr("argument unchanged", R[1], [N], x)
        out.append(Contract("standardize." + kn, SRC, "std", {"x": k(), "offset": R("offset"), "scale": R("scale")},
                            lambda R, x=x, same=same: is_arr("value", R[0], [N], lambda i: (x(i) - o) / s, dt="f") + same(R),
                            requires=nz + pos(N), covers=COVERS))
        out.append(Contract("standardize.zero-offset." + kn, SRC, "std", {"x": k(), "offset": C(0), "scale": R("scale")},
                            lambda R, x=x: is_arr("value", R[0], [N], lambda i: x(i) / s, dt="f"), requires=nz + pos(N), covers=COVERS))
        out.append(Contract("standardize.intparams." + kn, SRC, "std", {"x": k(), "offset": Z(ivar("offset")), "scale": Z(ivar("scale"))},
                            lambda R, x=x: is_arr("value", R[0], [N], lambda i: (x(i) - ivar("offset")) / ivar("scale"), dt="f"),
                            requires=[Not(EQ(ivar("scale"), 0))] + pos(N), covers=COVERS))
        out.append(Contract("standardize.default." + kn, SRC, "std_default", {"x": k()},
                            lambda R, x=x, m=m, sd=sd, same=same: is_arr("value", R[0], [N], lambda i: (x(i) - m) / sd, dt="f") + same(R)
                            + [eq("mean 0", Lazy(lambda: SUM(N, lambda i: R[0](i)) / N), 0),
                               eq("variance 1", Lazy(lambda: SUM(N, lambda i: R[0](i) ** 2) / N), 1)],
                            requires=nonconst, covers=COVERS, samples=20))
        out.append(Contract("standardize.default-scale." + kn, SRC, "std_offset", {"x": k(), "offset": R("offset")},
                            lambda R, x=x, sd=sd, same=same: is_arr("value", R[0], [N], lambda i: (x(i) - o) / sd, dt="f") + same(R),
                            requires=nonconst, covers=COVERS))
        out.append(Contract("standardize.default-offset." + kn, SRC, "std_scale", {"x": k(), "scale": R("scale")},
                            lambda R, x=x, m=m, same=same: is_arr("value", R[0], [N], lambda i: (x(i) - m) / s, dt="f") + same(R),
                            requires=nz + pos(N), covers=COVERS))
        out.append(Contract("standardize_back." + kn, SRC, "back", {"x": k(), "offset": R("offset"), "scale": R("scale")},
                            lambda R, x=x, same=same: is_arr("value", R[0], [N], lambda i: x(i) * s + o, dt="f") + same(R),
                            requires=pos(N), covers=COVERS))
        out.append(Contract("inverse." + kn, SRC, "roundtrip", {"x": k(), "offset": R("offset"), "scale": R("scale")},
                            lambda R, x=x: is_arr("back after forth", R[0], [N], x) + is_arr("forth after back", R[1], [N], x),
                            requires=nz + pos(N), covers=COVERS, tol=1e-5))
    bad = {"string": C("abc"), "list": Lst(ivar("M")), "nonnumber": BadSeq(2)}
    for bn, b in bad.items():
        for f in ("std", "back"):
            out.append(Contract("%s.bad-offset.%s" % (f, bn), SRC, f, {"x": A(N), "offset": b, "scale": R("scale")}, lambda R: [],
                                requires=pos(N) + [LE(2, ivar("M"))] + nz, raises={"ValueError": T.TRUE}, covers=COVERS, samples=4))
            out.append(Contract("%s.bad-scale.%s" % (f, bn), SRC, f, {"x": A(N), "offset": R("offset"), "scale": b}, lambda R: [],
                                requires=pos(N) + [LE(2, ivar("M"))], raises={"ValueError": T.TRUE}, covers=COVERS, samples=4))
    return out
