"""C16 history matrix"""
from pyvc.dsl import *

N, n = ivar("L"), ivar("n")
COVERS = ["padasip/preprocess/input_from_history.py"]
SRC = """
import padasip as pa

def hist(a, n):
    return pa.input_from_history(a, n), a

def rows(a, n, bias):
    return len(pa.input_from_history(a, n, bias)), a

def hist_bias(a, n, bias):
    return pa.input_from_history(a, n, bias=bias), a
"""


def contracts():
    out = []
    KINDS = {"array": (lambda: A(N), False), "list": (lambda: Lst(N), False), "intarray": (lambda: A(N, dt="i"), True),
             "intlist": (lambda: Lst(N, dt="i"), True)}
    ok = pos(n) + [LE(n, N)]
    for kn, (k, ii) in KINDS.items():
        a = fn("a", ii)
        same = lambda R, a=a: is_arr("series unchanged", R[1], [N], a)
        out.append(Contract("windows." + kn, SRC, "hist", {"a": k(), "n": Z(n)},
                            lambda R, a=a, same=same: is_arr("matrix", R[0], [N - n + 1, n], lambda i, j: a(i + j), dt="f") + same(R),
                            requires=ok, covers=COVERS))
        out.append(Contract("nobias." + kn, SRC, "hist_bias", {"a": k(), "n": Z(n), "bias": C(False)},
                            lambda R, a=a, same=same: is_arr("matrix", R[0], [N - n + 1, n], lambda i, j: a(i + j), dt="f") + same(R),
                            requires=ok, covers=COVERS))
        out.append(Contract("bias." + kn, SRC, "hist_bias", {"a": k(), "n": Z(n), "bias": C(True)},
                            lambda R, a=a, same=same: is_arr("matrix", R[0], [N - n + 1, n + 1],
                                                            lambda i, j: IF(LT(j, n), a(i + j), 1), dt="f") + same(R),
                            requires=ok, covers=COVERS))
        for bn in (False, True):
            out.append(Contract("short.%s.%s" % (kn, "bias" if bn else "nobias"), SRC, "rows", {"a": k(), "n": Z(n), "bias": C(bn)},
                                lambda R, same=same: is_num("no window, no row", R[0], 0) + same(R),
                                requires=pos(n) + [LE(0, N), LT(N, n)], covers=COVERS))
    out.append(Contract("refuse.nonpositive", SRC, "hist", {"a": A(N), "n": Z(n)}, lambda R: [],
                        requires=pos(N) + [LE(n, 0)], raises={"ValueError": T.TRUE}, covers=COVERS))
    for nm, v in {"float": C(2.0), "float2": C(2.5), "string": C("2"), "none": C(None), "anyfloat": R("q")}.items():
        out.append(Contract("refuse.n." + nm, SRC, "hist", {"a": A(N), "n": v}, lambda R: [], requires=[LE(3, N)],
                            raises={"ValueError": T.TRUE}, covers=COVERS, samples=4))
    out.append(Contract("refuse.series", SRC, "hist", {"a": BadSeq(N), "n": Z(n)}, lambda R: [], requires=ok,
                        raises={"ValueError": T.TRUE}, covers=COVERS, samples=4))
    out.append(Contract("refuse.series.string", SRC, "hist", {"a": C("abc"), "n": Z(n)}, lambda R: [], requires=pos(n) + [LE(n, 3)],
                        raises={"ValueError": T.TRUE}, covers=COVERS, samples=4))
    return out
