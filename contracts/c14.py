"""C14 error measures"""
from pyvc.dsl import *

N, M = ivar("N"), ivar("M")
COVERS = ["padasip/misc/error_evaluation.py"]
SRC = """
import padasip as pa

def one(f, x):
    y = getattr(pa.misc, f)(x)
    return y, x

def two(f, x1, x2):
    y = getattr(pa.misc, f)(x1, x2)
    return y, x1, x2

def named(f, x):
    return pa.misc.get_mean_error(x, function=f)

def named2(f, x1, x2):
    return pa.misc.get_mean_error(x1, x2, f)
"""

SPEC = {
    "MAE": lambda e, n: SUM(n, lambda i: abs_(e(i))) / n,
    "MSE": lambda e, n: SUM(n, lambda i: e(i) ** 2) / n,
    "RMSE": lambda e, n: sqrt(SUM(n, lambda i: e(i) ** 2) / n),
}


def post(f, e, n, v, tag=""):
    if f == "logSE":
        return is_arr("value", v, [n], lambda i: 10 * log10(e(i) ** 2))
    return is_num("value", v, SPEC[f](e, n))


def contracts():
    out = []
    a, b = fn("x1"), fn("x2")
    kinds = {"array": lambda n: A(n), "list": lambda n: Lst(n), "intarray": lambda n: A(n, dt="i")}
    for f in ("MAE", "MSE", "RMSE", "logSE"):
        for kn, k in kinds.items():
            ii = kn == "intarray"
            x1, x2 = fn("x1", ii), fn("x2", ii)
            unchanged = (lambda nm, v, x, n: is_arr(nm + " unchanged", v, [n], x))
            out.append(Contract("%s.series.%s" % (f, kn), SRC, "one", {"f": C(f), "x1": k(N)},
                                lambda R, f=f, x1=x1: post(f, x1, N, R[0]) + is_arr("argument unchanged", R[1], [N], x1),
                                requires=pos(N), covers=COVERS))
            out.append(Contract("%s.pair.%s" % (f, kn), SRC, "two", {"f": C(f), "x1": k(N), "x2": k(M)},
                                lambda R, f=f, x1=x1, x2=x2: post(f, lambda i: x1(i) - x2(i), N, R[0])
                                + is_arr("first unchanged", R[1], [N], x1) + is_arr("second unchanged", R[2], [N], x2),
                                requires=pos(N, M), raises={"ValueError": Not(EQ(N, M))}, covers=COVERS, samples=16))
            out.append(Contract("%s.swapped.%s" % (f, kn), SRC, "two", {"f": C(f), "x2": k(N), "x1": k(N)},
                                lambda R, f=f, x1=x1, x2=x2: post(f, lambda i: x1(i) - x2(i), N, R[0]),
                                requires=pos(N), covers=COVERS))
    for f in ("MAE", "MSE", "RMSE"):
        out.append(Contract("get_mean_error.%s" % f, SRC, "named", {"f": C(f), "x1": A(N)},
                            lambda R, f=f: post(f, a, N, R), requires=pos(N), covers=COVERS))
        out.append(Contract("get_mean_error.%s.pair" % f, SRC, "named2", {"f": C(f), "x1": A(N), "x2": A(M)},
                            lambda R, f=f: post(f, lambda i: a(i) - b(i), N, R), requires=pos(N, M),
                            raises={"ValueError": Not(EQ(N, M))}, covers=COVERS))
    for f in ("", "mse", "MAD", "logSE", "RMSEE", "foo"):
        out.append(Contract("get_mean_error.unknown.%s" % f, SRC, "named", {"f": C(f), "x1": A(N)},
                            lambda R: [], requires=pos(N), raises={"ValueError": T.TRUE}, covers=COVERS, samples=2))
    out.append(Contract("get_mean_error.anyother", SRC, "named", {"f": Str(["x", "Mse", "MSE ", "LOGSE", "none"]), "x1": A(N)},
                        lambda R: [], requires=pos(N) + notstr("f", "MSE", "MAE", "RMSE"), raises={"ValueError": T.TRUE}, covers=COVERS, samples=8))
    return out
