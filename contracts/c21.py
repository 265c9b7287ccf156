"""C21 extreme seeking entropy

D[0] = 0: the first row has no increment. The generalized Pareto distribution is scipy's (its fit and its distribution
function are uninterpreted here, evaluated by scipy in the runs against the real code)."""
from pyvc.dsl import *

N, n, W = ivar("N"), ivar("n"), ivar("window")
COVERS = ["padasip/detection/ese.py"]
SRC = """
import padasip as pa
import numpy as np

def ese(w, window, method):
    return pa.detection.ESE(w, window=window, pot_method=method), w

def positional(w, window, method):
    return pa.detection.ESE(w, window, method), w

def default_method(w, window):
    return pa.detection.ESE(w, window=window), w

def offset(w, off, window, method):
    return pa.detection.ESE(w, window=window, pot_method=method), pa.detection.ESE(w + off, window=window, pot_method=method)

def later(w, w2, window, method):
    return pa.detection.ESE(w, window=window, pot_method=method), pa.detection.ESE(w2, window=window, pot_method=method)
"""
METHODS = {"10%": lambda n: trunc(n / 10), "30%": lambda n: trunc(3 * n / 10), "sqrt": lambda n: trunc(sqrt(n)), "log10": lambda n: trunc(log10(n)),
           "log10log10": lambda n: trunc(MINOF(power(n, P(2) / 3) / log10(log10(n)), n))}


def MINOF(a, b):
    return IF(LE(a, b), a, b)


def trunc(x):
    return T.mk_app("trunc", x)


def spec(w, method):
    D = lambda k, j: IF(LE(1, k), abs_(w(k, j) - w(k - 1, j)), 0)
    c = METHODS[method](W)
    count = IF(LE(1, c), c, 1)
    asc = lambda i, j, r: big("sort", W, lambda v: D(i - W + v, j), r)           # the window's increments, ascending
    top = lambda i, j, r: asc(i, j, W - 1 - r)
    least = lambda i, j: top(i, j, count - 1)
    shape = lambda i, j: big("gpfit_c", count, lambda r: top(i, j, r), least(i, j))
    scale = lambda i, j: big("gpfit_s", count, lambda r: top(i, j, r), least(i, j))
    tail = lambda i, j: 1 - T.mk_app("gpcdf", D(i, j), shape(i, j), least(i, j), scale(i, j))
    p = lambda i, j: IF(LT(least(i, j), D(i, j)), tail(i, j) + 1 / P(10 ** 20), 1)
    return lambda i: IF(LT(i, W), 0, -log10(big("prod", n, lambda j: p(i, j))))


def contracts():
    out = []
    w = fn("w")
    req = pos(N, n) + [LE(1, W), LT(W, N)]

    def same(R, k=1):
        return is_arr("weights unchanged", R[k], [N, n], w)

    def add(m, kind=""):
        few = m in ("log10",)           # scipy takes seconds to fit a single value
        kw = dict(covers=COVERS, requires=req, samples=5 if few or kind else 12, tol=1e-4,
                  bounds={"window": lambda r: r.choice([1, 2, 3, 4, 5, 7, 9, 11, 12, 20]), "N": lambda r: r.randint(2, 12 if few or kind else 24),
                          "n": (1, 2), "K": (0, 14)})
        value = lambda R: is_arr("value", R[0], [N], spec(w, m)) + same(R)
        if not kind:
            out.append(Contract("value." + m, SRC, "ese", {"w": A(N, n), "window": Z(), "method": C(m)}, value, **kw))
            out.append(Contract("integers." + m, SRC, "ese", {"w": A(N, n, dt="i"), "window": Z(), "method": C(m)}, 
                                lambda R: is_arr("value", R[0], [N], spec(fn("w", True), m)) + is_arr("weights unchanged", R[1], [N, n], fn("w", True)), **kw))
        if kind == "positional":
            out.append(Contract("positional." + m, SRC, "positional", {"w": A(N, n), "window": Z(), "method": C(m)}, value, **kw))
        if kind == "default":
            out.append(Contract("default method", SRC, "default_method", {"w": A(N, n), "window": Z()}, value, **kw))
        if kind == "offset":
            out.append(Contract("offset." + m, SRC, "offset", {"w": A(N, n), "off": A(n), "window": Z(), "method": C(m)},
                                lambda R: is_arr("same value with an offset", R[1], [N], R[0]), **kw))
        if kind == "later":
            w2 = lambda k, j: IF(LE(k, ivar("K")), w(k, j), fn("w2")(k, j))
            out.append(Contract("later." + m, SRC, "later", {"w": A(N, n), "w2": A(N, n, f=w2), "window": Z(), "method": C(m)},
                                lambda R: pointwise("no later weight matters", [N], lambda i: IF(LE(i, ivar("K")), R[0](i), 0), lambda i: IF(LE(i, ivar("K")), R[1](i), 0)), **kw))
    for m in METHODS:
        add(m)
    for k, m in (("positional", "sqrt"), ("default", "10%"), ("offset", "30%"), ("later", "10%")):
        add(m, k)
    return out
