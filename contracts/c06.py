"""C06 RLS weights are the exact solution of the weighted least-squares problem

The contracts prove that run and adapt compute the recursion below for every history; lemmas/rls.lean (checked by Lean on
every run) proves that this recursion is the inverse of the weighted correlation matrix and the unique minimiser."""
from .filters_common import *
from .lemmas import lean

SRC = """
import padasip as pa
import numpy as np

def history(n, w0, d, x, dn, xn, mu, eps):
    f = pa.filters.FilterRLS(n, w=w0, mu=mu, eps=eps)
    y, e, w = f.run(d, x)
    before = f.w.copy()
    f.adapt(dn, xn)
    return y, e, w, before, f.w, f.predict(xn)

def steps(n, w0, d, x, N, mu, eps):
    f = pa.filters.FilterRLS(n, w=w0, mu=mu, eps=eps)
    w = np.zeros((N, n))
    for k in range(N):
        f.adapt(d[k], x[k])
        w[k, :] = f.w
    return w

def again(n, w0, d, x, d2, x2, mu, eps):
    f = pa.filters.FilterRLS(n, w=w0, mu=mu, eps=eps)
    f.run(d, x)
    y, e, w = f.run(d2, x2)
    return y, e, w, f.w
"""


def spec(d, x):
    """R(k), w(k) after k samples (the same definition as in lemmas/rls.lean)"""
    def Rx(S, k, i):
        return SUM(n, lambda j: S("R")(k, i, j) * x(k, j))

    def xR(S, k, i):
        return SUM(n, lambda j: x(k, j) * S("R")(k, j, i))

    def newR(S, k, i, j):
        q = SUM(n, lambda l: x(k, l) * Rx(S, k, l))
        return (S("R")(k, i, j) - Rx(S, k, i) * xR(S, k, j) / (mu + q)) / mu

    def e(S, k):
        return d(k) - dot(lambda j: S("w")(k, j), lambda j: x(k, j))
    return Recur(R=(2, lambda i, j: IF(EQ(i, j), 1, 0) / eps, newR),
                 w=(1, w0, lambda S, k, i: S("w")(k, i) + e(S, k) * SUM(n, lambda j: newR(S, k, i, j) * x(k, j))))


def contracts():
    req = pos(N, n) + [LT(0, mu), LT(0, eps)]
    base = {"n": Z(), "w0": A(n), "d": A(N), "x": A(N, n), "N": Z(), "dn": R(), "xn": A(n), "d2": A(M), "x2": A(M, n), "mu": R(), "eps": R()}
    D = lambda k: IF(LT(k, N), d(k), var("dn"))
    X = lambda k, i: IF(LT(k, N), x(k, i), fn("xn")(i))
    D2 = lambda k: IF(LT(k, N), d(k), fn("d2")(k - N))
    X2 = lambda k, i: IF(LT(k, N), x(k, i), fn("x2")(k - N, i))
    kw = dict(covers=FILES["RLS"], bounds=BOUNDS, samples=20)

    def trace(R, W, N, d, x):
        y = lambda k: dot(lambda i: W(k, i), lambda i: x(k, i))
        return (is_arr("weights at each sample", R[2], [N, n], W) + is_arr("outputs", R[0], [N], y)
                + is_arr("errors", R[1], [N], lambda k: d(k) - y(k)))

    def history(R):
        W, V = spec(d, x)["w"], spec(D, X)["w"]
        return (trace(R, W, N, d, x) + is_arr("weights after run", R[3], [n], lambda i: W(N, i))
                + is_arr("weights after adapt", R[4], [n], lambda i: V(N + 1, i))
                + is_num("next prediction", R[5], dot(lambda i: V(N + 1, i), fn("xn"))))

    def steps(R):
        W = spec(d, x)["w"]
        return is_arr("weights after each sample", R, [N, n], lambda k, i: W(k + 1, i))

    def again(R):
        V = spec(D2, X2)["w"]
        return (trace(R, lambda k, i: V(k + N, i), M, fn("d2"), fn("x2")) + is_arr("last weights", R[3], [n], lambda i: V(N + M, i)))
    ins = lambda s: {k: base[k] for k in s.split()}
    return [
        Contract("RLS.history", SRC, "history", ins("n w0 d x dn xn mu eps"), history, requires=req, **kw),
        Contract("RLS.steps", SRC, "steps", ins("n w0 d x N mu eps"), steps, requires=req, **kw),
        Contract("RLS.again", SRC, "again", ins("n w0 d x d2 x2 mu eps"), again, requires=req + pos(M), **kw),
    ]


def lemmas(tier):
    return lean("rls.lean", ["inverse", "phi_sym", "R_pos", "divisor_pos", "cost_square", "unique_minimiser"],
                "the recursion is the inverse weighted correlation matrix and its weights the unique minimiser of the cost")
