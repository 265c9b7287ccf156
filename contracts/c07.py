"""C07 affine projection uses exactly the most recent window of samples"""
from .filters_common import *

SRC = """
import padasip as pa
import numpy as np

def history(n, w0, d, x, dn, xn, mu, order, ifc):
    f = pa.filters.FilterAP(n, w=w0, mu=mu, order=order, ifc=ifc)
    y, e, w = f.run(d, x)
    before = f.w.copy()
    f.adapt(dn, xn)
    return y, e, w, before, f.w

def steps(n, w0, d, x, N, mu, order, ifc):
    f = pa.filters.FilterAP(n, w=w0, mu=mu, order=order, ifc=ifc)
    w = np.zeros((N, n))
    for k in range(N):
        f.adapt(d[k], x[k])
        w[k, :] = f.w
    return w

def again(n, w0, d, x, d2, x2, mu, order, ifc):
    f = pa.filters.FilterAP(n, w=w0, mu=mu, order=order, ifc=ifc)
    f.run(d, x)
    y, e, w = f.run(d2, x2)
    return y, e, w, f.w
"""
order = ivar("order")


def spec(d, x):
    """w(k): weights after k samples"""
    X = lambda k, i, q: IF(EQ(q, 0), x(k, i), IF(LE(q, k), x(k - q, i), 0))
    D = lambda k, q: IF(EQ(q, 0), d(k), IF(LE(q, k), d(k - q), 0))

    def E(S, k, q):
        return D(k, q) - SUM(n, lambda i: X(k, i, q) * S("w")(k, i))

    def inc(S, k, i):
        G = lambda p, q: SUM(n, lambda j: X(k, j, p) * X(k, j, q)) + ifc * IF(EQ(p, q), 1, 0)
        return mu * SUM(order, lambda q: X(k, i, q) * SUM(order, lambda r: big2("minv", order, order, G, q, r) * E(S, k, r)))
    return Recur(w=(1, w0, lambda S, k, i: S("w")(k, i) + inc(S, k, i)))["w"]


def contracts():
    req = pos(N, n, order) + [LT(0, ifc)]
    base = {"n": Z(), "w0": A(n), "d": A(N), "x": A(N, n), "N": Z(), "dn": R(), "xn": A(n), "d2": A(M), "x2": A(M, n), "mu": R(),
            "order": Z(), "ifc": R()}
    D = lambda k: IF(LT(k, N), d(k), var("dn"))
    X = lambda k, i: IF(LT(k, N), x(k, i), fn("xn")(i))
    D2 = lambda k: IF(LT(k, N), d(k), fn("d2")(k - N))
    X2 = lambda k, i: IF(LT(k, N), x(k, i), fn("x2")(k - N, i))
    kw = dict(covers=FILES["AP"], bounds=BOUNDS, samples=20)

    def trace(R, W, N, d, x):
        y = lambda k: dot(lambda i: W(k, i), lambda i: x(k, i))
        return (is_arr("weights at each sample", R[2], [N, n], W) + is_arr("outputs", R[0], [N], y)
                + is_arr("errors", R[1], [N], lambda k: d(k) - y(k)))

    def history(R):
        W, V = spec(d, x), spec(D, X)
        return (trace(R, W, N, d, x) + is_arr("weights after run", R[3], [n], lambda i: W(N, i))
                + is_arr("weights after adapt", R[4], [n], lambda i: V(N + 1, i)))

    def again(R):
        V = spec(D2, X2)
        return (trace(R, lambda k, i: V(k + N, i), M, fn("d2"), fn("x2")) + is_arr("last weights", R[3], [n], lambda i: V(N + M, i)))
    ins = lambda s: {k: base[k] for k in s.split()}
    return [
        Contract("AP.history", SRC, "history", ins("n w0 d x dn xn mu order ifc"), history, requires=req, **kw),
        Contract("AP.steps", SRC, "steps", ins("n w0 d x N mu order ifc"),
                 lambda R: is_arr("weights after each sample", R, [N, n], lambda k, i: spec(d, x)(k + 1, i)), requires=req, **kw),
        Contract("AP.again", SRC, "again", ins("n w0 d x d2 x2 mu order ifc"), again, requires=req + pos(M), **kw),
    ]
