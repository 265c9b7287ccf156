"""C08 documented stability conditions make every adaptation step safe"""
from .filters_common import *

SRC = """
import padasip as pa
import numpy as np

def step(n, w0, v, xn, d, x, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    f.run(d, x)
    dn = np.dot(v, xn)
    w = f.w.copy()
    before = dn - f.predict(xn)
    f.adapt(dn, xn)
    after = dn - f.predict(xn)
    return before, after, np.sum((w - v)**2), np.sum((f.w - v)**2), w

def zero_error(n, w0, xn, d, x, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    f.run(d, x)
    w = f.w.copy()
    f.adapt(f.predict(xn), xn)
    return w, f.w

def zero_error_fresh(n, w0, xn, x, N, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    y, e, w = f.run(np.dot(x, w0), x)
    f.adapt(np.dot(xn, w0), xn)
    return y, e, w, f.w

def zero_input(n, w0, d, x, dn, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    f.run(d, x)
    w = f.w.copy()
    f.adapt(dn, np.zeros(n))
    return w, f.w

def zero_input_fresh(n, w0, dn, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    f.adapt(dn, np.zeros(n))
    return f.w

def zero_inputs(n, N, w0, d, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    y, e, w = f.run(d, np.zeros((N, n)))
    return w, f.w
"""


def contracts():
    out = []
    xn = fn("xn")
    base = {"n": Z(), "N": Z(), "w0": A(n), "v": A(n), "d": A(N), "x": A(N, n), "dn": R(), "xn": A(n)}
    S2 = SUM(n, lambda i: xn(i) ** 2)
    for f in ALL:
        src = SRC.replace("NAME", f).replace("KW", kwargs(f)).replace("PARAMS", params(f))
        ins = lambda s: dict({k: base[k] for k in s.split()}, **pin(f))
        kw = dict(covers=FILES[f], bounds=BOUNDS, samples=12)
        req = requires(f)
        if f in ("LMS", "NLMS"):
            cond = [LE(0, mu), LE(mu, 2)] if f == "NLMS" else [LE(0, mu), LE(mu * S2, 2)]

            def ens(R):
                b, a, db, da, w = R
                return [holds("error on the sample does not grow", LE(a.p ** 2, b.p ** 2)),
                        holds("distance to a solution does not grow", LE(da.p, db.p))]
            out.append(Contract(f + ".step", src, "step", ins("n w0 v xn d x"), ens, requires=req + cond,
                                covers=FILES[f], bounds=dict(BOUNDS, mu=(0.0, 2.0) if f == "NLMS" else (0.0, 0.5)), samples=40))
        if f != "AP":
            out.append(Contract(f + ".zero_error", src, "zero_error", ins("n w0 xn d x"),
                                lambda R: is_arr("weights unchanged", R[1], [n], lambda i: R[0](i)), requires=req, **kw))
        if f not in ("OCNLMS", "SSLMS", "NSSLMS"):      # (the sign of a rounding error is not zero: those would fail natively)
            def ens0(R):
                return (is_arr("errors", R[1], [N], lambda k: T.ZERO) + is_arr("weights", R[2], [N, n], lambda k, i: w0(i))
                        + is_arr("weights afterwards", R[3], [n], w0))
            out.append(Contract(f + ".predicted", src, "zero_error_fresh", ins("n w0 xn x N"), ens0, requires=req,
                                covers=FILES[f], bounds=dict(BOUNDS, mu=(0.9, 1.0) if f == "RLS" else (0.0, 0.005)), samples=12))
        if f in ("NLMS", "NLMF", "NSSLMS"):
            out.append(Contract(f + ".zero_input", src, "zero_input", ins("n w0 d x dn"),
                                lambda R: is_arr("weights unchanged", R[1], [n], lambda i: R[0](i)), requires=req, defined=True, **kw))
        if f in ("NLMS", "NLMF", "NSSLMS", "GNGD", "OCNLMS", "RLS", "AP"):
            out.append(Contract(f + ".zero_input_first", src, "zero_input_fresh", ins("n w0 dn"),
                                lambda R: is_arr("weights unchanged", R, [n], w0), requires=req, defined=f != "RLS", **kw))
            out.append(Contract(f + ".zero_inputs", src, "zero_inputs", ins("n N w0 d"),
                                lambda R: is_arr("weights", R[0], [N, n], lambda k, i: w0(i)) + is_arr("last weights", R[1], [n], w0),
                                requires=req, **kw))
    return out
