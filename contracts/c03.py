"""C03 predict is the dot product and changes nothing"""
from .filters_common import *

SRC = """
import padasip as pa
import numpy as np

def fresh(n, w0, xq, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    y1 = f.predict(xq)
    y2 = f.predict(xq)
    return y1, y2, f.w, f.n, f.mu, xq

def trained(n, w0, d, x, dn, xn, xq, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    f.run(d, x)
    f.adapt(dn, xn)
    w = f.w.copy()
    y1 = f.predict(xq)
    y2 = f.predict(xq)
    return y1, y2, w, f.w, f.predict(np.zeros(n))

def unseen(n, w0, d, x, dn, xn, d2, x2, xq, P, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    f.predict(xn)
    f.run(d, x)
    for j in range(P):
        f.predict(xq[j])
    a = f.w.copy()
    f.adapt(dn, xn)
    f.predict(xq[0])
    y1, e1, w1 = f.run(d2, x2)
    g.run(d, x)
    b = g.w.copy()
    g.adapt(dn, xn)
    y2, e2, w2 = g.run(d2, x2)
    return a, y1, e1, w1, f.w, b, y2, e2, w2, g.w, f.predict(xn), g.predict(xn)

def interleaved(n, w0, d, x, N, xq, dn, xn, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    wf = np.zeros((N, n))
    wg = np.zeros((N, n))
    for k in range(N):
        f.predict(xq[k])
        f.predict(xn)
        f.adapt(d[k], x[k])
        wf[k, :] = f.w
        g.adapt(d[k], x[k])
        wg[k, :] = g.w
    f.adapt(dn, xn)
    g.adapt(dn, xn)
    return wf, wg, f.w, g.w
"""


def contracts():
    out = []
    xq, xn = fn("xq"), fn("xn")
    Pn = ivar("P")
    for f in ALL:
        src = SRC.replace("NAME", f).replace("KW", kwargs(f)).replace("PARAMS", params(f))
        base = dict({"n": Z(), "w0": A(n), "d": A(N), "x": A(N, n), "N": Z(), "dn": R(), "xn": A(n), "d2": A(M), "x2": A(M, n), "xq": A(n),
                     "P": Z()}, **pin(f))
        names = lambda *a: {k: base[k] for k in list(a) + PARAMS[f]}
        req = requires(f)
        kw = dict(covers=FILES[f], bounds=dict(BOUNDS, P=(1, 3)), samples=8)

        def ens(R):
            v = dot(w0, xq)
            return (is_num("predict is w.x", R[0], v) + is_num("predict again", R[1], v) + is_arr("weights", R[2], [n], w0)
                    + is_num("size", R[3], n) + is_num("step size", R[4], mu) + is_arr("input", R[5], [n], xq))
        out.append(Contract(f + ".fresh", src, "fresh", names("n", "w0", "xq"), ens, requires=req, **kw))

        def ens2(R, f=f):
            v = dot(lambda i: R[2](i), xq)
            if f == "OCNLMS":
                v = v + R[4].p      # centering: a constant added to the dot product
            return (is_num("predict is w.x", R[0], v) + is_num("predict again", R[1], v) + is_arr("weights", R[3], [n], lambda i: R[2](i)))
        out.append(Contract(f + ".trained", src, "trained", names("n", "w0", "d", "x", "dn", "xn", "xq"), ens2, requires=req, **kw))

        def ens3(R):
            a, y1, e1, w1, fw, b, y2, e2, w2, gw, p, q = R
            return (is_arr("weights after run", a, [n], lambda i: b(i)) + is_arr("later outputs", y1, [M], lambda i: y2(i))
                    + is_arr("later errors", e1, [M], lambda i: e2(i)) + is_arr("later history", w1, [M, n], lambda k, i: w2(k, i))
                    + is_arr("last weights", fw, [n], lambda i: gw(i)) + is_num("last prediction", p, q.p if q.kind == "num" else q()))
        ins = names("n", "w0", "d", "x", "dn", "xn", "d2", "x2", "P")
        ins["xq"] = A(Pn, n)
        out.append(Contract(f + ".unseen", src, "unseen", ins, ens3, requires=req + pos(M, Pn), timeout=100 if f == "OCNLMS" else 240, **kw))

        def ens4(R):
            return (is_arr("weights after each sample", R[0], [N, n], lambda k, i: R[1](k, i)) + is_arr("last weights", R[2], [n], lambda i: R[3](i)))
        ins = names("n", "w0", "d", "x", "N", "dn", "xn")
        ins["xq"] = A(N, n)
        out.append(Contract(f + ".interleaved", src, "interleaved", ins, ens4, requires=req, timeout=100 if f == "OCNLMS" else 240, **kw))
    return out
