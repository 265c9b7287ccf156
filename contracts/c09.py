"""C09 filters neither modify nor retain the caller's arrays, and share nothing"""
from .filters_common import *

SRC = """
import padasip as pa
import numpy as np

def buffers(n, w0, d, x, N, junk, dn, xn, PARAMS):
    a = w0.copy()
    f = pa.filters.FilterNAME(n, w=a, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    a[:] = junk[0]
    buf = np.zeros(n)
    wf = np.zeros((N, n))
    wg = np.zeros((N, n))
    for k in range(N):
        buf[:] = x[k]
        f.adapt(d[k], buf)
        buf[:] = junk[k]
        wf[k, :] = f.w
        g.adapt(d[k], x[k].copy())
        wg[k, :] = g.w
    f.adapt(dn, xn)
    g.adapt(dn, xn)
    return wf, wg, f.w, g.w

def overwritten(n, w0, d, x, jd, jx, dn, xn, jn, d2, x2, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    d1, x1, xb = d.copy(), x.copy(), xn.copy()
    f.run(d1, x1)
    d1[:] = jd
    x1[:, :] = jx
    f.adapt(dn, xb)
    xb[:] = jn
    y1, e1, w1 = f.run(d2, x2)
    g.run(d.copy(), x.copy())
    g.adapt(dn, xn.copy())
    y2, e2, w2 = g.run(d2.copy(), x2.copy())
    return y1, e1, w1, f.w, y2, e2, w2, g.w

def intact(n, w0, d, x, dn, xn, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    f.run(d, x)
    f.adapt(dn, xn)
    f.predict(xn)
    f.run(d, x)
    return w0, d, x, xn

def kept(n, w0, d, x, dn, xn, d2, x2, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    y, e, w = f.run(d, x)
    y0, e0, ws = y.copy(), e.copy(), w.copy()
    f.adapt(dn, xn)
    f.predict(xn)
    f.run(d2, x2)
    return y, e, w, y0, e0, ws

def separate(n, w0, v0, d, x, dn, xn, d2, x2, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=v0, KW)
    h = pa.filters.FilterNAME(n, w=w0, KW)
    f.run(d, x)
    g.run(d2, x2)
    g.adapt(dn, xn)
    f.adapt(dn, xn)
    g.run(d, x)
    h.run(d, x)
    h.adapt(dn, xn)
    y1, e1, w1 = f.run(d2, x2)
    y2, e2, w2 = h.run(d2, x2)
    return y1, e1, w1, f.w, y2, e2, w2, h.w
"""


def contracts():
    out = []
    base = {"n": Z(), "N": Z(), "w0": A(n), "v0": A(n), "d": A(N), "x": A(N, n), "dn": R(), "xn": A(n), "d2": A(M), "x2": A(M, n),
            "junk": A(N, n), "jd": A(N), "jx": A(N, n), "jn": A(n)}

    def same(R):
        y1, e1, w1, f, y2, e2, w2, g = R
        return (is_arr("outputs", y1, [M], lambda k: y2(k)) + is_arr("errors", e1, [M], lambda k: e2(k))
                + is_arr("history", w1, [M, n], lambda k, i: w2(k, i)) + is_arr("last weights", f, [n], lambda i: g(i)))
    for f in ALL:
        src = SRC.replace("NAME", f).replace("KW", kwargs(f)).replace("PARAMS", params(f))
        ins = lambda s: dict({k: base[k] for k in s.split()}, **pin(f))
        kw = dict(covers=FILES[f], bounds=BOUNDS, samples=8)
        req = requires(f)
        out.append(Contract(f + ".buffers", src, "buffers", ins("n w0 d x N junk dn xn"), lambda R: (
            is_arr("weights after each sample", R[0], [N, n], lambda k, i: R[1](k, i))
            + is_arr("last weights", R[2], [n], lambda i: R[3](i))), requires=req, **kw))
        out.append(Contract(f + ".overwritten", src, "overwritten", ins("n w0 d x jd jx dn xn jn d2 x2"), same, requires=req + pos(M), **kw))
        out.append(Contract(f + ".intact", src, "intact", ins("n w0 d x dn xn"), lambda R: (
            is_arr("initial weights", R[0], [n], w0) + is_arr("targets", R[1], [N], d) + is_arr("inputs", R[2], [N, n], x)
            + is_arr("sample", R[3], [n], fn("xn"))), requires=req, **kw))
        out.append(Contract(f + ".kept", src, "kept", ins("n w0 d x dn xn d2 x2"), lambda R: (
            is_arr("outputs", R[0], [N], lambda k: R[3](k)) + is_arr("errors", R[1], [N], lambda k: R[4](k))
            + is_arr("history", R[2], [N, n], lambda k, i: R[5](k, i))), requires=req + pos(M), **kw))
        out.append(Contract(f + ".separate", src, "separate", ins("n w0 v0 d x dn xn d2 x2"), same, requires=req + pos(M), **kw))
    return out
