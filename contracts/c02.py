"""C02 one run, several runs and sample-by-sample adaptation are the same filter"""
from .filters_common import *

SRC = """
import padasip as pa
import numpy as np

def split(n, w0, d, x, m, dn, xn, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    y1, e1, w1 = f.run(d[:m], x[:m])
    y2, e2, w2 = f.run(d[m:], x[m:])
    y, e, w = g.run(d, x)
    a, b = f.w.copy(), g.w.copy()
    f.adapt(dn, xn)
    g.adapt(dn, xn)
    return y1, e1, w1, y2, e2, w2, y, e, w, a, b, f.w, g.w

def stepwise(n, w0, d, x, N, dn, xn, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    ws = np.zeros((N, n))
    for k in range(N):
        ws[k, :] = f.w
        f.adapt(d[k], x[k])
    y, e, w = g.run(d, x)
    a, b = f.w.copy(), g.w.copy()
    f.adapt(dn, xn)
    g.adapt(dn, xn)
    return ws, w, a, b, f.w, g.w

def continued(n, w0, d, x, N, m, d2, x2, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    f.run(d[:m], x[:m])
    for k in range(m, N):
        f.adapt(d[k], x[k])
    y1, e1, w1 = f.run(d2, x2)
    g.run(d, x)
    y2, e2, w2 = g.run(d2, x2)
    return y1, e1, w1, f.w, y2, e2, w2, g.w
"""
m = ivar("m")


def contracts():
    out = []
    for f in ALL:
        src = SRC.replace("NAME", f).replace("KW", kwargs(f)).replace("PARAMS", params(f))
        base = {"n": Z(), "w0": A(n), "d": A(N), "x": A(N, n), "N": Z(), "m": Z(), "dn": R(), "xn": A(n)}
        base.update(pin(f))
        names = ["n", "w0", "d", "x"] + PARAMS[f]
        ins = lambda *more: {k: base[k] for k in names + list(more)}
        req = requires(f)
        split_req = req + [LE(1, m), LT(m, N)]

        def ens(R):
            y1, e1, w1, y2, e2, w2, y, e, w, a, b, fw, gw = R
            g = is_arr("outputs of the first part", y1, [m], lambda k: y(k)) + is_arr("outputs of the second part", y2, [N - m], lambda k: y(k + m))
            g += is_arr("errors of the first part", e1, [m], lambda k: e(k)) + is_arr("errors of the second part", e2, [N - m], lambda k: e(k + m))
            g += is_arr("weights of the first part", w1, [m, n], lambda k, i: w(k, i))
            g += is_arr("weights of the second part", w2, [N - m, n], lambda k, i: w(k + m, i))
            g += is_arr("final weights", a, [n], lambda i: b(i))
            return g + is_arr("next sample", fw, [n], lambda i: gw(i))

        def ens2(R):
            ws, w, a, b, fw, gw = R
            g = is_arr("weights before each sample", ws, [N, n], lambda k, i: w(k, i))
            return g + is_arr("final weights", a, [n], lambda i: b(i)) + is_arr("next sample", fw, [n], lambda i: gw(i))

        def ens3(R):
            y1, e1, w1, fw, y2, e2, w2, gw = R
            g = is_arr("later outputs", y1, [M], lambda k: y2(k)) + is_arr("later errors", e1, [M], lambda k: e2(k))
            return g + is_arr("later weights", w1, [M, n], lambda k, i: w2(k, i)) + is_arr("last weights", fw, [n], lambda i: gw(i))
        kw = dict(covers=FILES[f], bounds=BOUNDS, samples=8)
        out.append(Contract(f + ".split", src, "split", ins("m", "dn", "xn"), ens, requires=split_req, **kw))
        out.append(Contract(f + ".stepwise", src, "stepwise", ins("N", "dn", "xn"), ens2, requires=req, **kw))
        i3 = ins("N", "m")
        i3.update({"d2": A(M), "x2": A(M, n)})
        out.append(Contract(f + ".continued", src, "continued", i3, ens3, requires=split_req + pos(M), **kw))
    return out
