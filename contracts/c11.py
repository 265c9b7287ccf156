"""C11 rejected data leave the filter exactly as it was"""
from .filters_common import *

SRC = """
import padasip as pa

def used(n, w0, d, x, db, xb, dn, xn, d2, x2, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    f.run(d, x)
    g.run(d, x)
    refused = False
    try:
        f.run(db, xb)
    except ValueError:
        refused = True
    p, q = f.predict(xn), g.predict(xn)
    wf, wg = f.w.copy(), g.w.copy()
    hf, hg = f.w_history.copy(), g.w_history.copy()
    f.adapt(dn, xn)
    g.adapt(dn, xn)
    y1, e1, w1 = f.run(d2, x2)
    y2, e2, w2 = g.run(d2, x2)
    return refused, y1, e1, w1, f.w, y2, e2, w2, g.w, p, q, wf, wg, f.n, hf, hg

def fresh(n, w0, db, xb, d2, x2, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    refused = False
    try:
        f.run(db, xb)
    except ValueError:
        refused = True
    y1, e1, w1 = f.run(d2, x2)
    y2, e2, w2 = g.run(d2, x2)
    return refused, y1, e1, w1, f.w, y2, e2, w2, g.w

def raising(n, w0, dn, xn, db, xb, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    f.adapt(dn, xn)
    f.run(db, xb)
"""


def contracts():
    out = []
    K, q = ivar("K"), ivar("q")
    ins0 = {"n": Z(), "w0": A(n), "d": A(N), "x": A(N, n), "dn": R(), "xn": A(n), "d2": A(M), "x2": A(M, n)}

    def post(R):
        g = (holds("refused", R[0]) if False else is_const("refused", R[0], True)) + is_arr("outputs", R[1], [M], lambda k: R[5](k)) \
            + is_arr("errors", R[2], [M], lambda k: R[6](k)) + is_arr("history", R[3], [M, n], lambda k, i: R[7](k, i)) \
            + is_arr("last weights", R[4], [n], lambda i: R[8](i))
        if len(R) > 9:
            g += is_num("prediction", R[9], R[10].p) + is_arr("weights", R[11], [n], lambda i: R[12](i)) + is_num("size", R[13], n)
            g += is_arr("weight history of the run before", R[14], [N, n], lambda k, i: R[15](k, i))
        return g
    for f in ALL:
        src = SRC.replace("NAME", f).replace("KW", kwargs(f)).replace("PARAMS", params(f))
        b = dict(BOUNDS, K=(1, 4), q=(0, 5))
        kw = dict(covers=FILES[f], bounds=b, samples=8)
        bad = {
            "length": ({"db": A(q), "xb": A(K, n)}, [LE(0, q), LE(1, K), Not(EQ(q, K))]),
            "width": ({"db": A(K), "xb": A(K, q)}, [LE(0, q), LE(1, K), Not(EQ(q, n))]),
            "both": ({"db": A(ivar("p")), "xb": A(K, q)}, [LE(0, q), LE(1, K), Not(EQ(q, n)), LE(0, ivar("p")), Not(EQ(ivar("p"), K))]),
            "lists": ({"db": Lst(q), "xb": A(K, n)}, [LE(0, q), LE(1, K), Not(EQ(q, K))]),
            "empty": ({"db": A(q), "xb": A(0, n)}, [LE(1, q)]),
        }
        for bn, (bi, br) in bad.items():
            req = requires(f) + br
            mk = lambda s: dict({k: ins0[k] for k in s.split()}, **bi, **pin(f))
            out.append(Contract("%s.%s.raises" % (f, bn), src, "raising", mk("n w0 dn xn"), lambda R: [], requires=[r for r in req if "N" not in r.fv],
                                raises={"ValueError": T.TRUE}, **kw))
            out.append(Contract("%s.%s.fresh" % (f, bn), src, "fresh", mk("n w0 d2 x2"), post, requires=[r for r in req if "N" not in r.fv] + pos(M), **kw))
            if bn in ("length", "width"):
                out.append(Contract("%s.%s.used" % (f, bn), src, "used", mk("n w0 d x dn xn d2 x2"), post, requires=req + pos(M), **kw))
    return out
