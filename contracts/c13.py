"""C13 pretrained run"""
from .filters_common import *

SRC = """
import padasip as pa

def explicit(n, w0, d, x, r, E, dn, xn, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    y1, e1, w1 = f.pretrained_run(d, x, ntrain=r, epochs=E)
    T = int(len(d)*r)
    for _ in range(E):
        g.run(d[:T], x[:T])
    y2, e2, w2 = g.run(d[T:], x[T:])
    wf, wg = f.w.copy(), g.w.copy()
    f.adapt(dn, xn)
    g.adapt(dn, xn)
    return y1, e1, w1, wf, f.w, y2, e2, w2, wg, g.w, T

def defaults(n, w0, d, x, dn, xn, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    y1, e1, w1 = f.pretrained_run(d, x)
    T = int(len(d)*0.5)
    g.run(d[:T], x[:T])
    y2, e2, w2 = g.run(d[T:], x[T:])
    wf, wg = f.w.copy(), g.w.copy()
    f.adapt(dn, xn)
    g.adapt(dn, xn)
    return y1, e1, w1, wf, f.w, y2, e2, w2, wg, g.w, T
"""


def contracts():
    out = []
    r, E = var("r"), ivar("E")
    ins = {"n": Z(), "w0": A(n), "d": A(N), "x": A(N, n), "r": R(), "E": Z(), "dn": R(), "xn": A(n)}

    def post(rr):
        tr = T.mk_app("trunc", N * rr)

        def p(R):
            return (is_num("training part", R[10], tr)
                    + is_arr("outputs", R[0], [N - tr], lambda k: R[5](k)) + is_arr("errors", R[1], [N - tr], lambda k: R[6](k))
                    + is_arr("history", R[2], [N - tr, n], lambda k, i: R[7](k, i))
                    + is_arr("weights", R[3], [n], lambda i: R[8](i)) + is_arr("later weights", R[4], [n], lambda i: R[9](i)))
        return p
    for f in ALL:
        src = SRC.replace("NAME", f).replace("KW", kwargs(f)).replace("PARAMS", params(f))
        kw = dict(covers=FILES[f], bounds=dict(BOUNDS, r=(0.1, 0.95), E=(0, 3), N=(2, 6)), samples=10)
        tr = T.mk_app("trunc", N * r)
        out.append(Contract(f + ".explicit", src, "explicit", dict(ins, **pin(f)), post(r),
                            requires=requires(f) + [LT(0, r), LT(r, 1), LE(1, tr), LT(tr, N), LE(0, E)], **kw))
        tr = T.mk_app("trunc", N / 2)
        out.append(Contract(f + ".defaults", src, "defaults", dict({k: v for k, v in ins.items() if k not in "rE"}, **pin(f)), post(T.P(1) / 2),
                            requires=requires(f) + [LE(2, N)], **kw))
    return out
