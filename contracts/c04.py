"""C04 memoryless filters: the weights follow the documented update formula"""
from .filters_common import *

SRC = """
import padasip as pa

def run_adapt(n, w0, d, x, dn, xn, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    y, e, w = f.run(d, x)
    before = f.w.copy()
    f.adapt(dn, xn)
    return y, e, w, before, f.w

def adapt(n, w0, dn, xn, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    f.adapt(dn, xn)
    return f.w
"""


def spec(f, ii=False):
    d, x = fn("d", ii), fn("x", ii)
    S = Recur(w=(1, lambda i: w0(i),
                 lambda S, k, i: S("w")(k, i) + increment(f, d(k) - dot(lambda j: S("w")(k, j), lambda j: x(k, j)), lambda j: x(k, j))(i)))
    return S["w"]


def contracts():
    out = []
    for f in MEMORYLESS:
        src = SRC.replace("NAME", f).replace("KW", kwargs(f)).replace("PARAMS", params(f))
        req = requires(f)
        for kn, ii in (("float", False), ("int", True)):
            dt = "i" if ii else "f"
            dd, xx = fn("d", ii), fn("x", ii)
            ins = {"n": Z(), "w0": A(n), "d": A(N, dt=dt), "x": A(N, n, dt=dt), "dn": Z() if ii else R(), "xn": A(n, dt=dt)}
            ins.update(pin(f))
            dn, xn = (ivar("dn") if ii else var("dn")), fn("xn", ii)

            def ens(R, f=f, ii=ii, dd=dd, xx=xx, dn=dn, xn=xn):
                W = spec(f, ii)
                y = lambda k: dot(lambda i: W(k, i), lambda i: xx(k, i))
                last = lambda i: W(N, i)
                g = is_arr("weights at each sample", R[2], [N, n], W)
                g += is_arr("outputs", R[0], [N], y) + is_arr("errors", R[1], [N], lambda k: dd(k) - y(k))
                g += is_arr("weights after run", R[3], [n], last)
                g += is_arr("weights after adapt", R[4], [n],
                            lambda i: last(i) + increment(f, dn - dot(last, xn), xn)(i))
                return g
            out.append(Contract("%s.run.%s" % (f, kn), src, "run_adapt", ins, ens, requires=req, covers=FILES[f], bounds=BOUNDS, samples=8))
        ins = {"n": Z(), "w0": A(n), "dn": R(), "xn": A(n)}
        ins.update(pin(f))
        out.append(Contract("%s.adapt" % f, src, "adapt", ins,
                            lambda R, f=f: is_arr("weights after adapt", R, [n],
                                                  lambda i: w0(i) + increment(f, var("dn") - dot(w0, fn("xn")), fn("xn"))(i)),
                            requires=[r for r in req], covers=FILES[f], bounds=BOUNDS, samples=8))
    return out
