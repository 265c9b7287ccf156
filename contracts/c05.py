"""C05 filters with memory follow their published recursions over any history"""
from .filters_common import *

SRC = """
import padasip as pa

def run_adapt(n, w0, d, x, dn, xn, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    y, e, w = f.run(d, x)
    before = f.w.copy()
    f.adapt(dn, xn)
    return y, e, w, before, f.w

def run_adapt_run(n, w0, d, x, dn, xn, d2, x2, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    f.run(d, x)
    f.adapt(dn, xn)
    f.adapt(d2[0], x2[0])
    f.adapt(d2[1], x2[1])
    return f.w
"""
FILT = ["GNGD", "VSLMS_Ang", "VSLMS_Benveniste", "VSLMS_Mathews"]


def spec(f, ii=False, d=None, x=None):
    """the published recursion; weights w(k, i), and the step size / regularisation after k samples, previous error and
    input as separate components starting from zero"""
    d = d or fn("d", ii)
    x = x or fn("x", ii)

    def e(S, k):
        return d(k) - dot(lambda j: S("w")(k, j), lambda j: x(k, j))

    def n2(g):
        return SUM(n, lambda j: g(j) ** 2)
    comps = {}
    if f == "GNGD":
        def ep(S, k):
            pn = n2(lambda j: S("px")(k, j))
            xx = dot(lambda j: x(k, j), lambda j: S("px")(k, j))
            return S("eps")(k) - ro * mu * e(S, k) * S("pe")(k) * xx / (pn + S("eps")(k)) ** 2
        comps["eps"] = (0, lambda: eps, lambda S, k: ep(S, k))
        comps["w"] = (1, w0, lambda S, k, i: S("w")(k, i) + mu * e(S, k) * x(k, i) / (ep(S, k) + n2(lambda j: x(k, j))))
    else:
        def fi(S, k, i):
            if f == "VSLMS_Ang":
                return a_ * S("fi")(k, i) + S("pe")(k) * S("px")(k, i)
            pxfi = dot(lambda j: S("px")(k, j), lambda j: S("fi")(k, j))
            return S("fi")(k, i) - S("mu")(k) * S("px")(k, i) * pxfi + S("pe")(k) * S("px")(k, i)

        def mk(S, k):
            if f == "VSLMS_Mathews":
                return S("mu")(k) + ro * e(S, k) * S("pe")(k) * dot(lambda j: S("px")(k, j), lambda j: x(k, j))
            return S("mu")(k) + ro * e(S, k) * dot(lambda j: S("px")(k, j), lambda j: fi(S, k, j))
        comps["mu"] = (0, lambda: mu, lambda S, k: mk(S, k))
        if f != "VSLMS_Mathews":
            comps["fi"] = (1, lambda i: T.ZERO, lambda S, k, i: fi(S, k, i))
        comps["w"] = (1, w0, lambda S, k, i: S("w")(k, i) + mk(S, k) * e(S, k) * x(k, i))
    comps["pe"] = (0, lambda: T.ZERO, lambda S, k: e(S, k))
    comps["px"] = (1, lambda i: T.ZERO, lambda S, k, i: x(k, i))
    return Recur(**comps)


def contracts():
    out = []
    for f in FILT:
        src = SRC.replace("NAME", f).replace("KW", kwargs(f)).replace("PARAMS", params(f))
        req = requires(f)
        ins = {"n": Z(), "w0": A(n), "d": A(N), "x": A(N, n), "dn": R(), "xn": A(n)}
        ins.update(pin(f))

        def ens(R, f=f):
            # the sample given to adapt continues the same recursion
            D = lambda k: IF(LT(k, N), d(k), var("dn"))
            X = lambda k, i: IF(LT(k, N), x(k, i), fn("xn")(i))
            W = spec(f)["w"]
            V = spec(f, d=D, x=X)["w"]
            y = lambda k: dot(lambda i: W(k, i), lambda i: x(k, i))
            g = is_arr("weights at each sample", R[2], [N, n], W)
            g += is_arr("outputs", R[0], [N], y) + is_arr("errors", R[1], [N], lambda k: d(k) - y(k))
            g += is_arr("weights after run", R[3], [n], lambda i: W(N, i))
            g += is_arr("weights after adapt", R[4], [n], lambda i: V(N + 1, i))
            return g
        out.append(Contract("%s.run" % f, src, "run_adapt", ins, ens, requires=req, covers=FILES[f], bounds=BOUNDS, samples=10))
    return out
