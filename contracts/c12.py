"""C12 filters are selected by name"""
from .filters_common import *

F0 = "padasip/filters/__init__.py"
SRC = """
import padasip as pa

def cls(name):
    return pa.filters.get_filter(name) is pa.filters.FilterNAME, pa.filters.get_filter(name)

def model(name, n, w0, d, x, PARAMS):
    f = pa.filters.AdaptiveFilter(model=name, n=n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    y1, e1, w1 = f.run(d, x)
    y2, e2, w2 = g.run(d, x)
    return y1, e1, w1, f.w, y2, e2, w2, g.w, type(f) is pa.filters.FilterNAME, f.n

def got(name, n, w0, d, x, PARAMS):
    f = pa.filters.get_filter(name)(n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    y1, e1, w1 = f.run(d, x)
    y2, e2, w2 = g.run(d, x)
    return y1, e1, w1, f.w, y2, e2, w2, g.w, type(f) is pa.filters.FilterNAME, f.n

def defaults(name, n, w0, d, x, mu):
    f = pa.filters.AdaptiveFilter(model=name, n=n, w=w0, mu=mu)
    g = pa.filters.FilterNAME(n, w=w0, mu=mu)
    y1, e1, w1 = f.run(d, x)
    y2, e2, w2 = g.run(d, x)
    return y1, e1, w1, f.w, y2, e2, w2, g.w, type(f) is pa.filters.FilterNAME, f.n

def data(name, n, w0, d, x, PARAMS):
    y1, e1, w1 = pa.filters.filter_data(d, x, model=name, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    y2, e2, w2 = g.run(d, x)
    return y1, e1, w1, y2, e2, w2

def sized(name, q, w0, d, x, n, PARAMS):
    y1, e1, w1 = pa.filters.filter_data(d, x, model=name, n=q, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    y2, e2, w2 = g.run(d, x)
    return y1, e1, w1, y2, e2, w2

def datadefaults(name, n, d, x, mu):
    y1, e1, w1 = pa.filters.filter_data(d, x, model=name, w="zeros", mu=mu)
    g = pa.filters.FilterNAME(n, w="zeros", mu=mu)
    y2, e2, w2 = g.run(d, x)
    return y1, e1, w1, y2, e2, w2

def lms(n, w0, d, x, mu):
    f = pa.filters.AdaptiveFilter(n=n, w=w0, mu=mu)
    y1, e1, w1 = f.run(d, x)
    y3, e3, w3 = pa.filters.filter_data(d, x, w=w0, mu=mu)
    g = pa.filters.FilterLMS(n, w=w0, mu=mu)
    y2, e2, w2 = g.run(d, x)
    return y1, e1, w1, y2, e2, w2, y3, e3, w3

def noname(name):
    return pa.filters.get_filter(name)

def nomodel(name, n, w0, mu):
    return pa.filters.AdaptiveFilter(model=name, n=n, w=w0, mu=mu)

def nodata(name, d, x, w0, mu):
    return pa.filters.filter_data(d, x, model=name, w=w0, mu=mu)

def nosize(name, w0, mu):
    return pa.filters.AdaptiveFilter(model=name, w=w0, mu=mu)
"""


def contracts():
    out = []
    names = [f.upper() for f in ALL]
    ins0 = {"n": Z(), "w0": A(n), "d": A(N), "x": A(N, n)}

    def runs(R, j=0):
        k = 3 if j == 0 and len(R) < 8 else 4
        g = is_arr("outputs", R[0], [N], lambda i: R[k](i)) + is_arr("errors", R[1], [N], lambda i: R[k + 1](i)) \
            + is_arr("history", R[2], [N, n], lambda i, jj: R[k + 2](i, jj))
        if len(R) == 10:
            g += is_arr("last weights", R[3], [n], lambda i: R[7](i)) + is_const("class", R[8], True) + is_num("size", R[9], n)
        if len(R) == 9:
            pass
        return g

    def lms3(R):
        return (is_arr("outputs", R[0], [N], lambda i: R[3](i)) + is_arr("errors", R[1], [N], lambda i: R[4](i))
                + is_arr("history", R[2], [N, n], lambda i, j: R[5](i, j)) + is_arr("data outputs", R[6], [N], lambda i: R[3](i))
                + is_arr("data errors", R[7], [N], lambda i: R[4](i)) + is_arr("data history", R[8], [N, n], lambda i, j: R[5](i, j)))
    for f in ALL:
        src = SRC.replace("NAME", f).replace("KW", kwargs(f)).replace("PARAMS", params(f))
        kw = dict(covers=[F0] + FILES[f], bounds=dict(BOUNDS, q=(1, 5)), samples=8)
        nm = Str(fold=f)
        req = requires(f)
        P_ = pin(f)
        out.append(Contract(f + ".class", src, "cls", {"name": nm}, lambda R: is_const("class", R[0], True), **kw))
        out.append(Contract(f + ".model", src, "model", dict(ins0, name=nm, **P_), runs, requires=req, **kw))
        out.append(Contract(f + ".get", src, "got", dict(ins0, name=nm, **P_), runs, requires=req, **kw))
        base = [r for r in req if not (r.fv & {"eps", "alpha", "order", "mem", "ifc"})]
        out.append(Contract(f + ".defaults", src, "defaults", dict(ins0, name=nm, mu=R()), runs, requires=base, **kw))
        out.append(Contract(f + ".data", src, "data", dict(ins0, name=nm, **P_), runs, requires=req, **kw))
        out.append(Contract(f + ".sized", src, "sized", dict(ins0, name=nm, q=Z(), **P_), runs, requires=req, **kw))
        out.append(Contract(f + ".datadefaults", src, "datadefaults", dict({k: ins0[k] for k in "ndx"}, name=nm, mu=R()), runs, requires=base, **kw))
        out.append(Contract(f + ".nosize", src, "nosize", {"name": nm, "w0": A(n), "mu": R()}, lambda R: [], requires=pos(n),
                            raises={"ValueError": T.TRUE}, **kw))
    kw = dict(covers=[F0], bounds=BOUNDS, samples=12)
    src = SRC.replace("NAME", "LMS").replace("KW", "mu=mu").replace("PARAMS", "mu")
    any_ = Str(["", "lm", "lmss", "Filter", "FilterLMS", " lms", "lms ", "vslms", "vslms_", "nlms2", "xyz", "rl", "sign", "apa", "n", "vslms-ang"], excl=names)
    out.append(Contract("default", src, "lms", dict(ins0, mu=R()), lms3, requires=pos(N, n), **kw))
    no = dict(raises={"ValueError": T.TRUE})
    out.append(Contract("unknown.get", src, "noname", {"name": any_}, lambda R: [], **no, **kw))
    out.append(Contract("unknown.model", src, "nomodel", {"name": any_, "n": Z(), "w0": A(n), "mu": R()}, lambda R: [], requires=pos(n), **no, **kw))
    out.append(Contract("unknown.data", src, "nodata", {"name": any_, "d": A(N), "x": A(N, n), "w0": A(n), "mu": R()}, lambda R: [],
                        requires=pos(n, N), **no, **kw))
    out.append(Contract("unknown.nosize", src, "nosize", {"name": any_, "w0": A(n), "mu": R()}, lambda R: [], requires=pos(n), **no, **kw))
    return out
