"""C10 initial weights"""
from .filters_common import *

SRC = """
import padasip as pa

def given(n, w, PARAMS):
    return pa.filters.FilterNAME(n, w=w, KW).w

def own(n, w, junk, PARAMS):
    a = w.copy()
    f = pa.filters.FilterNAME(n, w=a, KW)
    a[:] = junk
    return f.w

def default(n, PARAMS):
    f = pa.filters.FilterNAME(n, KW)
    g = pa.filters.FilterNAME(n, KW)
    return f.w, g.w

def two(n, w, v, PARAMS):
    f = pa.filters.FilterNAME(n, w=w, KW)
    g = pa.filters.FilterNAME(n, w=v, KW)
    return f.w, g.w
"""


def gauss(k):
    """the k-th standard normal variate of numpy's random stream"""
    return T.mk_app("gauss#", P(k))


def contracts():
    out = []
    q = ivar("q")
    junk = A(n)
    for f in ALL:
        src = SRC.replace("NAME", f).replace("KW", kwargs(f)).replace("PARAMS", params(f))
        kw = dict(covers=[FILES[f][-1]], bounds=dict(BOUNDS, q=(0, 5)), samples=6)
        req = [r for r in requires(f) if "N" not in r.fv]

        def C_(nm, fnm, ins, post, req=req, **k2):
            out.append(Contract("%s.%s" % (f, nm), src, fnm, dict(ins, **({} if fnm == "plain" else pin(f))), post, requires=req, **dict(kw, **k2)))
        weights = lambda g: (lambda R: is_arr("weights", R, [n], g, dt="f"))
        for nm, w, g in (("array", A(n), fn("w")), ("intarray", A(n, dt="i"), fn("w", True)), ("list", Lst(n), fn("w")),
                         ("intlist", Lst(n, dt="i"), fn("w", True)), ("zeros", C("zeros"), lambda i: 0),
                         ("random", C("random"), lambda i: gauss(i) / 2)):
            C_(nm, "given", {"n": Z(), "w": w}, weights(g))
        C_("own", "own", {"n": Z(), "w": A(n), "junk": junk}, weights(fn("w")))
        C_("default", "default", {"n": Z()}, lambda R: (is_arr("first", R[0], [n], lambda i: gauss(i) / 2, dt="f")
                                                        + is_arr("second", R[1], [n], lambda i: gauss(n + i) / 2, dt="f")))
        C_("twice", "two", {"n": Z(), "w": C("random"), "v": C("random")}, lambda R: (
            is_arr("first", R[0], [n], lambda i: gauss(i) / 2, dt="f") + is_arr("second", R[1], [n], lambda i: gauss(n + i) / 2, dt="f")))
        refuse = dict(raises={"ValueError": T.TRUE})
        nothing = lambda R: []
        C_("refuse.string", "given", {"n": Z(), "w": Str(["", "Zeros", "RANDOM", "zero", "rand", "ones", "randomly", " zeros", "0", "zzzz", "ab"])},
           nothing, req=req + notstr("w", "zeros", "random"), **refuse)
        C_("refuse.arraylength", "given", {"n": Z(), "w": A(q)}, nothing, req=req + [LE(0, q), Not(EQ(q, n))], **refuse)
        C_("refuse.listlength", "given", {"n": Z(), "w": Lst(q)}, nothing, req=req + [LE(0, q), Not(EQ(q, n))], **refuse)
        C_("refuse.values", "given", {"n": Z(), "w": BadSeq(n)}, nothing, **refuse)
        C_("refuse.badlength", "given", {"n": Z(), "w": BadSeq(q)}, nothing, req=req + [LE(0, q), Not(EQ(q, n))], **refuse)
    return out
