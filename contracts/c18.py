"""C18 LDA

The classes are the distinct labels (`cls` enumerates them in some order: every specification below is a sum over them), so
the specified values depend on the labels only through the grouping they define."""
from pyvc.dsl import *

N, p, n = ivar("N"), ivar("p"), ivar("n")
COVERS = ["padasip/preprocess/lda.py"]
SRC = """
import padasip as pa
import numpy as np

def discriminants(x, labels):
    return pa.preprocess.LDA_discriminants(x, labels), x, labels

def project(x, labels, n):
    return pa.preprocess.LDA(x, labels, n), x, labels

def project_kw(x, labels, n):
    return pa.preprocess.LDA(x, labels, n=n), x, labels

def project_default(x, labels):
    return pa.preprocess.LDA(x, labels), x, labels

def refused(x, labels, n):
    refused = False
    try:
        pa.preprocess.LDA(x, labels, n)
    except Exception:
        refused = True
    return refused, x, labels
"""


class Names(A):
    """labels that are strings: the proof reads them as numbers (only their equality can matter), the runs use strings"""

    def native(self, env, name):
        import numpy as np
        return np.array(["class%d" % v for v in A.native(self, env, name)])


def of_kind(kn, xi, lk):
    x, l = fn("x", xi), fn("labels", True)
    ncls = big("ncls", N, l, isint=True)
    cls = lambda c: big("cls", N, l, c, isint=True)
    of = lambda c, f: SUM(N, lambda s: IF(EQ(l(s), cls(c)), f(s), 0))          # sum over the samples of class c
    size = lambda c: of(c, lambda s: 1)
    mean = lambda c, a: of(c, lambda s: x(s, a)) / size(c)
    total = lambda a: SUM(N, lambda s: x(s, a)) / N
    within = lambda a, b: SUM(ncls, lambda c: of(c, lambda s: (x(s, a) - mean(c, a)) * (x(s, b) - mean(c, b))))
    between = lambda a, b: SUM(ncls, lambda c: size(c) * (mean(c, a) - total(a)) * (mean(c, b) - total(b)))
    ratio = lambda a, b: SUM(p, lambda c: big2("minv", p, p, within, a, c) * between(c, b))
    val = lambda i: big2("eigval", p, p, ratio, i)
    order = lambda j: big("argsort", p, val, p - 1 - j, isint=True)            # j-th largest
    S = lambda k, j: SUM(p, lambda a: x(k, a) * big2("eigvec", p, p, ratio, a, order(j)))
    same = lambda R: is_arr("data unchanged", R[1], [N, p], x) + ([] if lk == "names" else is_arr("labels unchanged", R[2], [N], l))
    X = lambda: A(N, p, dt="i" if xi else "f")
    LAB = lambda: {"array": A, "list": Lst, "names": Names}[lk](N, dt="i")

    def columns(c):
        def post(R):
            return (is_arr("shape and scores", R[0], [N, c], None)
                    + pointwise("scores up to the sign of each column", [N, N, c], lambda k, l, j: R[0](k, j) * R[0](l, j),
                                lambda k, l, j: S(k, j) * S(l, j)) + same(R))
        return post
    req = pos(N, p)
    nv = [LE(1, n), LT(n, p)]
    gap = lambda: MIN(p - 1, lambda j: val(order(j)) - val(order(j + 1)))
    # runs against the real code: S_W well-conditioned, eigenvalues clearly apart (the proof does not need this)
    apart = [LT(big2("minv", p, p, within, 0, 0), 10000), Or(EQ(p, 1), LT(val(order(0)), 1000 * gap()))]
    kw = dict(covers=COVERS, samples=6, tol=1e-5, sample_if=apart,
              bounds={"p": lambda r: r.randint(1, 3), "N": lambda r: r.randint(4, 9), "n": (1, 4)})
    return [
        Contract("discriminants." + kn, SRC, "discriminants", {"x": X(), "labels": LAB()},
                 lambda R: is_arr("eigenvalues, descending", R[0], [p], lambda i: val(order(i))) + same(R), requires=req, **kw),
        Contract("scores." + kn, SRC, "project", {"x": X(), "labels": LAB(), "n": Z()}, columns(n), requires=req + nv, **kw),
        Contract("scores.kw." + kn, SRC, "project_kw", {"x": X(), "labels": LAB(), "n": Z()}, columns(n), requires=req + nv, **kw),
        Contract("scores.default." + kn, SRC, "project_default", {"x": X(), "labels": LAB()}, columns(p - 1), requires=req + [LE(2, p)], **kw),
        Contract("refused." + kn, SRC, "refused", {"x": X(), "labels": LAB(), "n": Z()},
                 lambda R: is_const("refused", R[0], True) + same(R), requires=req + [LE(p, n)], **kw),
    ]


def contracts():
    return of_kind("array", False, "array") + of_kind("list", False, "list") + of_kind("ints", True, "array") + of_kind("names", False, "names")
