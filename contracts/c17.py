"""C17 PCA

The contracts prove what PCA and PCA_components return for every data matrix, in terms of the eigenvalues and eigenvectors
of the sample covariance matrix (the direction of an eigenvector is only defined up to its sign, so columns are compared up
to their sign); lemmas/pca.lean proves the variances and the absence of correlation from it."""
from pyvc.dsl import *
from .lemmas import lean

N, p, n = ivar("N"), ivar("p"), ivar("n")
COVERS = ["padasip/preprocess/pca.py"]
SRC = """
import padasip as pa
import numpy as np

def components(x):
    return pa.preprocess.PCA_components(x), x

def project(x, n):
    return pa.preprocess.PCA(x, n), x

def project_kw(x, n):
    return pa.preprocess.PCA(x, n=n), x

def project_default(x):
    return pa.preprocess.PCA(x), x

def refused(x, n):
    refused = False
    try:
        pa.preprocess.PCA(x, n)
    except Exception:
        refused = True
    return refused, x
"""


def of_kind(kn, ii):
    x = fn("x", ii)
    m = lambda a: SUM(N, lambda k: x(k, a)) / N
    cov = lambda a, b: SUM(N, lambda k: (x(k, a) - m(a)) * (x(k, b) - m(b))) / (N - 1)
    val = lambda i: big2("eigval", p, p, cov, i)
    order = lambda j: big("argsort", p, val, p - 1 - j, isint=True)      # j-th largest
    S = lambda k, j: SUM(p, lambda a: x(k, a) * big2("eigvec", p, p, cov, a, order(j)))
    same = lambda R: is_arr("data unchanged", R[1], [N, p], x)
    dt = "i" if ii else "f"
    X = lambda: A(N, p, dt=dt)

    def columns(c):
        def post(R):
            sh = is_arr("shape and scores", R[0], [N, c], None)
            return sh + pointwise("scores up to the sign of each column", [N, N, c], lambda k, l, j: R[0](k, j) * R[0](l, j),
                                  lambda k, l, j: S(k, j) * S(l, j)) + same(R)
        return post
    req = [LE(2, N)] + pos(p)
    nv = [LE(1, n), LT(n, p)]
    # runs against the real code: eigenvalues clearly apart (the proof does not need this)
    gap = lambda: MIN(p - 1, lambda j: val(order(j)) - val(order(j + 1)))
    apart = [Or(EQ(p, 1), LT(val(order(0)), 1000 * gap()))]
    kw = dict(covers=COVERS, samples=20, tol=1e-5, sample_if=apart, bounds={"p": lambda r: r.randint(1, 4), "N": lambda r: r.randint(2, 7), "n": (1, 6)})
    return [
        Contract("components." + kn, SRC, "components", {"x": X()},
                 lambda R: is_arr("eigenvalues, descending", R[0], [p], lambda i: val(order(i))) + same(R), requires=req, **kw),
        Contract("scores." + kn, SRC, "project", {"x": X(), "n": Z()}, columns(n), requires=req + nv, **kw),
        Contract("scores.kw." + kn, SRC, "project_kw", {"x": X(), "n": Z()}, columns(n), requires=req + nv, **kw),
        Contract("scores.default." + kn, SRC, "project_default", {"x": X()}, columns(p - 1), requires=req + [LE(2, p)], **kw),
        Contract("refused." + kn, SRC, "refused", {"x": X(), "n": Z()},
                 lambda R: is_const("refused", R[0], True) + same(R), requires=req + [LE(p, n)], **kw),
    ]

def contracts():
    return of_kind("floats", False) + of_kind("ints", True)


def lemmas(tier):
    return lean("pca.lean", ["orthogonal", "variance", "uncorrelated"],
                "projections on unit eigenvectors of the covariance matrix have its eigenvalues as sample variances and are uncorrelated")
