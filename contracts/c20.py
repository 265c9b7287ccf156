"""C20 learning entropy"""
from pyvc.dsl import *

N, n, m, order, q = ivar("N"), ivar("n"), ivar("m"), ivar("order"), ivar("q")
COVERS = ["padasip/detection/le.py"]
SRC = """
import padasip as pa
import numpy as np

def le(w, m, order):
    return pa.detection.learning_entropy(w, m=m, order=order), w

def le_alpha(w, m, order, alpha):
    return pa.detection.learning_entropy(w, m=m, order=order, alpha=alpha), w, alpha

def le_noalpha(w, m, order, alpha):
    return pa.detection.learning_entropy(w, m=m, order=order, alpha=alpha), w

def default(w):
    return pa.detection.learning_entropy(w), w

def positional(w, m, order, alpha):
    return pa.detection.learning_entropy(w, m, order, alpha)

def offset(w, off, m, order):
    return pa.detection.learning_entropy(w, m=m, order=order), pa.detection.learning_entropy(w + off, m=m, order=order)

def offset_alpha(w, off, m, order, alpha):
    return (pa.detection.learning_entropy(w, m=m, order=order, alpha=alpha),
            pa.detection.learning_entropy(w + off, m=m, order=order, alpha=alpha))

def later(w, w2, m, order):
    return pa.detection.learning_entropy(w, m=m, order=order), pa.detection.learning_entropy(w2, m=m, order=order)

def later_alpha(w, w2, m, order, alpha):
    return (pa.detection.learning_entropy(w, m=m, order=order, alpha=alpha),
            pa.detection.learning_entropy(w2, m=m, order=order, alpha=alpha))
"""
alpha, off = fn("alpha"), fn("off")


def spec(w, m, order):
    """the specified values where the whole window consists of increments (k >= m + order)"""
    D = lambda k, i: abs_(big("ndiff", N, lambda v: w(v, i), order, k - order))
    mean = lambda k, i: SUM(m, lambda j: D(k - m + j, i)) / m
    std = lambda k, i: sqrt(SUM(m, lambda j: (D(k - m + j, i) - mean(k, i)) ** 2) / m)
    score = lambda k, i: (D(k, i) - mean(k, i)) / (std(k, i) + 1 / P(10 ** 10))
    frac = lambda k: SUM(q, lambda a: SUM(n, lambda i: IF(LT(mean(k, i) * alpha(a), D(k, i)), 1, 0))) / (n * q)
    return score, frac


def rows(label, f, first, shape, g):
    """f == g in the rows from `first` on"""
    return pointwise(label, [shape[0] - first] + shape[1:], lambda k, *i: f(k + first, *i), lambda k, *i: g(k + first, *i))


def zeros(R, shape):
    return pointwise("nothing before the first window", shape, lambda k, *i: IF(LT(k, m), R(k, *i), 0), lambda *i: 0)


def of_kind(kn, ii):
    out = []
    w = fn("w", ii)
    W = lambda: A(N, n, dt="i" if ii else "f")
    req = pos(N, n) + [LE(1, m), LE(1, order)]
    long = [LE(m + order, N)]
    kw = dict(covers=COVERS, samples=20, bounds={"m": (1, 4), "order": (1, 3), "N": (1, 9), "n": (1, 3), "q": (1, 3), "K": (0, 8)})
    score, frac = spec(w, m, order)
    same = lambda R: is_arr("weights unchanged", R[1], [N, n], w)

    def scores(R):
        return (is_arr("shape", R[0], [N, n], None) + zeros(R[0], [N, n]) + same(R))
    out.append(Contract("score." + kn, SRC, "le", {"w": W(), "m": Z(), "order": Z()},
                        lambda R: scores(R) + rows("score", R[0], m + order, [N, n], score), requires=req + long, **kw))
    out.append(Contract("score.short." + kn, SRC, "le", {"w": W(), "m": Z(), "order": Z()}, scores,
                        requires=req + [LT(N, m + order)], **kw))
    for an, a in (("array", A(q)), ("list", Lst(q))):
        def fracs(R):
            return (is_arr("shape", R[0], [N], None) + zeros(R[0], [N]) + same(R)
                    + each("at least 0", R[0], lambda v, k: LE(0, v), [N]) + each("at most 1", R[0], lambda v, k: LE(v, 1), [N])
                    + is_arr("sensitivities unchanged", R[2], [q], alpha))
        out.append(Contract("fraction.%s.%s" % (an, kn), SRC, "le_alpha", {"w": W(), "m": Z(), "order": Z(), "alpha": a},
                            lambda R, fracs=fracs: fracs(R) + rows("fraction", R[0], m + order, [N], frac), requires=req + long + pos(q), **kw))
        out.append(Contract("fraction.short.%s.%s" % (an, kn), SRC, "le_alpha", {"w": W(), "m": Z(), "order": Z(), "alpha": a},
                            fracs, requires=req + [LT(N, m + order)] + pos(q), **kw))
    return out


def contracts():
    out = of_kind("floats", False) + of_kind("ints", True)
    w, w2 = fn("w"), fn("w2")
    req = pos(N, n) + [LE(1, m), LE(1, order)]
    kw = dict(covers=COVERS, samples=20, bounds={"m": (1, 4), "order": (1, 3), "N": (1, 9), "n": (1, 3), "q": (1, 3), "K": (0, 8)})
    base = {"w": A(N, n), "off": A(n), "m": Z(), "order": Z(), "alpha": A(q)}
    ins = lambda s, **more: {k: more.get(k) or base[k] for k in s.split()}
    # no sensitivities
    score, frac = spec(w, m, order)
    for vn, v in (("None", C(None)), ("False", C(False)), ("empty", Lst(0))):
        out.append(Contract("noalpha." + vn, SRC, "le_noalpha", ins("w m order alpha", alpha=v),
                            lambda R: is_arr("shape", R[0], [N, n], None) + zeros(R[0], [N, n]) + rows("score", R[0], m + order, [N, n], score),
                            requires=req + [LE(m + order, N)], **kw))
    dscore, _ = spec(w, P(10), P(1))
    out.append(Contract("default", SRC, "default", ins("w"), lambda R: is_arr("shape", R[0], [N, n], None)
                        + rows("score", R[0], P(11), [N, n], dscore), requires=pos(N, n) + [LE(11, N)], covers=COVERS, samples=8,
                        bounds={"N": (11, 14), "n": (1, 2)}))
    out.append(Contract("positional", SRC, "positional", ins("w m order alpha"), lambda R: is_arr("shape", R, [N], None)
                        + rows("fraction", R, m + order, [N], frac), requires=req + [LE(m + order, N)] + pos(q), **kw))
    # the value at k depends on no later weights: two histories that agree up to row K
    mix = A(N, n, f=lambda k, i: IF(LE(k, ivar("K")), w(k, i), w2(k, i)))
    upto = lambda R, sh: pointwise("value at k", sh, lambda k, *i: IF(LE(k, ivar("K")), R[0](k, *i), 0), lambda k, *i: IF(LE(k, ivar("K")), R[1](k, *i), 0))
    out.append(Contract("later", SRC, "later", ins("w w2 m order", w2=mix), lambda R: upto(R, [N, n]), requires=req + [LE(0, ivar("K"))], **kw))
    out.append(Contract("later.alpha", SRC, "later_alpha", ins("w w2 m order alpha", w2=mix), lambda R: upto(R, [N]),
                        requires=req + pos(q) + [LE(0, ivar("K"))], **kw))
    # a constant offset of the weights changes nothing
    for fn_, sh, more in (("offset", [N, n], []), ("offset_alpha", [N], pos(q))):
        names = "w off m order" + (" alpha" if more else "")
        out.append(Contract(fn_, SRC, fn_, ins(names), lambda R, sh=sh: pointwise("in the zeroed rows", [m] + sh[1:], lambda *i: R[0](*i), lambda *i: R[1](*i))
                            + rows("from row m + order on", R[0], m + order, sh, R[1]), requires=req + more + [LE(m + order, N)], **kw))
        out.append(Contract(fn_ + ".first-windows", SRC, fn_, ins(names),
                            lambda R, sh=sh: pointwise("rows m to m + order - 1", [order] + sh[1:], lambda k, *i: R[0](k + m, *i), lambda k, *i: R[1](k + m, *i)),
                            requires=req + more + [LE(m + order, N)], **kw))
    return out
