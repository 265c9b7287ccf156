"""C23 one update is a gradient-descent step on half the squared error

The derivative is taken symbolically from the network's output (DERIV in pyvc/dsl.py: sums, products, quotients, exp)."""
from pyvc.dsl import *
from .mlp_common import *
from . import mlp_common as M

D_ = var("d")


def src(L):
    ls, ws = args(L)
    mw = ", ".join(["m%d" % (l + 1) for l in range(L)] + ["W%d" % (l + 1) for l in range(L)] + ["V"])
    return M.SRC + """
def rates(net):
    return [l.mu for l in net.layers] + [net.mu]

def step(x, d, n, q, act, rate, %(mw)s):
    net = build(%(ls)s, n, q, act, rate, %(ws)s, V)
    y = net.predict(x)
    e = net.update(d)
    return y, e, weights(net), x, d, rates(net)

def used(x, d, x0, d0, n, q, act, rate, %(mw)s):
    net = build(%(ls)s, n, q, act, rate, %(ws)s, V)
    net.predict(x0)
    net.update(d0)
    for l, w in enumerate(%(ws)s):
        net.layers[l].w[:] = w
    net.w[:] = V
    y = net.predict(x)
    e = net.update(d)
    return y, e, weights(net), x, d, rates(net)
""" % dict(mw=mw, ls=ls, ws=ws)


LAYER = """
import padasip as pa
import numpy as np

def layer(x, n, m, act, rate, W, w, e):
    l = pa.ann.mlp.Layer(m, n, act, rate)
    l.w[:] = W
    h = l.predict(x)
    back, delta = l.update(w, e)
    return h, np.copy(l.w), delta, back, w, e, x
"""


def layers():
    """one layer, whatever follows it: with g_j = sum_o e_o w_oj the descent direction of the error in its output h_j, the layer moves
    its weights by rate times the derivative of sum_j g_j h_j, and hands back (delta, weights) whose product is the descent direction
    in its input -- the induction step of the argument for any number of layers"""
    out = []
    m = ivar("m")

    def add(act, many):
        W, w, x = fn("W"), fn("w"), fn("x")
        e = (lambda o: fn("e")(o)) if many else (lambda o: var("e"))
        h = lambda j: ACT[act](W(j, P(0)) + SUM(n, lambda i: W(j, i + 1) * x(i)))
        g = (lambda j: SUM(q, lambda o: e(o) * w(o, j))) if many else (lambda j: var("e") * w(j))
        gain = SUM(m, lambda j: g(j) * h(j))
        ins = {"x": A(n), "n": Z(), "m": Z(), "act": C(act), "rate": R(), "W": A(m, n + 1), "w": A(q, m) if many else A(m), "e": A(q) if many else R()}

        def post(R):
            r = is_arr("output", R[0], [m], h)
            r += is_arr("weights", R[1], [m, n + 1], lambda j, i: W(j, i) + rate * DERIV(gain, "W", j, i))
            r += is_arr("error handed back", R[2], [m], None) + is_arr("weights handed back", R[3], [m, n], lambda j, i: W(j, i + 1))
            r += pointwise("descent direction in the input", [n], lambda i: SUM(m, lambda j: R[2](j) * R[3](j, i)), lambda i: DERIV(gain, "x", i))
            r += is_arr("next weights unchanged", R[4], [q, m] if many else [m], w) + is_arr("input unchanged", R[6], [n], x)
            r += is_arr("error unchanged", R[5], [q], fn("e")) if many else []
            return r
        out.append(Contract("layer.%s.%s" % (act, "many" if many else "one"), LAYER, "layer", ins, post, requires=pos(n, m) + ([LE(1, q)] if many else []),
                            covers=COVERS, samples=8, bounds={"m": (1, 3), "n": (1, 3), "q": (1, 3)}))
    for act in ACT:
        for many in (False, True):
            add(act, many)
    return out


def contracts(tier="quick"):
    out = layers()

    def add(L, act, many, fname="step", auto=False):
        m = sizes(L)
        tag = "%s.%d.%s.%s" % (fname + "-auto" * auto, L, act, "many" if many else "one")
        base = dict({"m%d" % (l + 1): Z() for l in range(L)}, n=Z(), q=Z() if many else C(1), act=C(act), rate=C("auto") if auto else R(),
                    **weight_inputs(L, many))
        req = pos(n, *m) + ([LE(2, q)] if many else [])
        small = (1, 3) if L < 3 else (1, 2)
        kw = dict(requires=req, covers=COVERS, samples=8 if L < 3 else 4,
                  bounds=dict({"m%d" % (l + 1): small for l in range(L)}, n=small, q=(2, 3) if L < 3 else (2, 2)))
        y = forward(L, act, fn("x"), many)[1]
        dims = [[m[l], (m[l - 1] if l else n) + 1] for l in range(L)] + [[q, m[-1] + 1] if many else [m[-1] + 1]]
        d = (lambda o: fn("d")(o)) if many else D_
        half = (SUM(q, lambda o: (d(o) - y(o)) ** 2) if many else (d - y) ** 2) / 2

        def moved(l, mu):
            nm = "W%d" % (l + 1) if l < L else "V"
            return lambda *ix: fn(nm)(*ix) - mu * DERIV(half, nm, *ix)

        def post(R):
            r = is_arr("error", R[1], [q], lambda o: d(o) - y(o)) if many else is_num("error", R[1], d - y)
            r += is_arr("output", R[0], [q], y) if many else is_num("output", R[0], y)
            for l in range(L + 1):
                r += is_arr("weights %d" % (l + 1) if l < L else "output weights", R[2][l], dims[l], moved(l, R[5][l].p if auto else rate))
            r += is_arr("input unchanged", R[3], [n], fn("x"))
            r += is_arr("target unchanged", R[4], [q], fn("d")) if many else []
            return r
        ins = dict(base, x=A(n), d=A(q) if many else R())
        if fname == "used":
            ins.update(x0=A(n), d0=A(q) if many else R())
        out.append(Contract(tag, src(L), fname, ins, post, **kw))
    for L in (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3):
        for act in ACT:
            for many in (False, True):
                add(L, act, many)
                if L < 3:
                    add(L, act, many, "used")
    for many in (False, True):
        add(2, "sigmoid", many, auto=True)
    return out
