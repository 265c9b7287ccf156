"""C22 the network's outputs, errors and training record"""
from pyvc.dsl import *
from .mlp_common import *
from . import mlp_common as M


def src(L):
    ls, ws = args(L)
    mw = ", ".join(["m%d" % (l + 1) for l in range(L)] + ["W%d" % (l + 1) for l in range(L)] + ["V"])
    return M.SRC + """
def predict(x, n, q, act, rate, %(mw)s):
    net = build(%(ls)s, n, q, act, rate, %(ws)s, V)
    return net.predict(x), weights(net), x

def run(x, n, q, act, rate, %(mw)s):
    net = build(%(ls)s, n, q, act, rate, %(ws)s, V)
    return net.run(x), weights(net), x

def test(x, d, n, q, act, rate, %(mw)s):
    net = build(%(ls)s, n, q, act, rate, %(ws)s, V)
    return net.test(x, d), weights(net), x, d

def record(twin, x, d, epochs, order):
    es = np.zeros((epochs,) + d.shape)
    for i in range(epochs):
        for k in range(len(x)):
            y = twin.predict(x[order[k]])
            twin.update(d[order[k]])
            es[i, k] = d[order[k]] - y
    return es

def train(x, d, epochs, n, q, act, rate, %(mw)s):
    net = build(%(ls)s, n, q, act, rate, %(ws)s, V)
    e, mse = net.train(x, d, epochs=epochs)
    twin = build(%(ls)s, n, q, act, rate, %(ws)s, V)
    es = record(twin, x, d, epochs, np.arange(len(x)))
    return e, mse, weights(net), es, weights(twin), x, d

def shuffled(x, d, epochs, n, q, act, rate, %(mw)s):
    net = build(%(ls)s, n, q, act, rate, %(ws)s, V)
    np.random.seed(3)
    order = np.arange(len(x))
    np.random.shuffle(order)
    np.random.seed(3)
    e, mse = net.train(x, d, epochs=epochs, shuffle=True)
    twin = build(%(ls)s, n, q, act, rate, %(ws)s, V)
    es = record(twin, x, d, epochs, order)
    return e, mse, weights(net), es, weights(twin), x, d

def again(x, d, x0, d0, epochs, n, q, act, rate, %(mw)s):
    net = build(%(ls)s, n, q, act, rate, %(ws)s, V)
    net.predict(x0)
    net.update(d0)
    for l, w in enumerate(%(ws)s):
        net.layers[l].w[:] = w
    net.w[:] = V
    twin = build(%(ls)s, n, q, act, rate, %(ws)s, V)
    e, mse = net.train(x, d, epochs, False)
    es = record(twin, x, d, epochs, np.arange(len(x)))
    return e, mse, weights(net), es, weights(twin), x, d

def default(x, d, n, q, act, rate, %(mw)s):
    net = build(%(ls)s, n, q, act, rate, %(ws)s, V)
    e, mse = net.train(x, d)
    twin = build(%(ls)s, n, q, act, rate, %(ws)s, V)
    e2, mse2 = twin.train(x, d, epochs=10, shuffle=False)
    return e, mse, weights(net), e2, mse2, weights(twin)
""" % dict(mw=mw, ls=ls, ws=ws)


def contracts(tier="quick"):
    out = []

    def add(L, act, many):
        m = sizes(L)
        tag = "%d.%s.%s" % (L, act, "many" if many else "one")
        base = dict({"m%d" % (l + 1): Z() for l in range(L)}, n=Z(), q=Z() if many else C(1), act=C(act), rate=R(), **weight_inputs(L, many))
        req = pos(N, n, *m) + ([LE(2, q)] if many else [])
        kw = dict(requires=req, covers=COVERS, samples=8, bounds=dict({"m%d" % (l + 1): (1, 3) for l in range(L)}, n=(1, 3), N=(1, 4), q=(2, 3)))
        S = src(L)
        row = lambda k: forward(L, act, lambda i: fn("x")(k, i), many)[1]
        shape = [N, q] if many else [N]
        out_at = (lambda k, o: row(k)(o)) if many else (lambda k: row(k))
        dims = [[m[l], (m[l - 1] if l else n) + 1] for l in range(L)] + [[q, m[-1] + 1] if many else [m[-1] + 1]]

        def same(w):
            r = []
            for l in range(L + 1):
                r += is_arr("weights %d unchanged" % l, w[l], dims[l], fn("W%d" % (l + 1) if l < L else "V"))
            return r
        y1 = forward(L, act, fn("x"), many)[1]
        out.append(Contract("predict." + tag, S, "predict", dict(base, x=A(n)),
                            lambda R: (is_arr("output", R[0], [q], y1) if many else is_num("output", R[0], y1)) + same(R[1])
                            + is_arr("input unchanged", R[2], [n], fn("x")), **kw))
        out.append(Contract("run." + tag, S, "run", dict(base, x=A(N, n)), lambda R: is_arr("output", R[0], shape, out_at) + same(R[1])
                            + is_arr("input unchanged", R[2], [N, n], fn("x")), **kw))
        out.append(Contract("test." + tag, S, "test", dict(base, x=A(N, n), d=A(*shape)),
                            lambda R: is_arr("error", R[0], shape, lambda *i: fn("d")(*i) - out_at(*i)) + same(R[1])
                            + is_arr("targets unchanged", R[3], shape, fn("d")), **kw))
        def trained(R):
            sq = (lambda i, k: SUM(q, lambda o: R[3](i, k, o) ** 2)) if many else (lambda i, k: R[3](i, k) ** 2)
            r = is_arr("errors", R[0], [epochs * N] + shape[1:], None)
            r += pointwise("error at the weights before the sample's update", [epochs, N] + shape[1:], lambda i, k, *o: R[0](i * N + k, *o), R[3])
            r += is_arr("mean squared errors", R[1], [epochs], lambda i: SUM(N, lambda k: sq(i, k)) / N)
            for l in range(L + 1):
                r += is_arr("trained weights %d" % l, R[2][l], dims[l], R[4][l])
            return r + is_arr("inputs unchanged", R[5], [N, n], fn("x")) + is_arr("targets unchanged", R[6], shape, fn("d"))
        kw = dict(kw, requires=req + pos(N, epochs), bounds=dict(kw["bounds"], epochs=(1, 3)))
        ins = dict(base, x=A(N, n), d=A(*shape), epochs=Z())
        if L == 1 or L == 2 and (deep or act == "tanh" and not many):
            out.append(Contract("train." + tag, S, "train", ins, trained, **kw))
        if L == 1 or L == 2 and deep and not many:
            out.append(Contract("train.shuffled." + tag, S, "shuffled", ins, trained, **kw))
        if L == 1 and act == "sigmoid":
            out.append(Contract("train.again." + tag, S, "again", dict(ins, x0=A(n), d0=A(q) if many else R()), trained, **kw))

            def same_as(R):
                r = is_arr("errors", R[0], [10 * N] + shape[1:], R[3]) + is_arr("mean squared errors", R[1], [10], R[4])
                for l in range(L + 1):
                    r += is_arr("trained weights %d" % l, R[2][l], dims[l], R[5][l])
                return r
            out.append(Contract("train.default." + tag, S, "default", dict(base, x=A(N, n), d=A(*shape)), same_as, **kw))
    deep = tier == "thorough"
    for L in (1, 2, 3, 4) if deep else (1, 2, 3):
        for act in ACT:
            for many in (False, True):
                add(L, act, many)
    return out
