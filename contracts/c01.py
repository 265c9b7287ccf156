"""C01 run() returns the trace of what the filter did"""
from .filters_common import *

# every call of the update rule is recorded with its arguments and its result
SPY = """
import padasip as pa
import numpy as np

class Spy(pa.filters.FilterNAME):
    def watch(self, N, n):
        self.nl = 0
        self.le = np.zeros(N)
        self.lx = np.zeros((N, n))
        self.ld = np.zeros((N, n))

    def learning_rule(self, e, x):
        dw = super().learning_rule(e, x)
        self.le[self.nl] = e
        self.lx[self.nl, :] = x
        self.ld[self.nl, :] = dw
        self.nl += 1
        return dw

def trace(n, w0, N, d, x, PARAMS):
    f = Spy(n, w=w0, KW)
    f.watch(N, n)
    y, e, w = f.run(d, x)
    return y, e, w, f.w, f.nl, f.le, f.lx, f.ld

def output(n, w0, m, d, x, PARAMS):
    f = pa.filters.FilterNAME(n, w=w0, KW)
    g = pa.filters.FilterNAME(n, w=w0, KW)
    f.run(d[:m], x[:m])
    p = f.predict(x[m])
    y, e, w = g.run(d, x)
    return p, f.w, y[m], w[m]
"""
SPYAP = """
import padasip as pa
import numpy as np

class Spy(pa.filters.FilterAP):
    def watch(self, N, n, order):
        self.nl = 0
        self.le = np.zeros((N, order))
        self.lx = np.zeros((N, n, order))
        self.ld = np.zeros((N, n))

    def learning_rule(self, e_mem, x_mem):
        dw = super().learning_rule(e_mem, x_mem)
        self.le[self.nl, :] = e_mem
        self.lx[self.nl, :, :] = x_mem
        self.ld[self.nl, :] = dw
        self.nl += 1
        return dw

def trace(n, w0, N, d, x, PARAMS):
    f = Spy(n, w=w0, KW)
    f.watch(N, n, order)
    y, e, w = f.run(d, x)
    return y, e, w, f.w, f.nl, f.le, f.lx, f.ld
"""
# update rules the library does not know: an arbitrary function of error and input, without and with a state of its own
USER = """
import padasip as pa
import numpy as np
from padasip.filters.base_filter import AdaptiveFilter, AdaptiveFilterAP

class Free(AdaptiveFilter):
    kind = "user"
    def __init__(self, n, mu, rule, **kwargs):
        super().__init__(n, mu, **kwargs)
        self.rule = rule

    def learning_rule(self, e, x):
        return self.rule(e, x)

class Stateful(AdaptiveFilter):
    kind = "user"
    def __init__(self, n, mu, rule, state, s0, **kwargs):
        super().__init__(n, mu, **kwargs)
        self.rule = rule
        self.state = state
        self.s = s0

    def learning_rule(self, e, x):
        dw = self.rule(e, x, self.s)
        self.s = self.state(e, x, self.s)
        return dw

class FreeAP(AdaptiveFilterAP):
    kind = "user"
    def __init__(self, n, mu, rule, **kwargs):
        super().__init__(n, mu, **kwargs)
        self.rule = rule

    def learning_rule(self, e_mem, x_mem):
        return self.rule(e_mem[0], e_mem[-1], x_mem[:, 0], x_mem[:, -1])

def trace(n, w0, d, x, mu, rule):
    f = Free(n, mu, rule, w=w0)
    y, e, w = f.run(d, x)
    return y, e, w, f.w

def trace_state(n, w0, d, x, mu, rule, state, s0):
    f = Stateful(n, mu, rule, state, s0, w=w0)
    y, e, w = f.run(d, x)
    return y, e, w, f.w, f.s

def trace_ap(n, w0, d, x, mu, rule, order, ifc):
    f = FreeAP(n, mu, rule, w=w0, order=order, ifc=ifc)
    y, e, w = f.run(d, x)
    return y, e, w, f.w
"""


def window(g, k, q):
    """entry q of the newest-first window after sample k: zero before the first sample"""
    return IF(LE(q, k), g(k - q), 0)


# the data can be float or integer arrays, or (nested) lists of numbers; an integer array of targets with a float input, too
KINDS = {"": (A(N), A(N, n), False, False), ".int": (A(N, dt="i"), A(N, n, dt="i"), True, True),
         ".lists": (Lst(N), Lst(N, n), False, False), ".intlists": (Lst(N, dt="i"), Lst(N, n, dt="i"), True, True),
         ".inttarget": (A(N, dt="i"), A(N, n), True, False), ".intinput": (A(N), A(N, n, dt="i"), False, True)}


def contracts():
    return [c for kind in KINDS for c in variant(kind)]


def variant(kind):
    out = []
    D, X, di, xi = KINDS[kind]
    d, x = fn("d", di), fn("x", xi)
    order = ivar("order")
    for f in ALL:
        src = (SPYAP if f == "AP" else SPY).replace("NAME", f).replace("KW", kwargs(f)).replace("PARAMS", params(f))
        ins = {"n": Z(), "w0": A(n), "N": Z(), "d": D, "x": X}
        ins.update(pin(f))

        def ens(R, f=f):
            y, e, w, wf = R[:4]
            g = []
            if f == "AP":
                nl, le, lx, ld = R[4:]
                g += is_num("update rule called once per sample", nl, N)
                g += is_arr("update rule got the window of inputs", lx, [N, n, order], lambda k, i, q: window(lambda j: x(j, i), k, q))
                g += is_arr("update rule got the errors of the window", le, [N, order],
                            lambda k, q: window(d, k, q) - dot(lambda i: w(k, i), lambda i: window(lambda j: x(j, i), k, q)))
                g += is_arr("reported error", e, [N], lambda k: le(k, 0))
                g += is_arr("reported output", y, [N], lambda k: dot(lambda i: w(k, i), lambda i: x(k, i)))
            else:
                nl, le, lx, ld = R[4:]
                g += is_num("update rule called once per sample", nl, N)
                g += is_arr("samples learned in order", lx, [N, n], x)
                g += is_arr("error given to the update rule", le, [N], e)
                if f == "OCNLMS":       # the output of this filter is checked in OCNLMS.output
                    g += is_arr("one output per sample", y, [N], y)
                else:
                    g += is_arr("output is the prediction", y, [N], lambda k: dot(lambda i: w(k, i), lambda i: x(k, i)))
            g += is_arr("error is target minus output", e, [N], lambda k: d(k) - y(k))
            g += pointwise("history starts at the initial weights", [n], lambda i: w(0, i), w0)
            g += pointwise("each increment is the update rule's", [N - 1, n], lambda k, i: w(k + 1, i) - w(k, i), ld)
            g += is_arr("weights after the call", wf, [n], lambda i: w(N - 1, i) + ld(N - 1, i))
            return g
        out.append(Contract("%s.trace%s" % (f, kind), src, "trace", ins, ens, requires=requires(f), covers=FILES[f], bounds=BOUNDS, samples=8))
        if f == "OCNLMS":
            i2 = dict(ins, m=Z())
            del i2["N"]
            out.append(Contract(f + ".output" + kind, src, "output", i2, lambda R: (
                is_num("output is the prediction at that moment", R[2], R[0].p) + is_arr("weights at that moment", R[3], [n], lambda i: R[1](i))),
                requires=requires(f) + [LE(1, ivar("m")), LT(ivar("m"), N)], covers=FILES[f], bounds=BOUNDS, samples=8))
    short = dict(BOUNDS, N=lambda r: r.randint(1, 14))      # an arbitrary rule amplifies round-off along a run
    err = lambda w: lambda k: d(k) - dot(lambda i: w(k, i), lambda i: x(k, i))

    def user(R, W, extra=()):
        e = err(W)
        g = is_arr("weights at each sample", R[2], [N, n], W)
        g += is_arr("outputs", R[0], [N], lambda k: d(k) - e(k)) + is_arr("errors", R[1], [N], e)
        return g + is_arr("weights after the call", R[3], [n], lambda i: W(N, i))
    ins = {"n": Z(), "w0": A(n), "d": D, "x": X, "mu": R(), "rule": Opq(n)}

    def step(S, k, i, *more):
        return S("w")(k, i) + opq("rule", [(n, lambda j: x(k, j))], [err(S("w"))(k)] + list(more), i)
    out.append(Contract("user.trace" + kind, USER, "trace", ins,
                        lambda R: user(R, Recur(w=(1, w0, step))["w"]), requires=pos(N, n), covers=[BASE], bounds=short))

    def ens_state(R):
        S = Recur(w=(1, w0, lambda S, k, i: step(S, k, i, S("s")(k))),
                  s=(0, lambda: var("s0"), lambda S, k: opq("state", [(n, lambda j: x(k, j))], [err(S("w"))(k), S("s")(k)])))
        return user(R, S["w"]) + is_num("state of the rule", R[4], S["s"](N))
    out.append(Contract("user.trace.stateful" + kind, USER, "trace_state", dict(ins, state=Opq(), s0=R()), ens_state, requires=pos(N, n),
                        covers=[BASE], bounds=short))

    def ens_ap(R):
        old = lambda k, f: IF(LE(order - 1, k), f(k - order + 1), 0)
        old_x = lambda k, j: old(k, lambda q: x(q, j))
        W = Recur(w=(1, w0, lambda S, k, i: S("w")(k, i) + opq(
            "rule", [(n, lambda j: x(k, j)), (n, lambda j: old_x(k, j))],
            [err(S("w"))(k), old(k, d) - dot(lambda j: S("w")(k, j), lambda j: old_x(k, j))], i)))["w"]
        return user(R, W)
    out.append(Contract("user.trace.window" + kind, USER, "trace_ap", dict(ins, order=Z(), ifc=R()), ens_ap,
                        requires=pos(N, n, order), covers=[BASE], bounds=short))
    return out
