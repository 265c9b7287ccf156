"""specification vocabulary"""
from . import terms as T
from .terms import P, EQ, LE, LT, And, Or, Not, Implies, ZERO, ONE
from .contract import (A, R, Z, C, Lst, BadSeq, Opq, Str, Seq, Contract, eq, holds, is_arr, is_num, is_const, each, pointwise, Lazy,
                       notstr)
from .terms import mk_app


def fn(name, isint=False):
    return lambda *ix: T.app(name, *ix, isint=isint)


def var(name):
    return T.var(name)


def ivar(name):
    return T.var(name, True)


def SUM(n, f):
    v = T.fresh("s")
    with T.assuming(*T.inrange(P(v), P(n))):
        b = P(f(P(v)))
    return T.mk_sum(v, P(n), b)


def big(op, n, f, *xargs, isint=False):
    v = T.fresh("s")
    with T.assuming(*T.inrange(P(v), P(n))):
        b = P(f(P(v)))
    return T.mk_big(op, [(v, P(n))], (b,), tuple(P(x) for x in xargs), isint)


def big2(op, n, m, f, *xargs, isint=False):
    v, w = T.fresh("s"), T.fresh("s")
    with T.assuming(*(T.inrange(P(v), P(n)) + T.inrange(P(w), P(m)))):
        b = P(f(P(v), P(w)))
    return T.mk_big(op, [(v, P(n)), (w, P(m))], (b,), tuple(P(x) for x in xargs), isint)


def MAX(n, f):
    return big("max", n, f)


def MIN(n, f):
    return big("min", n, f)


def MEAN(n, f):
    return SUM(n, f) / P(n)


def IF(c, a, b):
    return T.mk_ite(c, P(a), P(b))


def DOT(n, f, g):
    return SUM(n, lambda i: f(i) * g(i))


def abs_(x):
    return mk_app("abs", P(x))


def sqrt(x):
    return mk_app("sqrt", P(x))


def sign(x):
    return mk_app("sign", P(x))


def tanh(x):
    return mk_app("tanh", P(x))


def exp(x):
    return mk_app("exp", P(x))


def power(x, y):
    return mk_app("pow", P(x), P(y))


def log10(x):
    return mk_app("log10", P(x))


def DERIV(p, name, *at):
    """the partial derivative of p with respect to name(*at), `name` being a function symbol of p (sums, products, quotients, exp, tanh)"""
    p = P(p)
    if name not in p.syms:
        return ZERO
    r = ZERO
    for m, c in p.t.items():
        for a, e in m:
            if name not in a.syms:
                continue
            rest = P(c)
            for b, x in m:
                rest = rest * ((P(b) ** (x - 1)) * x if b is a else P(b) ** x)
            r = r + rest * _datom(a, name, at)
    return r


def _datom(a, name, at):
    if a.kind == "app" and a.name == name:
        return T.mk_ite(And(*[EQ(x, P(y)) for x, y in zip(a.args, at)]), ONE, ZERO)
    if a.kind == "app" and a.name == "exp":
        return P(a) * DERIV(a.args[0], name, *at)
    if a.kind == "app" and a.name == "tanh":
        return (1 - P(a) ** 2) * DERIV(a.args[0], name, *at)
    if a.kind == "den":             # a named denominator: its own derivative
        u = a.args[0]
        # u = c + k exp(s): k exp(s) s' is (u - c) s', which keeps powers of u
        if len(u.t) == 2 and u.t.get(()) is not None:
            x = T.single(P((u - u.t[()]) * (1 / P([k for mm, k in u.t.items() if mm][0]))))
            if x is not None and x.kind == "app" and x.name == "exp":
                return (P(a) - u.t[()]) * DERIV(x.args[0], name, *at)
        return DERIV(u, name, *at)
    if a.kind == "big" and a.name == "sum":
        dims, bv, bodies, _ = a.args
        if any(name in n.syms for n in dims):
            raise ValueError("derivative of a range")
        vs = [T.fresh("d") for _ in bv]
        b = T.subst(bodies[0], {x.name: P(v) for x, v in zip(bv, vs)})
        facts = [f for v, n in zip(vs, dims) for f in T.inrange(P(v), n)]
        with T.assuming(*facts):
            d = DERIV(b, name, *at)
        for v, n in zip(reversed(vs), reversed(dims)):
            d = T.mk_sum(v, n, d)
        return d
    raise ValueError("no derivative of " + str(a)[:80])


_rid = [0]


class Recur:
    """mutually recursive sequences, one declaration per component: name -> (number of indices, init(*idx), step(S, k, *idx)),
    where S(name)(k, *idx) is the value of a component at step k (only k and smaller allowed)"""

    def __init__(self, **comps):
        _rid[0] += 1
        tag = "t%d" % _rid[0]
        defs = []
        kv = T.vatom("k.spec", True)

        def S(nm):
            return lambda k, *ix: T.app("%s.%s" % (tag, nm), P(k), *[P(i) for i in ix])
        sym = {nm: "%s.%s" % (tag, nm) for nm in comps}
        for nm, (ni, init, step) in comps.items():
            fs = [T.vatom("f.spec%d" % j, True) for j in range(ni)]
            ix = [P(f) for f in fs]
            defs.append((sym[nm], fs, kv, P(init(*ix)), P(step(S, P(kv), *ix)), False))
        m = T.mk_recs(defs)
        self.f = {nm: m[sym[nm]] for nm in comps}

    def __getitem__(self, nm):
        return self.f[nm]


def pos(*vs):
    return [LE(1, P(v)) for v in vs]


def opq(name, arrs, xs, i=None):
    """value of an opaque function: arrs = list of (length, function), xs = scalar arguments, i = component of the result"""
    return P(Opq().term(name, [(P(m), f) for m, f in arrs] + [P(x) for x in xs], None if i is None else P(i)))
