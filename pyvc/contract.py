"""Contracts on the real code: a harness (Python source calling the public functions of padasip) with symbolic inputs, a
precondition and postconditions.  The same harness is executed by the verifier for all inputs and, to replay
counterexamples or as a labelled bounded stand-in, by CPython on concrete inputs."""
import copy
import os
import random
import time
import traceback

from . import terms as T
from . import logic as L
from . import induct
from .terms import P, EQ, LE, LT, And, Or, Not, Implies
from .core import (Unsupported, PyExc, Num, I, F, SB, Arr, Obj, ListV, DictV, SStr, ListRec, FrozenListRec, Host, Bad, exc_is, Junk,
                   Undef, BufRec)
from .interp import Interp

REPO = os.environ.get("VERIF_REPO", "/repo")


# ------------------------------------------------------------------------------------------------ inputs
class A:
    """array input; elements are uninterpreted functions of the indices"""

    def __init__(self, *dims, dt="f", f=None):
        self.dims, self.dt, self.f = [P(d) for d in dims], dt, f

    def sym(self, I_, name):
        f = self.f or (lambda *ix: T.app(name, *ix, isint=self.dt == "i"))
        return I_.mkarr(self.dims, f, self.dt)

    def native(self, env, name):
        import numpy as np
        ds = [int(L.ev(d, env)) for d in self.dims]
        out = np.zeros(ds, dtype={"f": float, "i": int, "f4": np.float32, "b": bool}[self.dt])
        f = self.f or (lambda *ix: T.app(name, *ix, isint=self.dt == "i"))
        if 0 in ds:
            return out
        for ix in np.ndindex(*ds):
            out[ix] = L.ev(P(f(*[P(int(i)) for i in ix])), env)
        return out


class R:
    """real scalar: a variable of that name, or an expression"""

    def __init__(self, e=None):
        self.e = T.var(e) if isinstance(e, str) else e

    def sym(self, I_, name):
        return F(P(self.e) if self.e is not None else T.var(name))

    def native(self, env, name):
        return float(L.ev(P(self.e) if self.e is not None else T.var(name), env))


class Z:
    def __init__(self, e=None):
        self.e = T.var(e, True) if isinstance(e, str) else e

    def sym(self, I_, name):
        return I(P(self.e) if self.e is not None else T.var(name, True))

    def native(self, env, name):
        return int(L.ev(P(self.e) if self.e is not None else T.var(name, True), env))


class C:
    """a constant Python value: None, bool, str, int, float"""

    def __init__(self, v):
        self.v = v

    def sym(self, I_, name):
        return conv(self.v)

    def native(self, env, name):
        return self.v


def conv(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, int):
        return I(v)
    if isinstance(v, float):
        from fractions import Fraction
        return F(P(Fraction(repr(v))))
    raise Unsupported("constant %r" % (v,))


class Lst:
    """python list of numbers of symbolic length (nested: each entry an array row given as a list)"""

    def __init__(self, n, m=None, dt="f", f=None):
        self.n, self.m, self.dt, self.f = P(n), None if m is None else P(m), dt, f

    def el(self, name):
        return self.f or (lambda *k: T.app(name, *k, isint=self.dt == "i"))

    def sym(self, I_, name):
        f = self.el(name)
        if self.m is not None:
            return ListV(I_.alloc(ListRec(None, self.n, lambda i: ListV(I_.alloc(
                FrozenListRec(None, self.m, lambda k: Num(f(i, k), self.dt)))))))
        return ListV(I_.alloc(ListRec(None, self.n, lambda k: Num(f(k), self.dt))))

    def native(self, env, name):
        f, one = self.el(name), float if self.dt == "f" else int
        rows = range(int(L.ev(self.n, env)))
        if self.m is not None:
            return [[one(L.ev(P(f(P(i), P(j))), env)) for j in range(int(L.ev(self.m, env)))] for i in rows]
        return [one(L.ev(P(f(P(i))), env)) for i in rows]


class BadSeq:
    """a list of n values that are not numbers"""

    def __init__(self, n):
        self.n = P(n)

    def sym(self, I_, name):
        return Bad(self.n)

    def native(self, env, name):
        return ("@bad", int(L.ev(self.n, env)))


class Opq:
    """an opaque user function of scalars and 1d arrays (a contract that promises nothing); size: None for a scalar result,
    or the length of the resulting vector"""

    def __init__(self, size=None):
        self.size = None if size is None else P(size)

    def term(self, name, args, i=None, interp=None):
        arrs = [a for a in args if isinstance(a, tuple)]
        xs = [P(a) for a in args if not isinstance(a, tuple)]
        if i is not None:
            xs.append(P(i))
        if arrs:
            n = arrs[0][0]
            v = T.fresh("o")
            return T.mk_big("op_" + name, [(v, n)], tuple(P(f(P(v))) for _, f in arrs), tuple(xs))
        v = T.fresh("o")
        return T.mk_big("op_" + name, [(v, 1)], (T.ZERO,), tuple(xs))

    def sym(self, I_, name):
        def f(*args):
            aa = []
            for a in args:
                if isinstance(a, Num):
                    aa.append(a.p)
                elif isinstance(a, Arr) and len(a.shape) == 1:
                    aa.append((a.shape[0], lambda j, a=a: I_.at(a, (j,))))
                elif isinstance(a, Arr) and len(a.shape) == 0:
                    aa.append(I_.at(a, ()))
                else:
                    raise Unsupported("opaque function applied to %s" % type(a).__name__)
            if self.size is None:
                return Num(self.term(name, aa), "f", True)
            # evaluate now: arrays may be overwritten later
            vals = [x if not isinstance(x, tuple) else x for x in aa]
            return I_.mkarr((self.size,), lambda i: self.term(name, vals, i))
        return Host(f, name)

    def native(self, env, name):
        return ("@opq", "op_" + name, None if self.size is None else int(L.ev(self.size, env)))


class Str:
    """an arbitrary string; fold: one that equals this constant up to letter case; excl: one whose upper-case form is
    none of these"""

    def __init__(self, samples=(), fold=None, excl=()):
        self.samples, self.fold, self.excl = list(samples), fold, frozenset(excl)

    def sym(self, I_, name):
        return SStr(name, self.fold, self.excl)

    def native(self, env, name):
        return env.strs[name]

    def pick(self, r):
        if self.fold is not None:
            return r.choice([self.fold.lower(), self.fold.upper(), self.fold, "".join(r.choice([c.lower(), c.upper()]) for c in self.fold)])
        return r.choice([v for v in self.samples if v.upper() not in self.excl])


def notstr(name, *vals, op=""):
    return [Not(T.bvar("str:%s:%s:%s" % (name, op, v))) for v in vals]


class Seq:
    """tuple/list of inputs"""

    def __init__(self, *items, tup=False):
        self.items, self.tup = items, tup

    def sym(self, I_, name):
        v = [x.sym(I_, "%s.%d" % (name, j)) for j, x in enumerate(self.items)]
        return tuple(v) if self.tup else ListV(I_.alloc(ListRec(v)))

    def native(self, env, name):
        v = [x.native(env, "%s.%d" % (name, j)) for j, x in enumerate(self.items)]
        return ("@seq", v)


# ------------------------------------------------------------------------------------------------ results
class Val:
    """result value seen by postconditions"""

    def __init__(self, kind, shape=(), at=None, dt=None, items=None, c=None, I_=None):
        self.kind, self.shape, self._at, self.dt, self.items, self.c = kind, tuple(shape), at, dt, items, c

    def __call__(self, *ix):
        return self._at(*[P(i) for i in ix])

    def __getitem__(self, j):
        return self.items[j]

    @property
    def p(self):
        return self._at()

    def __len__(self):
        return len(self.items)


def symval(I_, v, heap, name="R"):
    if isinstance(v, Num):
        return Val("num", (), lambda: v.p, v.t)
    if isinstance(v, SB):
        return Val("bool", (), lambda: T.b2p(v.b), "b")
    if v is None or isinstance(v, (bool, str)):
        return Val("const", c=v, at=(lambda: P(int(v))) if isinstance(v, bool) else None)
    if isinstance(v, Arr):
        def at(*ix):
            return I_.at(v, ix, heap)
        return Val("arr", v.shape, at, heap[v.buf].dt)
    if isinstance(v, tuple):
        return Val("tuple", items=[symval(I_, x, heap) for x in v], shape=(P(len(v)),))
    if isinstance(v, ListV):
        rec = heap[v.id]
        if rec.app:
            raise Unsupported("list under construction")
        if rec.items is not None:
            its = [symval(I_, x, heap) for x in rec.items]
            r = Val("list", items=its, shape=(P(len(its)),))
            return r
        with T.assuming(LE(1, rec.length)):
            pass

        def inner(k):
            old = I_.heap
            I_.heap = dict(heap)
            try:
                x = rec.elem(k)
                return symval(I_, x, I_.heap)
            finally:
                I_.heap = old
        probe = inner(P(T.fresh("q")))
        if probe.kind == "num":
            return Val("list", (rec.length,), lambda k: inner(k).p, probe.dt)
        if probe.kind == "arr":
            return Val("list", (rec.length,) + probe.shape, lambda k, *ix: inner(k)(*ix), probe.dt)
        raise Unsupported("list of %s" % probe.kind)
    if isinstance(v, (Junk, Undef)):
        return Val("junk", c=getattr(v, "why", ""))
    return Val("other", c=type(v).__name__)


def magnitude(enc):
    """largest finite number in an encoded result"""
    import numpy as np
    if enc[0] == "n":
        v = abs(enc[1]) if not isinstance(enc[1], complex) else 0.0
        return v if v < float("inf") else 0.0
    if enc[0] == "a":
        v = enc[1]
        v = np.abs(v[np.isfinite(v)]) if v.dtype.kind in "fi" else np.zeros(0)
        return float(v.max()) if v.size else 0.0
    if enc[0] in "tl":
        return max([magnitude(x) for x in enc[1]], default=0.0)
    return 0.0


def natval(enc, env, name="R"):
    import numpy as np
    k = enc[0]
    if k == "n":
        val = enc[1]
        env.ufs[name] = lambda: val
        return Val("num", (), lambda: T.app(name, isint=isinstance(val, int)), _dt(enc[2]))
    if k == "c":
        v = enc[1]
        return Val("const", c=v, at=(lambda: P(int(v))) if isinstance(v, bool) else None)
    if k == "a":
        arr = enc[1]

        def look(*ix):
            if len(ix) != arr.ndim:
                raise L.Undefined("rank")
            ii = tuple(int(i) for i in ix)
            if any(not 0 <= i < s for i, s in zip(ii, arr.shape)):
                raise L.Undefined("index")
            v = arr[ii]
            if isinstance(v, complex) or arr.dtype.kind == "c":
                v = v.real
            return v.item() if hasattr(v, "item") else v
        env.ufs[name] = look
        return Val("arr", tuple(P(int(s)) for s in arr.shape), lambda *ix: T.app(name, *ix), _dt(enc[2]))
    if k in "tl":
        its = [natval(x, env, "%s.%d" % (name, j)) for j, x in enumerate(enc[1])]
        r = Val("tuple" if k == "t" else "list", items=its, shape=(P(len(its)),))
        if k == "l" and its and all(x[0] in "na" for x in enc[1]):
            try:
                arr = np.array([x[1] for x in enc[1]], dtype=float)
                r2 = natval(("a", arr, "float64"), env, name)
                r.shape, r._at, r.dt = r2.shape, r2._at, its[0].dt
            except Exception:
                pass
        return r
    return Val("other", c=enc[1])


def _dt(s):
    if s in ("float", "float64"):
        return "f"
    if s.startswith("int") or s.startswith("uint"):
        return "i"
    if s == "float32":
        return "f4"
    if s.startswith("bool"):
        return "b"
    return s


# ------------------------------------------------------------------------------------------------ goals
class Goal:
    """for all binders in range (and facts): lhs == rhs, or holds"""

    def __init__(self, label, lhs=None, rhs=None, holds=None, binders=(), facts=(), tol=None):
        self.label, self.lhs, self.rhs, self.holds, self.binders, self.facts = label, lhs, rhs, holds, list(binders), list(facts)
        self.tol = tol

    def context(self):
        fs = []
        for v, d in self.binders:
            fs += T.inrange(P(v), d)
        return fs + self.facts


def eq(label, a, b, binders=(), facts=(), tol=None):
    return Goal(label, P(a), P(b), binders=binders, facts=facts, tol=tol)


def holds(label, b, binders=(), facts=()):
    if isinstance(b, bool):
        b = T.TRUE if b else T.FALSE
    return Goal(label, holds=b, binders=binders, facts=facts)


def is_arr(label, v, shape, f=None, dt=None, facts=(), over=None, tol=None):
    """v is an array (or list) of that shape with elements f(*idx); dt: required element type"""
    out = []
    shape = [P(s) for s in shape]
    if v.kind == "list" and v._at is None and v.items is not None and len(v.items) == 0:
        out.append(eq(label + ":length", 0, shape[0]))
        return out
    if v.kind == "list" and v.items is not None and v._at is None:
        # a literal list: element by element
        out.append(eq(label + ":length", P(len(v.items)), shape[0]))
        if shape[0].isconst():
            for j, it in enumerate(v.items):
                if len(shape) == 1:
                    if it.kind != "num":
                        return [holds(label + ":numbers", False)]
                    if f is not None:
                        out.append(eq("%s[%d]" % (label, j), it.p, f(P(j))))
                else:
                    out += is_arr("%s[%d]" % (label, j), it, shape[1:], (lambda *ix, j=j: f(P(j), *ix)) if f else None)
        return out
    if v.kind not in ("arr", "list") or len(v.shape) != len(shape):
        return [holds(label + ":array of rank %d" % len(shape), False)]
    for j, (a, b) in enumerate(zip(v.shape, shape)):
        out.append(eq("%s:dim%d" % (label, j), a, b))
    if dt is not None:
        out.append(holds("%s:element type" % label, v.dt == dt))
    if f is not None:
        vs = [T.fresh("i") for _ in shape]
        ix = [P(x) for x in vs]
        out.append(eq(label + ":elements", Lazy(lambda: v(*ix)), Lazy(lambda: P(f(*ix))), list(zip(vs, shape)), facts, tol))
    return out


def is_num(label, v, p, tol=None):
    if v.kind == "arr" and v.shape == ():
        return [eq(label, v(), p, tol=tol)]
    if v.kind != "num":
        return [holds(label + ":number", False)]
    return [eq(label, v.p, p, tol=tol)]


def is_const(label, v, c):
    return [holds(label, v.kind == "const" and v.c is c if not isinstance(c, str) else (v.kind == "const" and v.c == c))]


def each(label, v, cond, shape=None):
    """cond(element, idx...) holds for every element"""
    shape = v.shape if shape is None else shape
    if v.kind not in ("arr", "list", "num") or len(v.shape) != len(shape):
        return [holds(label + ":array", False)]
    vs = [T.fresh("i") for _ in shape]
    ix = [P(x) for x in vs]
    return [Goal(label, holds=Lazy(lambda: cond(v(*ix), *ix)), binders=list(zip(vs, shape)))]


def pointwise(label, shape, f, g):
    """f(*idx) == g(*idx) for every index within shape"""
    vs = [T.fresh("i") for _ in shape]
    ix = [P(x) for x in vs]
    return [_eqfix(label, Lazy(lambda: P(f(*ix))), Lazy(lambda: P(g(*ix))), binders=list(zip(vs, [P(s) for s in shape])))]


class Lazy:
    """evaluated in the context (binder ranges, path condition) of the goal"""

    def __init__(self, f):
        self.f = f


def force(x):
    return x.f() if isinstance(x, Lazy) else x


def _eqfix(label, lhs, rhs, binders=(), facts=(), tol=None):
    return Goal(label, lhs if isinstance(lhs, Lazy) else P(lhs), rhs if isinstance(rhs, Lazy) else P(rhs), binders=binders,
                facts=facts, tol=tol)


eq = _eqfix


# ------------------------------------------------------------------------------------------------ contracts
class Contract:
    def __init__(self, name, src, fn, inputs, ensures, requires=(), raises=None, may_raise=(), covers=(), samples=12,
                 bounds=None, tol=1e-6, timeout=240, lemmas=(), distinct=None, note="", known=None, env_hook=None, defined=False,
                 native=True, modes=None, min_paths=1, skip_native=None, sample_if=()):
        import ast
        formal = next([a.arg for a in d.args.args] for d in ast.parse(src).body if isinstance(d, ast.FunctionDef) and d.name == fn)
        assert len(formal) == len(inputs), (name, formal, list(inputs))
        if set(formal) == set(inputs):
            inputs = {a: inputs[a] for a in formal}
        self.name, self.src, self.fn, self.inputs, self.ensures = name, src, fn, inputs, ensures
        self.requires, self.raises, self.may_raise = list(requires), raises or {}, may_raise
        self.defined = defined          # every division in the code is an obligation: the divisor is not zero
        self.covers, self.samples, self.bounds, self.tol, self.timeout = covers, samples, bounds or {}, tol, timeout
        self.note, self.env_hook, self.native = note, env_hook, native
        self.sample_if = list(sample_if)     # observed by the native runs only: well-conditioned inputs
        self.modes, self.min_paths, self.skip_native = modes, min_paths, skip_native
        self.known = known or {}
        self.lemmas = lemmas


class Rec(dict):
    __getattr__ = dict.get


def _unsupported_reason(e):
    w = getattr(e, "where", "")
    return "%s%s" % (e, (" at " + w) if w else "")


def verify(c, canary=True):
    """-> Rec(obligations=[(label, status, how/info)], unsupported, paths, functions, ...)"""
    I_ = Interp(REPO)
    I_.loop_obls = []
    res = Rec(name=c.name, goals=[], unsupported=None, paths=0, functions=[], refuted=[], unknown=[], proved=0, how={},
              canary=None, rets=0, excs=0)
    t0 = time.time()
    try:
        h = I_.load_src("harness", c.src)

        def thunk():
            args = [x.sym(I_, n) for n, x in c.inputs.items()]
            return I_.call(h.env[c.fn], args, {})
        with T.assuming(*c.requires):
            paths = I_.explore(thunk)
        res["paths"] = len(paths)
        res["functions"] = sorted("%s:%s" % k for k in I_.executed if not k[0].startswith("harness"))
        res["assumed"] = sorted(I_.assumed)
        for lo in I_.loop_obls:
            res["proved"] += 1
            res["how"]["loop invariant (init+step)"] = res["how"].get("loop invariant (init+step)", 0) + 1
        if c.defined:
            for j, (y, ctx) in enumerate(dict.fromkeys(I_.defs)):
                lab = "%s/division%d:defined" % (c.name, j)
                with T.assuming(*(list(c.requires) + list(ctx))):
                    how = L.prove_bool(Not(T.EQ(y, T.ZERO)))
                    if how:
                        res["proved"] += 1
                        res["how"][how] = res["how"].get(how, 0) + 1
                    else:
                        res["unknown"].append((lab, None, "%r is not zero" % (y,)))
        for pi, p in enumerate(paths):
            I_.heap = p.heap
            with T.assuming(*(list(c.requires) + list(p.conds))):
                goals = path_goals(c, I_, p)
                if p.kind == "ret":
                    res["rets"] += 1
                else:
                    res["excs"] += 1
                for g in goals:
                    st, how, info = discharge(g)
                    lab = "%s/path%d/%s" % (c.name, pi, g.label)
                    if st == "proved":
                        res["proved"] += 1
                        res["how"][how] = res["how"].get(how, 0) + 1
                        if canary and res["canary"] is None and g.lhs is not None and g.holds is None:
                            g2 = Goal(g.label, g.lhs, Lazy(lambda g=g: P(force(g.rhs)) + 1), binders=g.binders, facts=g.facts)
                            with T.assuming(*g2.context()):
                                bad = prove(P(force(g2.lhs)) - P(force(g2.rhs)))
                            # (an infeasible index range makes the false goal provable: then try another one)
                            if bad is None:
                                res["canary"] = True
                    elif st == "refuted":
                        res["refuted"].append((lab, info, _show(g)))
                    else:
                        res["unknown"].append((lab, info, _show(g)))
    except Unsupported as e:
        res["unsupported"] = _unsupported_reason(e)
    except (T.TermError, RecursionError) as e:
        if __import__("os").environ.get("PYVC_TB"):
            tb = traceback.extract_tb(e.__traceback__)
            print(len(tb), [(t.name, t.lineno) for t in tb[:10] + tb[500:540] + tb[-60:]])
        res["unsupported"] = "%s: %s" % (type(e).__name__, e)
    except PyExc as e:
        res["unsupported"] = "exception outside the harness: %s" % (e,)
    except AssertionError as e:
        res["unsupported"] = "internal assertion: %s" % (e,)
    except Exception as e:
        if __import__("os").environ.get("PYVC_DEBUG"):
            raise
        res["unsupported"] = "internal error %s: %s (%s)" % (type(e).__name__, e, traceback.extract_tb(e.__traceback__)[-1])
    finally:
        del T.CTX[:]
    res["t"] = time.time() - t0
    return res


def path_goals(c, I_, p):
    goals = []
    if p.kind == "exc":
        ex = p.value
        nm = ex.name if isinstance(ex, PyExc) else str(ex)
        for want, cond in c.raises.items():
            if exc_is(nm, want):
                return [holds("raises %s only when specified" % want, cond)]
        return [holds("no %s (%s)" % (nm, getattr(ex, "msg", "")), False)]
    for want, cond in c.raises.items():
        goals.append(holds("returns only when %s is not specified" % want, Not(cond)))
    v = symval(I_, p.value, p.heap)
    goals += list(c.ensures(v))
    return goals


def _show(g):
    try:
        with T.assuming(*g.context()):
            if g.holds is not None:
                return repr(force(g.holds))[:600]
            return ("%r == %r" % (force(g.lhs), force(g.rhs)))[:900]
    except Exception as e:
        return "?%s" % e


def prove(p):
    return induct.prove_zero(p)


def discharge(g):
    """-> (status, how, info)"""
    with T.assuming(*g.context()):
        try:
            if L.feasible(list(T.CTX)) is False:
                return "proved", "infeasible path", None
        except Exception:
            pass
        if g.holds is None:
            d = P(force(g.lhs)) - P(force(g.rhs))
            how = prove(d)
            if how is not None:
                if how != "nf" or d.size < 400:
                    # defence against prover bugs: a proved equation must also hold numerically
                    r = L.refute_eq(force(g.lhs), force(g.rhs), list(T.CTX), count=2, seed=7)
                    if r:
                        return "refuted", None, dict(r, note="normal form and evaluation disagree")
                return "proved", how, None
            r = L.refute_eq(force(g.lhs), force(g.rhs), list(T.CTX), count=8)
            if r:
                return "refuted", None, r
            return "unknown", None, None if r is None else "not evaluable"
        b = force(g.holds)
        how = prove_b(b)
        if how is not None:
            return "proved", how, None
        r = refute_b(b, list(T.CTX))
        if r:
            return "refuted", None, r
        return "unknown", None, None


def prove_b(b):
    if b is T.TRUE:
        return "nf"
    if T.decide(b) is True:
        return "nf"
    if b.kind == "eq":
        return prove(b.args[0])
    if b.kind == "and":
        hs = [prove_b(x) for x in b.args]
        return None if any(h is None for h in hs) else "+".join(sorted(set(hs)))
    h = L.prove_bool(b)
    if h is not None:
        return h
    w = witnesses(b)
    if w:
        with T.assuming(*w):
            h = L.prove_bool(b)
        if h is not None:
            return h + "+witness"
    # implication/disjunction: assume the negation of all but one
    if b.kind == "or":
        for j, x in enumerate(b.args):
            with T.assuming(*[Not(y) for i, y in enumerate(b.args) if i != j]):
                h = prove_b(x) if x.kind != "or" else None
            if h is not None:
                return h
    return None


def witnesses(b):
    """facts about the extrema and sums in b: an extremum over a non-empty range is attained (at a fresh index), a sum of
    non-negative terms is at least each of its terms"""
    bigs = []
    for q in _polys_of(b):
        L.bigs_in(q, bigs, set())
    ext = [a for a in bigs if a.name in ("max", "min") and len(a.args[1]) == 1]
    sums = [a for a in bigs if a.name == "sum" and len(a.args[1]) == 1 and a.nonneg]
    out = []
    for a in bigs:
        if a.name == "sum" and all(x.kind == "ite" and all(y is T.ONE or y is T.ZERO for y in x.args[1:])
                                   for b in a.args[2] for mm, c in b.t.items() for x, e in mm) and [c for c in a.args[2][0].t.values()] == [1]:
            # a count is not above the number of cases
            top = T.ONE
            for d in a.args[0]:
                top = top * T.clip0(d)
            out.append(LE(P(a), top))
    if not ext or len(ext) > 4:
        return out
    ws = []
    for a in ext:
        dims, bv, bodies, _ = a.args
        if T.decide(LE(1, dims[0])) is not True:
            continue
        w = P(T.fresh("w"))
        ws.append((w, dims[0]))
        out += T.inrange(w, dims[0])
        out.append(EQ(P(a), T.subst(bodies[0], {bv[0].name: w})))
    for w, d in ws:
        for a in sums + ext:
            dims, bv, bodies, _ = a.args
            if dims[0] is not d:
                continue
            t = T.subst(bodies[0], {bv[0].name: w})
            out.append(LE(t, P(a)) if a.name in ("sum", "max") else LE(P(a), t))
    return out


def _polys_of(b):
    if b.kind in ("eq", "le", "lt"):
        return [b.args[0]]
    return [q for x in b.args if isinstance(x, T.Bool) for q in _polys_of(x)]


def refute_b(b, facts, count=8):
    presets = [None]
    h = L.model_hints(facts + [Not(b)]) if facts else L.model_hints([Not(b)])
    if h:
        presets.append({k: (int(v) if v.denominator == 1 and ("var", k, (), True) in T._atoms else float(v)) for k, v in h.items()})
    for pre in presets:
        for env in L.sample_envs(facts, count, presets=pre, tries=300 if pre is None else 20):
            try:
                if not L.evb(b, env):
                    return {"values": {k: v for k, v in env.vals.items() if "#" not in k}, "lhs": "false", "rhs": "true",
                            "rng": env.rng}
            except (L.Undefined, OverflowError, ZeroDivisionError, TypeError):
                continue
    return None


# ------------------------------------------------------------------------------------------------ native evaluation
MODES = ("uniform", "ints", "sparse", "const", "scaled", "uniform")


class NEnv(L.Env):
    """environment for native runs: element distributions by mode"""

    def __init__(self, rng, mode, scale=1.0, pos=False, spec=None):
        super().__init__(rng)
        self.mode, self.sc = mode, scale
        self.budget = 1500000
        self.spec = spec or {}

    def uf(self, name, args, isint):
        if name in ("gauss#", "unif#"):
            return L.stream(name, args[0])
        f = self.ufs.get(name)
        if f is not None:
            return f(*args)
        key = (name,) + tuple(round(a, 9) if isinstance(a, float) else a for a in args)
        v = self.memo.get(key)
        if v is None:
            r = random.Random(repr(key) + str(self.rng))
            g = self.spec.get(name)
            if g is not None:
                v = g(r, *args)
            elif isint:
                v = r.randint(-4, 4)
            elif self.mode == "uniform":
                v = r.uniform(-2, 2)
            elif self.mode == "ints":
                v = float(r.randint(-2, 2))
            elif self.mode == "sparse":
                v = r.choice([0.0, 0.0, r.uniform(-2, 2)])
            elif self.mode == "const":
                v = random.Random(name + str(self.rng)).choice([0.0, 1.0, -0.5, 0.7])
            else:
                v = r.uniform(-2, 2) * self.sc
            if self.wobble and isinstance(v, float):
                v += (v or 1.0) * self.wobble * (1 if r.random() < 0.5 else -1)
            self.memo[key] = v
        return v


def native_env(c, seed, t, ints=(), preset=None, wide=False):
    r = random.Random("%s/%s/%s" % (c.name, seed, t))
    modes = c.modes or MODES
    mode = modes[t % len(modes)] if isinstance(t, int) else modes[0]
    fv = set()
    for f in c.requires:
        fv |= f.fv
    for x in c.inputs.values():
        for q in _polys_in(x):
            fv |= q.fv
    for n, x in c.inputs.items():
        if isinstance(x, (R, Z)) and x.e is None:
            fv.add(n)
    for tries in range(600):
        env = NEnv(r.random(), mode, r.choice([10.0, 0.1, 100.0, 1e-3, 1e-4, 1e4] if wide else [10.0, 0.1, 100.0]), spec=c.bounds.get("@uf"))
        for nm in sorted(fv):
            if nm.startswith("@") or nm.startswith("$"):
                continue
            isint = ("var", nm, (), True) in T._atoms
            b = c.bounds.get(nm)
            if callable(b):
                env.vals[nm] = b(r)
            elif b is not None:
                lo, hi = b
                env.vals[nm] = r.randint(lo, hi) if isint else r.uniform(lo, hi)
                if isint and ints and r.random() < 0.3:
                    env.vals[nm] = r.choice(ints)
            elif isint:
                env.vals[nm] = r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6]) if not (ints and r.random() < 0.25) else r.choice(ints)
            else:
                env.vals[nm] = r.choice([0.0, 0.5, 1.0, r.uniform(-2, 2), r.uniform(0, 1), r.uniform(0, 1), r.uniform(0, 3)])
        if preset:
            env.vals.update({k: v for k, v in preset.items() if k in fv})
        env.strs = {n: x.pick(r) for n, x in c.inputs.items() if isinstance(x, Str)}
        if c.env_hook:
            c.env_hook(env, r)
        try:
            if all(L.evb(f, env) for f in c.requires + c.sample_if):
                return env
        except L.Undefined:
            continue
        if preset and tries > 50:
            preset = None
    return None


def _polys_in(x):
    out = []
    for q in (getattr(x, "dims", None) or []) + [getattr(x, "n", None), getattr(x, "e", None), getattr(x, "size", None)]:
        if isinstance(q, T.Poly):
            out.append(q)
    for y in getattr(x, "items", ()) or ():
        out += _polys_in(y)
    return out


def native_check(c, env, nat, want_args=False):
    """run the harness natively in env and evaluate every postcondition; -> None (fine) / ('skip', why) / ('fail', label, detail)"""
    try:
        args = [x.native(env, n) for n, x in c.inputs.items()]
    except (L.Undefined, OverflowError, ZeroDivisionError) as e:
        return ("skip", "inputs: %s" % e), None
    r = nat.call(c.src, c.fn, args)
    desc = {n: _enc(a) for n, a in zip(c.inputs, args)}
    if r[0] in ("hang", "dead"):
        return ("skip", r[0]), desc
    try:
        if r[0] == "exc":
            for want, cond in c.raises.items():
                if want in r[1]:
                    if L.evb(cond, env):
                        return None, desc
                    return ("fail", "raises %s only when specified" % want, "raised %s: %s" % (r[1][0], r[2])), desc
            if r[1][0] in c.may_raise:
                return ("skip", r[1][0]), desc
            return ("fail", "no %s" % r[1][0], "raised %s: %s at %s" % (r[1][0], r[2], r[3])), desc
        for want, cond in c.raises.items():
            if L.evb(cond, env):
                return ("fail", "returns only when %s is not specified" % want, "returned"), desc
        v = natval(r[1], env)
        if _nonfinite(r[1]) and c.skip_native != "finite":
            pass
        for gi, g in enumerate(c.ensures(v)):
            bad = eval_goal(g, env, g.tol or c.tol, slack=1e-9 * magnitude(r[1]))
            if bad:
                if bad == "undefined":
                    continue
                if isinstance(bad, Mismatch) and _roundoff(c, env, nat, gi, bad):
                    return ("skip", "round-off"), desc
                return ("fail", g.label, bad), desc
    except L.Undefined as e:
        return ("skip", str(e)), desc
    return None, desc


class Mismatch(str):
    """difference of two numbers at an index"""
    at = None


def _roundoff(c, env, nat, gi, bad):
    """a difference that goes with the value of the specification, or a small one that changes, when the inputs are disturbed in
    the thirteenth digit is round-off, amplified by the
    computation itself (a long feedback loop), and says nothing about the code"""
    ix, a, b = bad.at
    small = abs(a - b) <= 1e-3 * (1 + abs(b))
    r = random.Random(1)
    env2 = copy.copy(env)
    env2.ufs = {k: v for k, v in env.ufs.items() if not k.startswith("R")}
    env2.vals = {k: _disturb(v, r) for k, v in env.vals.items()}
    env2.memo, env2.wobble, env2.budget = {}, 1e-13, 3000000
    try:
        q = nat.call(c.src, c.fn, [x.native(env2, n) for n, x in c.inputs.items()])
        if q[0] == "exc":
            return False
        g = c.ensures(natval(q[1], env2))[gi]
        other = eval_goal(g, env2, 0.0, only=ix)
    except (L.Undefined, OverflowError, ZeroDivisionError, IndexError):
        return False
    if not isinstance(other, Mismatch):
        return small and other is None
    _, a2, b2 = other.at
    # the specified value itself is that sensitive, or (small differences) the difference comes and goes
    return abs(b2 - b) > 0.01 * abs(a - b) or small and abs((a2 - b2) - (a - b)) > 0.1 * abs(a - b)


def _disturb(v, r):
    return v * (1 + r.choice([-1, 1]) * 1e-13) if isinstance(v, float) else v


def _nonfinite(enc):
    return False


def eval_goal(g, env, tol, only=None, slack=0.0):
    """slack: absolute tolerance, round-off of the largest number of the result"""
    import itertools
    import math
    ds = [int(L.ev(P(d), env)) for _, d in g.binders]
    total = 1
    for d in ds:
        total *= max(d, 0)
    idx = list(itertools.product(*[range(max(d, 0)) for d in ds]))
    if len(idx) > 400:
        idx = random.Random(1).sample(idx, 400)
    lhs = rhs = hb = None
    undefined = 0
    if only is not None:
        idx = [only]
    for ix in idx or []:
        for (v, _), i in zip(g.binders, ix):
            env.vals[v.name] = i
        if lhs is None and hb is None:
            # built once, outside any index: terms mention the binder variables
            with T.assuming(*g.context()):
                if g.holds is not None:
                    hb = force(g.holds)
                else:
                    lhs, rhs = P(force(g.lhs)), P(force(g.rhs))
        try:
            if g.facts and not all(L.evb(f, env) for f in g.facts):
                continue
            if hb is not None:
                if not L.evb(hb, env):
                    return "%r is false at %s" % (hb, ix)
                continue
            a, b = L.ev(lhs, env), L.ev(rhs, env)
        except L.Undefined as e:
            if "rank" in str(e) or "index" in str(e):
                return "result has the wrong shape"
            undefined += 1
            continue
        except (OverflowError, ZeroDivisionError):
            undefined += 1
            continue
        if isinstance(b, complex) or isinstance(a, complex):
            undefined += 1
            continue
        if not math.isfinite(b) or abs(b) > 1e12:
            undefined += 1
            continue
        if not math.isfinite(a) or abs(a - b) > tol * (1 + abs(b)) + slack:
            bad = Mismatch("at %s: got %r, specified %r" % (list(ix), a, b))
            bad.at = (ix, a, b)
            return bad
    if not idx and g.holds is not None and not g.binders:
        pass
    return "undefined" if undefined and undefined == len(idx) else None


def _enc(a):
    import numpy as np
    if isinstance(a, np.ndarray):
        return {"array": a.tolist(), "dtype": str(a.dtype), "shape": list(a.shape)}
    if isinstance(a, tuple):
        return {"special": [x if isinstance(x, (str, int, float, type(None))) else _enc(x) for x in a]}
    if isinstance(a, (list,)):
        return [_enc(x) for x in a]
    return a
