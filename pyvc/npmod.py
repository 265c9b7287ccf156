"""The numpy / scipy / math contracts the executor knows (every entry is an assumed contract of the library)."""
from fractions import Fraction

from .opaque import seed_position
from . import terms as T
from . import logic as L
from .terms import P, Poly, EQ, LE, LT, Not, And, Or, mk_ite
from .core import *


def bool_of(p):
    """p != 0 as a condition"""
    p = P(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ite":
            cond, a, b = m[0][0].args
            if a.isconst() and b.isconst():
                x, y = a.const() != 0, b.const() != 0
                if x and not y:
                    return cond
                if y and not x:
                    return Not(cond)
        if m and all(e > 0 for a, e in m):
            bs = []
            for a, e in m:
                if a.kind == "ite":
                    b = bool_of(P(a))
                    bs.append(b)
                else:
                    bs.append(Not(T.eq0(P(a))))
            return And(*bs)
    if len(p.t) == 2 and () in p.t:
        q = p - p.t[()]
        (m, c), = q.t.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ite":
            cond, a, b = m[0][0].args
            return bool_of(mk_ite(cond, P(c) * a + p.t[()], P(c) * b + p.t[()]))
    return Not(T.eq0(p))


def maxmin(name, a, b):
    return mk_ite(LE(a, b), b, a) if name == "max" else mk_ite(LE(a, b), a, b)


class ClassSet:
    """the set of distinct values of a 1-d array, in some order"""

    def __init__(self, count, elem, t="f"):
        self.count, self.elem, self.t = count, elem, t


ORDER = {"b": 0, "i": 1, "f4": 2, "f": 3}


def join(a, b):
    return a if ORDER[a] >= ORDER[b] else b


ALIAS = {"amax": "max", "amin": "min", "absolute": "abs", "fabs": "abs", "multiply": "Mult", "add": "Add",
         "subtract": "Sub", "divide": "Div", "true_divide": "Div", "power": "Pow", "float_power": "Pow", "matmul": "MatMult",
         "mod": "Mod", "remainder": "Mod", "floor_divide": "FloorDiv"}


class NumpyMixin:
    # ------------------------------------------------------------------------------------------ lib plumbing
    def libattr(self, o, name):
        p = o.path + "." + name
        p = {"numpy.math": "math", "scipy.linalg": "numpy.linalg", "np": "numpy"}.get(p, p)
        if p in ("numpy.pi", "math.pi", "numpy.e", "math.e"):
            raise Unsupported(p)
        if p == "numpy.newaxis":
            return None
        if p in ("numpy.inf", "numpy.nan", "math.inf", "math.nan"):
            raise Unsupported(p)
        return Lib(p)

    def libcall(self, path, args, kw):
        if path.split(".")[0] in ("warnings", "logging"):
            if path in ("warnings.catch_warnings",):
                return Lib("ctx")
            return None
        if path in ("numpy.errstate",):
            return Lib("ctx")
        if path.startswith("math."):
            nm = path[5:]
            if nm in ("sqrt", "exp", "tanh", "log10", "log", "fabs", "floor", "ceil", "trunc", "log2"):
                v = args[0]
                if not isinstance(v, Num):
                    if isinstance(v, Arr):
                        v = self.builtin("float", [v], {})
                    else:
                        raise PyExc("TypeError", "must be real number")
                if nm == "log" and len(args) == 2:
                    raise Unsupported("math.log base")
                if nm == "log2":
                    raise Unsupported("math.log2")
                r = T.mk_app({"fabs": "abs"}.get(nm, nm), v.p)
                return Num(r, "i" if nm in ("floor", "ceil", "trunc") else "f")
            if nm == "pow":
                return self.binop("Pow", args[0], args[1])
            if nm in ("isnan", "isinf"):
                return False
            if nm == "isfinite":
                return True
            if nm == "fsum":
                return self.builtin("sum", args, kw)
            raise Unsupported(path)
        if path in ("scipy.stats.genpareto.fit", "scipy.stats.genpareto.cdf", "scipy.stats.genpareto.sf"):
            return getattr(self, "sp_" + path.split(".")[-1])(*args, **kw)
        if path.startswith("copy."):
            if path in ("copy.copy", "copy.deepcopy") and isinstance(args[0], Arr):
                return self.np_copy(args[0])
            if isinstance(args[0], Num):
                return args[0]
            raise Unsupported(path)
        if path.startswith("numpy."):
            nm = path[6:]
            if "out" in kw or "where" in kw:
                if "out" in kw and "where" not in kw:
                    kw = dict(kw)
                    out = kw.pop("out")
                    r = self.libcall(path, args, kw)
                    self.inplace(out, r)
                    return out
                raise Unsupported(path + " with out/where")
            nm = ALIAS.get(nm, nm)
            if nm in ("Mult", "Add", "Sub", "Div", "Pow", "MatMult", "Mod", "FloorDiv"):
                return self.binop(nm, args[0], args[1])
            if nm in ("isnan", "isinf", "isfinite"):
                v = args[0]
                return self.ew1(lambda p: P(1 if nm == "isfinite" else 0), v, "b")
            f = getattr(self, "np_" + nm.replace(".", "_"), None)
            if f is None:
                raise Unsupported(path)
            self.assumed.add(path)
            try:
                return f(*args, **kw)
            except TypeError as ex:
                if "argument" in str(ex):
                    raise Unsupported("%s: %s" % (path, ex))
                raise
        raise Unsupported("library call " + path)

    # ------------------------------------------------------------------------------------------ conversion
    def dtype_of(self, d):
        if d is None:
            return None
        if isinstance(d, Builtin):
            r = {"float": "f", "int": "i", "bool": "b"}.get(d.name)
        elif isinstance(d, str):
            r = {"float64": "f", "float": "f", "f8": "f", "d": "f", "double": "f", "int": "i", "int64": "i", "i8": "i",
                 "float32": "f4", "f4": "f4", "f": "f4", "single": "f4", "bool": "b", "float16": "f4", "int32": "i", "half": "f4"}.get(d)
        elif isinstance(d, Lib):
            r = {"numpy.float64": "f", "numpy.double": "f", "numpy.float32": "f4", "numpy.int64": "i", "numpy.int32": "i",
                 "numpy.float16": "f4", "numpy.bool_": "b", "numpy.intp": "i", "numpy.int_": "i", "numpy.float_": "f",
                 "numpy.single": "f4"}.get(d.path)
        elif isinstance(d, tuple) and len(d) == 2 and d[0] == "dtype":
            r = d[1]
        else:
            r = None
        if r is None:
            raise Unsupported("dtype %r" % (d,))
        return r

    def tonum(self, v):
        """Num or Arr"""
        if isinstance(v, (Num, Arr)):
            return v
        if isinstance(v, bool):
            return Num(P(int(v)), "b")
        if isinstance(v, SB):
            return Num(T.b2p(v.b), "b")
        if isinstance(v, (ListV, tuple)):
            return self.fromseq(v)
        if isinstance(v, Range):
            return self.fromseq(v)
        if isinstance(v, Junk):
            raise Unsupported("use of an unspecified value (%s)" % v.why)
        if v is None or isinstance(v, (str, SStr, Obj, Func, Cls, DictV, OpaqueStr)):
            raise PyExc("TypeError", "unsupported operand")
        if isinstance(v, Bad):
            raise Unsupported("arithmetic on unconvertible data")
        raise Unsupported("array from %s" % type(v).__name__)

    def fromseq(self, v):
        it = self.iterspec(v)
        if isinstance(it, list):
            if not it:
                return self.mkarr((0,), lambda i: T.ZERO)
            if any(isinstance(x, (str, SStr)) for x in it):
                raise Unsupported("array of strings")
            xs = [self.tonum(x) for x in it]
            n = len(xs)
            sh = xs[0].shape if isinstance(xs[0], Arr) else ()
            dt = "b"
            for x in xs:
                s2 = x.shape if isinstance(x, Arr) else ()
                if len(s2) != len(sh):
                    raise PyExc("ValueError", "inhomogeneous shape")
                for p, q in zip(sh, s2):
                    if not self.choose(EQ(p, q)):
                        raise PyExc("ValueError", "inhomogeneous shape")
                dt = join(dt, self.dt(x) if isinstance(x, Arr) else x.t)

            def f(i, *r):
                c = i.const()
                if c is not None:
                    x = xs[int(c)]
                    return self.at(x, r) if isinstance(x, Arr) else x.p
                acc = None
                for j in range(n - 1, -1, -1):
                    x = self.at(xs[j], r) if isinstance(xs[j], Arr) else xs[j].p
                    acc = x if acc is None else mk_ite(EQ(i, j), x, acc)
                return acc
            return self.mkarr((n,) + tuple(sh), f, dt)
        k, elem = it
        i = T.fresh("q")
        with T.assuming(*T.inrange(P(i), k)):
            x = self.tonum(elem(P(i)))
        if isinstance(x, Num):
            return self.mkarr((k,), lambda j: T.subst(x.p, {i.name: j}), x.t)
        if any(i.name in s.fv for s in x.shape):
            raise PyExc("ValueError", "inhomogeneous shape")
        return self.mkarr((k,) + x.shape, lambda j, *r: T.subst(self.at(x, r), {i.name: j}), self.dt(x))

    def classset(self, v):
        a = self.tonum(v)
        if len(a.shape) != 1:
            raise Unsupported("set of a non-vector")
        self.assumed.add("set/unique of an array (enumeration of its distinct values)")
        i = T.fresh("q")
        body = self.at(a, [P(i)])
        cnt = T.mk_big("ncls", [(i, a.shape[0])], (body,), (), True)
        dt = self.dt(a)
        return ClassSet(cnt, lambda k: Num(T.mk_big("cls", [(i, a.shape[0])], (body,), (P(k),), dt != "f"), dt, True), dt)

    # ------------------------------------------------------------------------------------------ elementwise
    def bshape(self, shapes):
        n = max(len(s) for s in shapes)
        out = []
        for j in range(n):
            d = T.ONE
            for s in shapes:
                k = j - (n - len(s))
                if k < 0:
                    continue
                e = s[k]
                if e is d:
                    continue
                if d.const() == 1:
                    d = e
                elif e.const() == 1:
                    pass
                elif self.choose(EQ(d, e)):
                    pass
                elif self.choose(EQ(e, 1)):
                    pass
                elif self.choose(EQ(d, 1)):
                    d = e
                else:
                    raise PyExc("ValueError", "operands could not be broadcast together")
            out.append(d)
        return tuple(out)

    def bat(self, a, idx):
        """element of a broadcast to the index tuple"""
        if isinstance(a, Num):
            return a.p
        k = len(idx) - len(a.shape)
        ix = []
        for s, i in zip(a.shape, idx[k:]):
            ix.append(T.ZERO if s.const() == 1 or T.decide(EQ(s, 1)) is True else i)
        return self.at(a, ix)

    def ew(self, f, dt, *vals):
        vals = [self.tonum(v) for v in vals]
        t = dt
        if t is None:
            t = "b"
            for v in vals:
                t = join(t, self.vdt(v))
        if all(isinstance(v, Num) for v in vals):
            r = P(f(*[v.p for v in vals]))
            if t == "b":
                return SB(bool_of(r)) if not r.isconst() else bool(r.const())
            return Num(r, t, any(v.np for v in vals))
        shape = self.bshape([v.shape if isinstance(v, Arr) else () for v in vals])
        if not shape:
            r = P(f(*[self.bat(v, ()) for v in vals]))
            return SB(bool_of(r)) if t == "b" else Num(r, t, True)
        return self.mkarr(shape, lambda *ix: f(*[self.bat(v, ix) for v in vals]), t)

    def vdt(self, v):
        return self.dt(v) if isinstance(v, Arr) else v.t

    def ew1(self, f, v, dt=None):
        v = self.tonum(v)
        if dt is None:
            dt = self.vdt(v)
            if dt == "b":
                dt = "i"
        return self.ew(f, dt, v)

    def binop(self, op, a, b):
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        if isinstance(a, (str, OpaqueStr)) and op == "Mod":
            return OpaqueStr()
        if isinstance(a, (str, OpaqueStr, SStr)) and isinstance(b, (str, OpaqueStr, SStr)) and op == "Add":
            return OpaqueStr()
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, ListV) and isinstance(b, ListV) and op == "Add":
            x, y = self.heap[a.id], self.heap[b.id]
            if x.items is None or y.items is None:
                raise Unsupported("concatenation of symbolic lists")
            return ListV(self.alloc(ListRec(x.items + y.items)))
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, (ListV, tuple)) and isinstance(y, Num) and y.t == "i" and not y.np:
                    items = list(x) if isinstance(x, tuple) else self.heap[x.id].items
                    if items is None:
                        raise Unsupported("list repetition")
                    c = y.const()
                    if c is None:
                        if len(items) == 1:
                            v0 = items[0]
                            return ListV(self.alloc(ListRec(None, y.p, lambda k: v0)))
                        raise Unsupported("symbolic list repetition")
                    r = items * int(c)
                    return tuple(r) if isinstance(x, tuple) else ListV(self.alloc(ListRec(r)))
        if op == "MatMult":
            a, b = self.tonum(a), self.tonum(b)
            if isinstance(a, Num) or isinstance(b, Num):
                raise PyExc("ValueError", "matmul of a scalar")
            return self.np_dot(a, b)
        if isinstance(a, (ListV, tuple, Bad)) and not isinstance(b, Arr) and not (isinstance(b, Num) and b.np):
            if not isinstance(b, Arr):
                raise PyExc("TypeError", "unsupported operand type(s)")
        if isinstance(b, (ListV, tuple, Bad)) and not isinstance(a, Arr) and not (isinstance(a, Num) and a.np):
            raise PyExc("TypeError", "unsupported operand type(s)")
        a, b = self.tonum(a), self.tonum(b)
        ta, tb = self.vdt(a), self.vdt(b)
        t = join(ta, tb)
        if t == "f" and "f4" in (ta, tb):
            # python scalars do not promote float32 arrays
            if (ta == "f4" and isinstance(a, Arr) and isinstance(b, Num) and not b.np) or \
                    (tb == "f4" and isinstance(b, Arr) and isinstance(a, Num) and not a.np):
                t = "f4"
        rnd = (lambda p: T.app("rnd32", p)) if t == "f4" else (lambda p: p)
        if op == "Add":
            return self.ew(lambda x, y: rnd(x + y), t if t != "b" else "i", a, b)
        if op == "Sub":
            return self.ew(lambda x, y: rnd(x - y), t if t != "b" else "i", a, b)
        if op == "Mult":
            return self.ew(lambda x, y: rnd(x * y), t, a, b)
        if op == "Div":
            return self.ew(lambda x, y: rnd(self.divide(x, y, a, b)), "f" if t in ("b", "i") else t, a, b)
        if op == "Pow":
            return self.ew(lambda x, y: rnd(self.power(x, y, t)), t if t != "b" else "i", a, b)
        if op == "FloorDiv":
            return self.ew(lambda x, y: T.mk_app("fdiv", x, y) if t in ("i", "b") else T.mk_app("floor", self.divide(x, y, a, b)), t, a, b)
        if op == "Mod":
            return self.ew(lambda x, y: T.mk_app("mod", x, y), t, a, b)
        if op in ("BitAnd", "BitOr", "BitXor") and t == "b":
            if op == "BitAnd":
                return self.ew(lambda x, y: T.b2p(And(bool_of(x), bool_of(y))), "b", a, b)
            if op == "BitOr":
                return self.ew(lambda x, y: T.b2p(Or(bool_of(x), bool_of(y))), "b", a, b)
        raise Unsupported("operator " + op)

    def divide(self, x, y, a=None, b=None):
        if y is T.ZERO:
            if isinstance(a, Num) and isinstance(b, Num) and not a.np and not b.np:
                raise PyExc("ZeroDivisionError")
            return T.app("div0", x)
        if not y.isconst() and len(self.defs) < 400:
            self.defs.append((y, tuple(T.CTX)))
        return x / y

    def power(self, x, y, t):
        c = y.const()
        if c is not None and c.denominator == 1 and c < 0:
            if t == "i":
                # int ** negative int: python gives a float, numpy integer arrays raise
                pass
            return T.inv(x) ** int(-c)
        return T.mk_app("pow", x, y)

    # ------------------------------------------------------------------------------------------ creation
    def np_array(self, v, dtype=None, copy=True, **kw):
        d = self.dtype_of(dtype)
        if kw.pop("ndmin", None) is not None or kw:
            kw.pop("order", None)
            if kw:
                raise Unsupported("np.array arguments")
        if isinstance(v, Bad):
            if d is None:
                return Junk("np.array of unconvertible data")
            if self.choose(T.bvar("bad-conversion-raises-TypeError")):
                raise PyExc("TypeError", "could not convert")
            raise PyExc("ValueError", "could not convert")
        if isinstance(v, (str, SStr)) or v is None or isinstance(v, (Obj, DictV)):
            if d in ("f", "i", "f4"):
                if isinstance(v, (str, SStr)):
                    raise PyExc("ValueError", "could not convert string to float")
                if v is None:
                    return self.mkarr((), lambda: T.app("nan"), "f")
                raise PyExc("TypeError", "could not convert")
            return Junk("np.array of a non-numeric object")
        if isinstance(v, ClassSet):
            return self.mkarr((v.count,), lambda i: v.elem(i).p, v.t)
        a = self.tonum(v)
        if isinstance(a, Num):
            return self.mkarr((), lambda: self.cast(a.p, a.t, d or a.t), d or a.t)
        s = self.dt(a)
        return self.mkarr(a.shape, lambda *ix: self.cast(self.at(a, ix), s, d or s), d or s)

    def np_asarray(self, v, dtype=None, **kw):
        if isinstance(v, Arr) and (dtype is None or self.dtype_of(dtype) == self.dt(v)):
            return v
        return self.np_array(v, dtype)

    np_asanyarray = np_asarray
    np_ascontiguousarray = np_asarray

    def np_asfarray(self, v):
        return self.np_asarray(v, "float64")

    def np_copy(self, v, **kw):
        return self.np_array(v)

    def shape_arg(self, s):
        if isinstance(s, (tuple, ListV)):
            return tuple(self.toint(x) for x in self.iterspec(s))
        return (self.toint(s),)

    def filled(self, shape, val, dt):
        shape = self.shape_arg(shape)
        for s in shape:
            if s.const() is None and T.decide(LE(0, s)) is None:
                if not self.choose(LE(0, s)):
                    raise PyExc("ValueError", "negative dimensions are not allowed")
            elif T.decide(LE(0, s)) is False:
                raise PyExc("ValueError", "negative dimensions are not allowed")
        return self.mkarr(shape, lambda *ix: val, dt)

    def np_zeros(self, shape, dtype=None, order=None):
        return self.filled(shape, T.ZERO, self.dtype_of(dtype) or "f")

    # numpy's global random stream: the variate at position p is an uninterpreted value gauss#(p) (standard normal) or
    # unif#(p) (uniform on [0, 1)); every draw advances the position
    def draw(self, kind, loc, scale, size):
        if isinstance(loc, Arr) or isinstance(scale, Arr):
            raise Unsupported("random numbers with array parameters")
        lo, sc = P(self.tonum(loc).p), P(self.tonum(scale).p)
        o = Obj(self.rng)
        pos = self.heap[self.rng].attrs["pos"].p
        if size is None:
            self.setattr(o, "pos", Num(pos + 1, "i"))
            return Num(lo + sc * T.mk_app(kind, pos), "f")
        shape = self.shape_arg(size)
        r = self.filled(size, T.ZERO, "f")
        tot = P(1)
        for s in shape:
            tot = tot * P(s)
        self.setattr(o, "pos", Num(pos + tot, "i"))

        def f(*ix):
            k = P(0)
            for j, i in enumerate(ix):
                k = k * P(shape[j]) + P(i)
            return lo + sc * T.mk_app(kind, pos + k)
        return self.mkarr(r.shape, f)

    def np_random_normal(self, loc=Num(T.ZERO, "f"), scale=Num(T.ONE, "f"), size=None):
        return self.draw("gauss#", loc, scale, size)

    def np_random_standard_normal(self, size=None):
        return self.draw("gauss#", Num(T.ZERO, "f"), Num(T.ONE, "f"), size)

    def np_random_randn(self, *shape):
        return self.draw("gauss#", Num(T.ZERO, "f"), Num(T.ONE, "f"), tuple(shape) if shape else None)

    def np_random_uniform(self, low=Num(T.ZERO, "f"), high=Num(T.ONE, "f"), size=None):
        low, high = self.tonum(low), self.tonum(high)
        return self.draw("unif#", low, self.binop("Sub", high, low), size)

    def np_random_random(self, size=None):
        return self.draw("unif#", Num(T.ZERO, "f"), Num(T.ONE, "f"), size)

    def np_random_rand(self, *shape):
        return self.draw("unif#", Num(T.ZERO, "f"), Num(T.ONE, "f"), tuple(shape) if shape else None)

    def np_random_random_sample(self, size=None):
        return self.np_random_random(size)

    def np_ones(self, shape, dtype=None, order=None):
        return self.filled(shape, T.ONE, self.dtype_of(dtype) or "f")

    def np_empty(self, shape, dtype=None, order=None):
        nm = T.freshname("empty")
        shape = self.shape_arg(shape)
        return self.mkarr(shape, lambda *ix: T.app(nm, *ix), self.dtype_of(dtype) or "f")

    def np_full(self, shape, fill_value, dtype=None):
        v = self.tonum(fill_value)
        if isinstance(v, Arr):
            r = self.np_empty(shape, dtype)
            self.assign_arr(r, v)
            return r
        d = self.dtype_of(dtype) or v.t
        return self.filled(shape, self.cast(v.p, v.t, d), d)

    def np_zeros_like(self, a, dtype=None):
        a = self.tonum(a)
        return self.filled(tuple(I(s) for s in a.shape), T.ZERO, self.dtype_of(dtype) or self.dt(a))

    def np_ones_like(self, a, dtype=None):
        a = self.tonum(a)
        return self.filled(tuple(I(s) for s in a.shape), T.ONE, self.dtype_of(dtype) or self.dt(a))

    def np_empty_like(self, a, dtype=None):
        a = self.tonum(a)
        return self.np_empty(tuple(I(s) for s in a.shape), ("dtype", self.dtype_of(dtype) or self.dt(a)))

    def np_full_like(self, a, fill_value, dtype=None):
        a = self.tonum(a)
        return self.np_full(tuple(I(s) for s in a.shape), fill_value, ("dtype", self.dtype_of(dtype) or self.dt(a)))

    def np_eye(self, n, M=None, k=None, dtype=None):
        if k is not None and self.toint(k).const() != 0:
            raise Unsupported("eye offset")
        n = self.toint(n)
        m = self.toint(M) if M is not None else n
        return self.mkarr((n, m), lambda i, j: mk_ite(EQ(i, j), T.ONE, T.ZERO), self.dtype_of(dtype) or "f")

    def np_identity(self, n, dtype=None):
        return self.np_eye(n, dtype=dtype)

    def np_diag(self, v, k=None):
        v = self.tonum(v)
        if k is not None:
            raise Unsupported("diag offset")
        if len(v.shape) == 1:
            return self.mkarr((v.shape[0], v.shape[0]), lambda i, j: mk_ite(EQ(i, j), self.at(v, [i]), T.ZERO), self.dt(v))
        return self.mkarr((v.shape[0],), lambda i: self.at(v, [i, i]), self.dt(v))

    def np_arange(self, *a, dtype=None):
        r = self.builtin("range", [self.tonum(x) for x in a], {}) if all(self.tonum(x).t in "ib" for x in a) else None
        if r is None:
            raise Unsupported("arange of floats")
        n = self.range_len(r)
        d = self.dtype_of(dtype) or "i"
        return self.mkarr((n,), lambda i: r.start + i * P(r.step), d)

    def np_random_seed(self, s):
        c = self.tonum(s).p.const()
        if c is None or c != int(c) or c < 0:
            raise Unsupported("seed")
        self.setattr(Obj(self.rng), "pos", Num(P(seed_position(c)), "i"))

    def np_random_shuffle(self, a):
        c = self.heap[self.rng].attrs["pos"].p
        self.setattr(Obj(self.rng), "pos", Num(c + 1, "i"))
        if not isinstance(a, Arr):
            raise Unsupported("shuffle of a list")
        n = a.shape[0]
        old = dict(self.heap)
        perm = lambda i: T.app("perm", c, n, i, isint=True)
        self.store(a, lambda i, *r: self.at(a, (perm(i),) + r, old), self.dt(a))
        return None

    def np_random_permutation(self, n):
        if isinstance(n, Arr):
            r = self.np_copy(n)
        else:
            r = self.np_arange(n)
        self.np_random_shuffle(r)
        return r

    # ------------------------------------------------------------------------------------------ indexing
    def elem0(self, a, k):
        v = self.view_index(a, 0, k)
        if not v.shape:
            return self.scalar(v)
        return v

    def scalar(self, v):
        p = self.at(v, [])
        t = self.dt(v)
        if t == "b":
            return SB(bool_of(p))
        return Num(p, t, True)

    def norm_index(self, i, dim):
        i = P(i)
        c = i.const()
        if c is not None and c < 0:
            if self.choose(LE(-i, dim)):
                return dim + i
            raise PyExc("IndexError", "index out of bounds")
        neg = T.decide(LT(i, T.ZERO))
        if neg is None:
            # the wrapped position is a value, not a case split
            if self.choose(LT(i, dim)) and self.choose(LE(-dim, i)):
                return T.mk_ite(LT(i, T.ZERO), dim + i, i)
            raise PyExc("IndexError", "index out of bounds")
        if not neg:
            if self.choose(LT(i, dim)):
                return i
            raise PyExc("IndexError", "index out of bounds")
        if self.choose(LE(-dim, i)):
            return dim + i
        raise PyExc("IndexError", "index out of bounds")

    def slice_bounds(self, s, dim):
        """(start, length, step)"""
        st = 1
        if s.c is not None:
            c = self.toint(s.c).const()
            if c is None or c == 0:
                raise Unsupported("slice step")
            st = int(c)

        def norm(v, lo, hi):
            v = self.toint(v)
            c = v.const()
            if c is not None and c < 0:
                v = dim + v
            elif c is None and not self.choose(LE(0, v)):
                v = dim + v
            if not self.choose(LE(lo, v)):
                return lo
            if not self.choose(LE(v, hi)):
                return hi
            return v
        if st > 0:
            a = norm(s.a, T.ZERO, dim) if s.a is not None else T.ZERO
            b = norm(s.b, T.ZERO, dim) if s.b is not None else dim
            ln = b - a
        else:
            a = norm(s.a, P(-1), dim - 1) if s.a is not None else dim - 1
            b = norm(s.b, P(-1), dim - 1) if s.b is not None else P(-1)
            ln = a - b
        if abs(st) != 1:
            ln = T.mk_app("fdiv", ln + (abs(st) - 1), P(abs(st)))
        if not self.choose(LE(0, ln)):
            ln = T.ZERO
        return a, ln, st

    def index_parts(self, a, ix):
        ix = ix if isinstance(ix, tuple) else (ix,)
        n = sum(1 for x in ix if x is not None and x is not Ellipsis)
        out = []
        for x in ix:
            if x is Ellipsis:
                out += [Slice(None, None, None)] * (len(a.shape) - n)
            else:
                out.append(x)
        k = sum(1 for x in out if x is not None)
        if k > len(a.shape):
            raise PyExc("IndexError", "too many indices for array")
        out += [Slice(None, None, None)] * (len(a.shape) - k)
        return out

    def arr_get(self, a, ix):
        parts = self.index_parts(a, ix)
        if any(isinstance(x, (Arr, ListV)) for x in parts):
            return self.adv_get(a, parts)
        v = self.view_of(a, parts)
        if not v.shape and not any(x is Ellipsis for x in (ix if isinstance(ix, tuple) else (ix,))):
            return self.scalar(v)
        return v

    def view_of(self, a, parts):
        vd = 0
        v = a
        for x in parts:
            if x is None:
                v = self.view_newaxis(v, vd)
                vd += 1
            elif isinstance(x, Slice):
                if x.a is None and x.b is None and x.c is None:
                    vd += 1
                    continue
                s, ln, st = self.slice_bounds(x, v.shape[vd])
                v = self.view_slice(v, vd, s, ln, st)
                vd += 1
            elif isinstance(x, (str, SStr)):
                raise PyExc("IndexError", "only integers, slices...")
            elif isinstance(x, (bool, SB)):
                raise Unsupported("boolean scalar index")
            else:
                if isinstance(x, Num) and x.t in ("f", "f4"):
                    raise PyExc("IndexError", "only integers, slices...")
                i = self.norm_index(self.toint(x), v.shape[vd])
                v = self.view_index(v, vd, i)
        return v

    def adv_get(self, a, parts):
        adv = [j for j, x in enumerate(parts) if isinstance(x, (Arr, ListV))]
        if len(adv) != 1 or any(x is None for x in parts):
            raise Unsupported("advanced indexing")
        j = adv[0]
        ind = self.tonum(parts[j])
        rest = [Slice(None, None, None) if k == j else x for k, x in enumerate(parts)]
        # integer parts before j shift the dimension
        jj = j - sum(1 for x in parts[:j] if not isinstance(x, Slice))
        if any(not isinstance(x, Slice) for k, x in enumerate(parts) if k != j):
            if any(not isinstance(x, Slice) for x in parts[:j]):
                raise Unsupported("advanced indexing with integers")
        v = self.view_of(a, rest)
        if len(ind.shape) != 1:
            if self.dt(ind) == "b" and len(ind.shape) == len(a.shape):
                raise Unsupported("boolean mask of a matrix")
            raise Unsupported("advanced indexing by a matrix")
        dim = v.shape[jj]
        if self.dt(ind) == "b":
            if not self.choose(EQ(ind.shape[0], dim)):
                raise PyExc("IndexError", "boolean index did not match")
            q = T.fresh("q")
            with T.assuming(*T.inrange(P(q), dim)):
                body = self.at(ind, [P(q)])
            cnt = T.mk_sum(q, dim, body)
            sel = lambda r: T.mk_big("nth", [(q, dim)], (body,), (r,), True)
        else:
            if self.dt(ind) != "i":
                raise PyExc("IndexError", "arrays used as indices must be of integer type")
            cnt = ind.shape[0]
            q = T.fresh("q")
            with T.assuming(*T.inrange(P(q), cnt)):
                p = self.at(ind, [P(q)])
                if T.decide(And(LE(0, p), LT(p, dim))) is not True:
                    if T.decide(And(LE(-dim, p), LT(p, 0))) is True:
                        p = p + dim
                    else:
                        raise Unsupported("index array not known to be in range")
            sel = lambda r: T.subst(p, {q.name: r})
        shape = v.shape[:jj] + (cnt,) + v.shape[jj + 1:]
        return self.mkarr(shape, lambda *ii: self.at(v, ii[:jj] + (sel(ii[jj]),) + ii[jj + 1:]), self.dt(a))

    def arr_set(self, a, ix, v):
        parts = self.index_parts(a, ix)
        if any(isinstance(x, (Arr, ListV)) for x in parts):
            ind = parts[0]
            if isinstance(ind, Arr) and self.dt(ind) == "b" and all(isinstance(x, Slice) for x in parts[1:]):
                val = self.tonum(v)
                if len(ind.shape) == len(a.shape) or len(ind.shape) == 1:
                    if isinstance(val, Arr) and (len(ind.shape) != 1 or val.shape and
                                                 len(val.shape) >= len(a.shape)):
                        raise Unsupported("masked assignment of an array")
                    for p, q in zip(ind.shape, a.shape):
                        if not self.choose(EQ(p, q)):
                            raise PyExc("IndexError", "boolean index did not match")
                    old = dict(self.heap)
                    nd = len(ind.shape)
                    d = self.vdt(val)
                    self.store(a, lambda *ii: mk_ite(bool_of(self.at(ind, ii[:nd], old)),
                                                     self.cast(self.bat(val, ii), d, self.dt(a)),
                                                     self.at(a, ii, old)), self.dt(a))
                    return
            raise Unsupported("advanced index assignment")
        self.assign_arr(self.view_of(a, parts), v)

    def assign_arr(self, view, v):
        val = self.tonum(v)
        d = self.vdt(val)
        if isinstance(val, Arr):
            # extra leading unit dimensions are allowed
            vs = val
            while len(vs.shape) > len(view.shape):
                if not self.choose(EQ(vs.shape[0], 1)):
                    raise PyExc("ValueError", "could not broadcast input array")
                vs = self.view_index(vs, 0, T.ZERO)
            k = len(view.shape) - len(vs.shape)
            for p, q in zip(vs.shape, view.shape[k:]):
                if p is q or p.const() == 1:
                    continue
                if not self.choose(EQ(p, q)):
                    if not self.choose(EQ(p, 1)):
                        if not view.shape:
                            raise PyExc("ValueError", "setting an array element with a sequence")
                        raise PyExc("ValueError", "could not broadcast input array")
            old = dict(self.heap)

            def f(*ix):
                ii = []
                for s, i in zip(vs.shape, ix[k:]):
                    ii.append(T.ZERO if s.const() == 1 or T.decide(EQ(s, 1)) is True else i)
                return self.at(vs, ii, old)
            self.store(view, f, d)
        else:
            self.store(view, lambda *ix: val.p, d)

    # ------------------------------------------------------------------------------------------ attributes
    def arrattr(self, a, name):
        if name == "T":
            return self.view_transpose(a, list(range(len(a.shape)))[::-1])
        if name == "shape":
            return tuple(I(s) for s in a.shape)
        if name == "ndim":
            return I(len(a.shape))
        if name == "size":
            r = T.ONE
            for s in a.shape:
                r = r * s
            return I(r)
        if name == "dtype":
            return ("dtype", self.dt(a))
        if name == "real":
            return a
        if name in ("sum", "mean", "std", "var", "max", "min", "prod", "argsort", "argmax", "argmin", "cumsum", "dot", "copy",
                    "reshape", "ravel", "flatten", "transpose", "clip", "round", "any", "all", "diagonal", "trace", "squeeze",
                    "repeat", "astype", "tolist", "item", "fill", "sort", "conj", "take", "nonzero", "swapaxes", "view"):
            f = getattr(self, "am_" + name, None)
            if f is None:
                f2 = getattr(self, "np_" + name, None)
                if f2 is None:
                    raise Unsupported("ndarray." + name)
                self.assumed.add("numpy." + name)
                return Host(lambda *x, **k: f2(a, *x, **k), name)
            return Host(lambda *x, **k: f(a, *x, **k), name)
        raise Unsupported("ndarray.%s" % name) if name in NDATTRS else PyExc("AttributeError", name)

    def am_astype(self, a, d, copy=True):
        return self.np_array(a, d)

    def am_copy(self, a, order=None):
        return self.np_copy(a)

    def am_conj(self, a):
        return a

    def am_tolist(self, a):
        if len(a.shape) == 1:
            c = a.shape[0].const()
            snap = self.np_copy(a)
            if c is not None:
                return ListV(self.alloc(ListRec([self.elem0(snap, P(i)) for i in range(int(c))])))
            return ListV(self.alloc(ListRec(None, a.shape[0], lambda k: self.elem0(snap, k))))
        raise Unsupported("tolist of a matrix")

    def am_item(self, a, *ix):
        if ix:
            return self.arr_get(a, tuple(ix))
        if all(s.const() == 1 for s in a.shape):
            v = self.at(a, [T.ZERO] * len(a.shape))
            return Num(v, self.dt(a))
        raise Unsupported("item")

    def am_fill(self, a, v):
        self.assign_arr(a, v)

    def am_sort(self, a, axis=None):
        self.assign_arr(a, self.np_sort(a))

    def am_reshape(self, a, *s, **kw):
        if len(s) == 1 and isinstance(s[0], (tuple, ListV)):
            s = self.iterspec(s[0])
        return self.reshape(a, [self.toint(x) for x in s])

    def np_reshape(self, a, s, **kw):
        a = self.tonum(a)
        return self.am_reshape(a, s)

    def reshape(self, a, s):
        s = [P(x) for x in s]
        neg = [j for j, x in enumerate(s) if x.const() == -1]
        src = [j for j, x in enumerate(a.shape) if x.const() != 1]
        tot = T.ONE
        for x in a.shape:
            tot = tot * x
        if neg:
            rest = T.ONE
            for j, x in enumerate(s):
                if j not in neg:
                    rest = rest * x
            if len(neg) > 1:
                raise PyExc("ValueError", "can only specify one unknown dimension")
            if rest.const() == 1:
                s[neg[0]] = tot
            else:
                # rest must be one of the source dimensions
                cand = [j for j, x in enumerate(a.shape) if x is rest]
                if not cand:
                    raise Unsupported("reshape")
                o = T.ONE
                for j, x in enumerate(a.shape):
                    if j != cand[0]:
                        o = o * x
                s[neg[0]] = o
        dst = [j for j, x in enumerate(s) if x.const() != 1]
        n2 = T.ONE
        for x in s:
            n2 = n2 * x
        if n2 is not tot and not self.choose(EQ(n2, tot)):
            raise PyExc("ValueError", "cannot reshape array")
        if len(src) == len(dst) and all(a.shape[i] is s[j] or T.decide(EQ(a.shape[i], s[j])) is True for i, j in zip(src, dst)):
            # only unit dimensions added / removed: a view
            v = a
            for j in range(len(a.shape) - 1, -1, -1):
                if j not in src:
                    v = self.view_index(v, j, T.ZERO)
            for j, x in enumerate(s):
                if j not in dst:
                    v = self.view_newaxis(v, j)
            return Arr(v.buf, s, v.vmap)
        if len(src) == 2 and len(dst) == 1:
            i0, i1 = src
            m = a.shape[i1]
            idx = lambda k: [T.ZERO] * len(a.shape)

            def f(*ix):
                k = ix[dst[0]]
                ii = [T.ZERO] * len(a.shape)
                ii[i0] = T.mk_app("fdiv", k, m)
                ii[i1] = T.mk_app("mod", k, m)
                return self.at(a, ii)
            return self.mkarr(s, f, self.dt(a))
        raise Unsupported("reshape")

    def am_ravel(self, a, order=None):
        if len(a.shape) == 1:
            return a
        return self.reshape(a, [P(-1)])

    def np_ravel(self, a):
        return self.am_ravel(self.tonum(a))

    def am_flatten(self, a, order=None):
        return self.np_copy(self.am_ravel(a))

    def am_squeeze(self, a, axis=None):
        v = a
        for j in range(len(a.shape) - 1, -1, -1):
            if a.shape[j].const() == 1:
                v = self.view_index(v, j, T.ZERO)
            elif T.decide(EQ(a.shape[j], 1)) is not False:
                if self.choose(EQ(a.shape[j], 1)):
                    v = self.view_index(v, j, T.ZERO)
        return v

    def np_squeeze(self, a, axis=None):
        return self.am_squeeze(self.tonum(a))

    def np_transpose(self, a, *axes):
        a = self.tonum(a)
        if axes:
            ax = axes
            if len(ax) == 1 and isinstance(ax[0], (tuple, ListV)):
                ax = self.iterspec(ax[0])
            if ax[0] is None:
                return self.arrattr(a, "T")
            return self.view_transpose(a, [int(self.toint(x).const()) for x in ax])
        return self.arrattr(a, "T")

    am_transpose = np_transpose

    def np_swapaxes(self, a, i, j):
        p = list(range(len(a.shape)))
        i, j = int(self.toint(i).const()), int(self.toint(j).const())
        p[i], p[j] = p[j], p[i]
        return self.view_transpose(a, p)

    def np_shape(self, a):
        a = self.tonum(a)
        return tuple(I(s) for s in a.shape) if isinstance(a, Arr) else ()

    def np_ndim(self, a):
        a = self.tonum(a)
        return I(len(a.shape)) if isinstance(a, Arr) else I(0)

    def np_size(self, a, axis=None):
        a = self.tonum(a)
        if axis is not None:
            return I(a.shape[int(self.toint(axis).const())])
        r = T.ONE
        for s in a.shape:
            r = r * s
        return I(r)

    def np_isscalar(self, a):
        return isinstance(a, (Num, str, bool, SStr, SB))

    def np_atleast_1d(self, a):
        a = self.tonum(a)
        if isinstance(a, Num):
            return self.mkarr((1,), lambda i: a.p, a.t)
        return a if a.shape else self.view_newaxis(a, 0)

    def np_atleast_2d(self, a):
        a = self.np_atleast_1d(a)
        return self.view_newaxis(a, 0) if len(a.shape) == 1 else a

    def np_expand_dims(self, a, axis):
        c = int(self.toint(axis).const())
        if c < 0:
            c += len(a.shape) + 1
        return self.view_newaxis(a, c)

    def np_float64(self, v):
        return self.builtin("float", [v], {})

    # ------------------------------------------------------------------------------------------ linear algebra
    def np_dot(self, a, b):
        a, b = self.tonum(a), self.tonum(b)
        if isinstance(a, Num) or isinstance(b, Num):
            return self.binop("Mult", a, b)
        if not a.shape or not b.shape:
            return self.binop("Mult", a, b)
        t = join(self.dt(a), self.dt(b))
        rnd = (lambda p: T.app("rnd32", p)) if t == "f4" else (lambda p: p)
        ka = len(a.shape) - 1
        kb = 0 if len(b.shape) == 1 else len(b.shape) - 2
        n, m = a.shape[ka], b.shape[kb]
        if n is not m and not self.choose(EQ(n, m)):
            raise PyExc("ValueError", "shapes not aligned")
        la, lb = a.shape[:ka], b.shape[:kb] + b.shape[kb + 1:]
        if len(la) > 1 or len(lb) > 1:
            raise Unsupported("dot of higher-dimensional arrays")

        def f(*ix):
            v = T.fresh("d")
            i, j = ix[:len(la)], ix[len(la):]
            with T.assuming(*T.inrange(P(v), n)):
                body = self.at(a, i + (P(v),)) * self.at(b, (P(v),) + j if kb == 0 else j)
            return rnd(T.mk_sum(v, n, body))
        if not la and not lb:
            return Num(f(), t, True)
        return self.mkarr(la + lb, f, t)

    np_MatMult = np_dot

    def np_vdot(self, a, b):
        return self.np_dot(self.am_ravel(self.tonum(a)), self.am_ravel(self.tonum(b)))

    def np_inner(self, a, b):
        a, b = self.tonum(a), self.tonum(b)
        if isinstance(b, Arr) and len(b.shape) == 2:
            b = self.arrattr(b, "T")
        return self.np_dot(a, b)

    def np_outer(self, a, b):
        a, b = self.np_atleast_1d(a), self.np_atleast_1d(b)
        a, b = self.am_ravel(a), self.am_ravel(b)
        return self.mkarr((a.shape[0], b.shape[0]), lambda i, j: self.at(a, [i]) * self.at(b, [j]), join(self.dt(a), self.dt(b)))

    def np_einsum(self, spec, *ops):
        if not isinstance(spec, str) or "..." in spec:
            raise Unsupported("einsum")
        spec = spec.replace(" ", "")
        if "->" in spec:
            ins, out = spec.split("->")
        else:
            ins = spec
            ls = ins.replace(",", "")
            out = "".join(sorted(c for c in set(ls) if ls.count(c) == 1))
        ins = ins.split(",")
        ops = [self.tonum(o) for o in ops]
        if len(ins) != len(ops):
            raise PyExc("ValueError", "einsum")
        dims = {}
        t = "b"
        for s, o in zip(ins, ops):
            if not isinstance(o, Arr) or len(s) != len(o.shape):
                raise PyExc("ValueError", "einsum")
            t = join(t, self.dt(o))
            for c, d in zip(s, o.shape):
                if c in dims and dims[c] is not d and not self.choose(EQ(dims[c], d)):
                    raise PyExc("ValueError", "einsum")
                dims.setdefault(c, d)
        red = [c for c in dims if c not in out]

        def f(*ix):
            env = dict(zip(out, ix))
            vs = {c: T.fresh("d") for c in red}
            env.update({c: P(v) for c, v in vs.items()})
            facts = []
            for c in red:
                facts += T.inrange(P(vs[c]), dims[c])
            with T.assuming(*facts):
                body = T.ONE
                for s, o in zip(ins, ops):
                    body = body * self.at(o, [env[c] for c in s])
            for c in red:
                body = T.mk_sum(vs[c], dims[c], body)
            return body
        if not out:
            return Num(f(), t, True)
        return self.mkarr([dims[c] for c in out], f, t)

    def square(self, a):
        if len(a.shape) != 2:
            raise PyExc("LinAlgError", "not a matrix")
        if a.shape[0] is not a.shape[1] and not self.choose(EQ(a.shape[0], a.shape[1])):
            raise PyExc("LinAlgError", "not square")

    def minv(self, a):
        u, v = T.fresh("d"), T.fresh("d")
        n = a.shape[0]
        with T.assuming(*(T.inrange(P(u), n) + T.inrange(P(v), n))):
            body = self.at(a, [P(u), P(v)])
        return lambda i, j: T.mk_big("minv", [(u, n), (v, n)], (body,), (i, j))

    def np_linalg_inv(self, a):
        a = self.tonum(a)
        self.square(a)
        f = self.minv(a)
        return self.mkarr(a.shape, f)

    def np_linalg_solve(self, a, b):
        a, b = self.tonum(a), self.tonum(b)
        self.square(a)
        n = a.shape[0]
        if b.shape[0] is not n and not self.choose(EQ(b.shape[0], n)):
            raise PyExc("ValueError", "solve: mismatch")
        f = self.minv(a)

        def g(i, *j):
            v = T.fresh("d")
            with T.assuming(*T.inrange(P(v), n)):
                body = f(i, P(v)) * self.at(b, (P(v),) + j)
            return T.mk_sum(v, n, body)
        return self.mkarr(b.shape, g)

    def np_linalg_eig(self, a):
        a = self.tonum(a)
        self.square(a)
        n = a.shape[0]
        u, v = T.fresh("d"), T.fresh("d")
        with T.assuming(*(T.inrange(P(u), n) + T.inrange(P(v), n))):
            body = self.at(a, [P(u), P(v)])
        val = self.mkarr((n,), lambda i: T.mk_big("eigval", [(u, n), (v, n)], (body,), (i,)))
        vec = self.mkarr((n, n), lambda i, j: T.mk_big("eigvec", [(u, n), (v, n)], (body,), (i, j)))
        return (val, vec)

    def np_linalg_eigvals(self, a):
        return self.np_linalg_eig(a)[0]

    def np_linalg_eigh(self, a, UPLO=None):
        """symmetric matrices only: ascending eigenvalues; eigenvectors up to sign (contracts that use them do not look
        at the sign)"""
        a = self.tonum(a)
        self.square(a)
        n = a.shape[0]
        u, v = T.fresh("d"), T.fresh("d")
        with T.assuming(*(T.inrange(P(u), n) + T.inrange(P(v), n))):
            if L.prove_zero(self.at(a, [P(u), P(v)]) - self.at(a, [P(v), P(u)])) is None:
                raise Unsupported("eigh of a matrix not known to be symmetric")
        val, vec = self.np_linalg_eig(a)
        order = self.np_argsort(val)
        return (self.getitem(val, order), self.getitem(vec, (Slice(None, None, None), order)))

    def np_linalg_eigvalsh(self, a, UPLO=None):
        return self.np_linalg_eigh(a)[0]

    def np_linalg_norm(self, a, ord=None, axis=None, keepdims=False):
        if ord is not None and self.tonum(ord).const() != 2:
            raise Unsupported("norm order")
        a = self.tonum(a)
        if ord is not None and len(a.shape) == 2 and axis is None:
            raise Unsupported("spectral norm")
        sq = self.ew1(lambda p: p * p, a, "f")
        return self.ew1(lambda p: T.mk_app("sqrt", p), self.np_sum(sq, axis=axis, keepdims=keepdims), "f")

    def np_trace(self, a):
        a = self.tonum(a)
        self.square(a)
        return self.np_sum(self.np_diag(a))

    # ------------------------------------------------------------------------------------------ reductions
    def reduce(self, a, axis, keepdims, fn, dt, one=None):
        """fn(binders, body) -> term"""
        a = self.tonum(a)
        if isinstance(a, Num):
            return Num(fn([], a.p), dt or a.t, True)
        nd = len(a.shape)
        if axis is None:
            axes = list(range(nd))
        elif isinstance(axis, tuple):
            axes = [int(self.toint(x).const()) for x in axis]
        else:
            c = self.toint(axis).const()
            if c is None:
                raise Unsupported("symbolic axis")
            axes = [int(c)]
        for x in axes:
            if not -nd <= x < nd:
                raise PyExc("AxisError", "axis out of bounds")
        axes = sorted(x % nd for x in axes)
        keep = [j for j in range(nd) if j not in axes]

        def f(*ix):
            vs = {j: T.fresh("r") for j in axes}
            it = iter(ix)
            idx = [P(vs[j]) if j in vs else next(it) for j in range(nd)]
            facts = []
            for j in axes:
                facts += T.inrange(P(vs[j]), a.shape[j])
            with T.assuming(*facts):
                body = self.at(a, idx)
            return fn([(vs[j], a.shape[j]) for j in axes], body)
        dt = dt or self.dt(a)
        if keepdims is True:
            shape = [T.ONE if j in axes else a.shape[j] for j in range(nd)]
            return self.mkarr(shape, lambda *ix: f(*[ix[j] for j in keep]), dt)
        if not keep:
            r = f()
            if dt == "b":
                return SB(bool_of(r))
            return Num(r, dt, True)
        return self.mkarr([a.shape[j] for j in keep], f, dt)

    @staticmethod
    def _sum(binders, body):
        for v, n in reversed(binders):
            body = T.mk_sum(v, n, body)
        return body

    @staticmethod
    def _cnt(binders):
        r = T.ONE
        for v, n in binders:
            r = r * n
        return r

    def np_sum(self, a, axis=None, keepdims=False, dtype=None, initial=None):
        a = self.tonum(a)
        d = self.vdt(a)
        return self.reduce(a, axis, keepdims, self._sum, "i" if d == "b" else d)

    def np_nansum(self, *a, **k):
        return self.np_sum(*a, **k)

    def fdt(self, a):
        d = self.vdt(self.tonum(a))
        return d if d in ("f", "f4") else "f"

    def np_mean(self, a, axis=None, keepdims=False, dtype=None):
        return self.reduce(a, axis, keepdims, lambda b, p: self.divide(self._sum(b, p), self._cnt(b)), self.fdt(a))

    np_nanmean = np_mean

    def np_average(self, a, axis=None, weights=None):
        if weights is not None:
            raise Unsupported("weighted average")
        return self.np_mean(a, axis)

    def np_var(self, a, axis=None, ddof=None, keepdims=False):
        dd = self.tonum(ddof).p if ddof is not None else T.ZERO

        def fn(b, p):
            n = self._cnt(b)
            m = self.divide(self._sum(b, p), n)
            return self.divide(self._sum(b, (p - m) ** 2), n - dd)
        return self.reduce(a, axis, keepdims, fn, self.fdt(a))

    def np_std(self, a, axis=None, ddof=None, keepdims=False):
        v = self.np_var(a, axis, ddof, keepdims)
        return self.ew1(lambda p: T.mk_app("sqrt", p), v)

    def np_max(self, a, axis=None, keepdims=False, initial=None):
        if initial is not None:
            raise Unsupported("max initial")
        return self._mm("max", a, axis, keepdims)

    def np_min(self, a, axis=None, keepdims=False, initial=None):
        if initial is not None:
            raise Unsupported("min initial")
        return self._mm("min", a, axis, keepdims)

    def _mm(self, op, a, axis, keepdims):
        a = self.tonum(a)
        if isinstance(a, Arr):
            ax = range(len(a.shape)) if axis is None else [int(self.toint(axis).const())]
            for j in ax:
                if not self.choose(LE(1, a.shape[j])):
                    raise PyExc("ValueError", "zero-size array to reduction operation")
        return self.reduce(a, axis, keepdims, lambda b, p: T.mk_big(op, b, (p,)) if b else p, None)

    def np_prod(self, a, axis=None, keepdims=False):
        def fn(b, p):
            for v, n in reversed(b):
                p = T.mk_big("prod", [(v, n)], (p,))
            return p
        return self.reduce(a, axis, keepdims, fn, None)

    def np_any(self, a, axis=None, keepdims=False):
        return self.reduce(a, axis, keepdims, lambda b, p: T.b2p(LT(0, self._sum(b, T.b2p(bool_of(p))))), "b")

    def np_all(self, a, axis=None, keepdims=False):
        return self.reduce(a, axis, keepdims, lambda b, p: T.b2p(EQ(self._sum(b, T.b2p(Not(bool_of(p)))), 0)), "b")

    def np_count_nonzero(self, a, axis=None):
        return self.reduce(a, axis, False, lambda b, p: self._sum(b, T.b2p(bool_of(p))), "i")

    def np_cumsum(self, a, axis=None):
        a = self.tonum(a)
        if len(a.shape) == 1:
            ax = 0
        elif axis is None:
            raise Unsupported("cumsum of a matrix")
        else:
            ax = int(self.toint(axis).const()) % len(a.shape)

        def f(*ix):
            v = T.fresh("r")
            idx = list(ix)
            idx[ax] = P(v)
            with T.assuming(*T.inrange(P(v), ix[ax] + 1)):
                body = self.at(a, idx)
            return T.mk_sum(v, ix[ax] + 1, body)
        return self.mkarr(a.shape, f, self.dt(a))

    # ------------------------------------------------------------------------------------------ elementwise functions
    def _u(name):
        def g(self, a):
            return self.ew1(lambda p: T.mk_app(name, p), a, "f" if self.fdt(a) != "f4" else "f4")
        return g

    np_sqrt = _u("sqrt")
    np_exp = _u("exp")
    np_tanh = _u("tanh")
    np_log10 = _u("log10")
    np_log = _u("log")
    np_floor = _u("floor")
    np_ceil = _u("ceil")
    np_trunc = _u("trunc")
    np_rint = _u("rint")

    def np_abs(self, a):
        return self.ew1(lambda p: T.mk_app("abs", p), a)

    def np_sign(self, a):
        return self.ew1(lambda p: T.mk_app("sign", p), a)

    def np_square(self, a):
        return self.ew1(lambda p: p * p, a)

    def np_reciprocal(self, a):
        return self.ew1(lambda p: self.divide(T.ONE, p), a)

    def np_negative(self, a):
        return self.ew1(lambda p: -p, a)

    def np_conj(self, a):
        return a

    np_real = np_conj
    np_conjugate = np_conj

    def np_expm1(self, a):
        return self.ew1(lambda p: T.mk_app("exp", p) - 1, a, "f")

    def np_heaviside(self, a, b):
        return self.ew(lambda p, q: mk_ite(LT(p, 0), T.ZERO, mk_ite(EQ(p, 0), q, T.ONE)), "f", a, b)

    def np_maximum(self, a, b):
        return self.ew(lambda p, q: maxmin("max", p, q), None, a, b)

    def np_minimum(self, a, b):
        return self.ew(lambda p, q: maxmin("min", p, q), None, a, b)

    np_fmax = np_maximum
    np_fmin = np_minimum

    def np_clip(self, a, a_min=None, a_max=None, **kw):
        lo = kw.pop("min", a_min)
        hi = kw.pop("max", a_max)
        r = a
        if lo is not None:
            r = self.np_maximum(r, lo)
        if hi is not None:
            r = self.np_minimum(r, hi)
        return r

    def np_where(self, c, a=None, b=None):
        if a is None:
            raise Unsupported("where with one argument")
        a, b = self.tonum(a), self.tonum(b)
        return self.ew(lambda p, q, r: mk_ite(bool_of(p), q, r), join(self.vdt(a), self.vdt(b)), c, a, b)

    def _cmp(op):
        def g(self, a, b):
            return self.compare(op, a, b)
        return g

    np_less = _cmp("Lt")
    np_less_equal = _cmp("LtE")
    np_greater = _cmp("Gt")
    np_greater_equal = _cmp("GtE")
    np_equal = _cmp("Eq")
    np_not_equal = _cmp("NotEq")

    def np_logical_and(self, a, b):
        return self.ew(lambda p, q: T.b2p(And(bool_of(p), bool_of(q))), "b", a, b)

    def np_logical_or(self, a, b):
        return self.ew(lambda p, q: T.b2p(Or(bool_of(p), bool_of(q))), "b", a, b)

    def np_logical_not(self, a):
        return self.ew1(lambda p: T.b2p(Not(bool_of(p))), a, "b")

    # ------------------------------------------------------------------------------------------ rearrangement
    def np_diff(self, a, n=None, axis=None, **kw):
        if kw:
            raise Unsupported("diff with prepend/append")
        a = self.tonum(a)
        ax = int(self.toint(axis).const()) % len(a.shape) if axis is not None else len(a.shape) - 1
        order = self.toint(n) if n is not None else T.ONE
        dim = a.shape[ax]
        c = order.const()
        if c is not None:
            if c < 0:
                raise PyExc("ValueError", "order must be non-negative")
            if c <= 4:
                r = a
                for _ in range(int(c)):
                    r = self._diff1(r, ax)
                return r if c else a
        elif not self.choose(LE(0, order)):
            raise PyExc("ValueError", "order must be non-negative")
        if self.choose(LE(order, dim)):
            ln = dim - order
        else:
            ln = T.ZERO

        def f(*ix):
            v = T.fresh("r")
            idx = list(ix)
            idx[ax] = P(v)
            with T.assuming(*T.inrange(P(v), dim)):
                body = self.at(a, idx)
            return ndiff(v, dim, body, order, ix[ax])
        return self.mkarr(a.shape[:ax] + (ln,) + a.shape[ax + 1:], f, self.dt(a))

    def _diff1(self, a, ax):
        dim = a.shape[ax]
        ln = dim - 1 if self.choose(LE(1, dim)) else T.ZERO

        def f(*ix):
            up = list(ix)
            up[ax] = ix[ax] + 1
            return self.at(a, up) - self.at(a, ix)
        return self.mkarr(a.shape[:ax] + (ln,) + a.shape[ax + 1:], f, self.dt(a))

    def np_cov(self, m, y=None, rowvar=True, bias=False, ddof=None):
        if y is not None:
            raise Unsupported("cov with y")
        a = self.tonum(m)
        if len(a.shape) != 2:
            raise Unsupported("cov of a vector")
        rv = rowvar if isinstance(rowvar, bool) else self.truth(rowvar)
        if not rv:
            a = self.arrattr(a, "T")
        p, n = a.shape
        if ddof is not None:
            dd = self.tonum(ddof).p
        else:
            b = bias if isinstance(bias, bool) else self.truth(bias)
            dd = T.ZERO if b else T.ONE

        def f(i, j):
            u = T.fresh("r")
            with T.assuming(*T.inrange(P(u), n)):
                mi = T.mk_sum(u, n, self.at(a, [i, P(u)])) / n
                mj = T.mk_sum(u, n, self.at(a, [j, P(u)])) / n
                body = (self.at(a, [i, P(u)]) - mi) * (self.at(a, [j, P(u)]) - mj)
            return T.mk_sum(u, n, body) / (n - dd)
        if self.choose(EQ(p, T.ONE)):
            return self.mkarr((), lambda: f(T.ZERO, T.ZERO))      # numpy squeezes the result
        return self.mkarr((p, p), f)

    def np_sort(self, a, axis=None, kind=None):
        a = self.tonum(a)
        if len(a.shape) == 1 and any(b.name == "eigval" for b in L.bigs_in(self.at(a, [P(T.fresh("r"))]))):
            return self.getitem(a, self.np_argsort(a))
        ax = len(a.shape) - 1 if axis is None else int(self.toint(axis).const()) % len(a.shape)

        def f(*ix):
            v = T.fresh("r")
            idx = list(ix)
            idx[ax] = P(v)
            with T.assuming(*T.inrange(P(v), a.shape[ax])):
                body = self.at(a, idx)
            return T.mk_big("sort", [(v, a.shape[ax])], (body,), (ix[ax],))
        return self.mkarr(a.shape, f, self.dt(a))

    def np_argsort(self, a, axis=None, kind=None):
        a = self.tonum(a)
        if len(a.shape) != 1:
            raise Unsupported("argsort of a matrix")

        def f(i):
            v = T.fresh("r")
            with T.assuming(*T.inrange(P(v), a.shape[0])):
                body = self.at(a, [P(v)])
            m, c = T.leading(body) if body.t else ((), 1)
            if c < 0:
                return T.mk_big("argsort", [(v, a.shape[0])], (-body,), (a.shape[0] - 1 - i,), True)
            return T.mk_big("argsort", [(v, a.shape[0])], (body,), (i,), True)
        return self.mkarr(a.shape, f, "i")

    def _arg(name):
        def g(self, a, axis=None):
            a = self.tonum(a)
            if len(a.shape) != 1:
                raise Unsupported(name)
            return self.reduce(a, axis, False, lambda b, p: T.mk_big(name, b, (p,), (), True), "i")
        return g

    np_argmax = _arg("argmax")
    np_argmin = _arg("argmin")

    def np_flip(self, a, axis=None):
        a = self.tonum(a)
        axes = range(len(a.shape)) if axis is None else [int(self.toint(axis).const()) % len(a.shape)]
        v = a
        for j in axes:
            v = self.view_slice(v, j, v.shape[j] - 1, v.shape[j], -1)
        return v

    def np_flipud(self, a):
        return self.np_flip(a, I(0))

    def np_fliplr(self, a):
        return self.np_flip(a, I(1))

    def np_roll(self, a, shift, axis=None):
        a = self.tonum(a)
        if axis is None and len(a.shape) != 1:
            raise Unsupported("roll of a matrix without axis")
        ax = 0 if axis is None else int(self.toint(axis).const()) % len(a.shape)
        s = self.toint(shift)
        n = a.shape[ax]
        c = s.const()
        if c is None or abs(c) > 1:
            if not (T.decide(LE(0, s)) is True and T.decide(LE(s, n)) is True):
                raise Unsupported("roll by a symbolic shift")
        elif T.decide(LE(1, n)) is not True:
            if not self.choose(LE(1, n)):
                return self.np_copy(a)

        def f(*ix):
            i = ix[ax]
            lo, hi = list(ix), list(ix)
            lo[ax] = i - s
            if c is not None and c < 0:
                hi[ax] = i - s - n
                with T.assuming(LT(i - s, n)):
                    x = self.at(a, lo)
                with T.assuming(LE(n, i - s)):
                    y = self.at(a, hi)
                return mk_ite(LT(i - s, n), x, y)
            hi[ax] = i - s + n
            with T.assuming(LE(0, i - s)):
                x = self.at(a, lo)
            with T.assuming(LT(i - s, 0)):
                y = self.at(a, hi)
            return mk_ite(LE(0, i - s), x, y)
        return self.mkarr(a.shape, f, self.dt(a))

    def np_delete(self, a, obj, axis=None):
        a = self.tonum(a)
        if len(a.shape) != 1:
            raise Unsupported("delete from a matrix")
        k = self.norm_index(self.toint(obj), a.shape[0])
        return self.mkarr((a.shape[0] - 1,), lambda i: mk_ite(LT(i, k), self.at(a, [i]), self.at(a, [i + 1])), self.dt(a))

    def np_append(self, a, b, axis=None):
        a, b = self.np_atleast_1d(a), self.np_atleast_1d(b)
        if axis is None and (len(a.shape) != 1 or len(b.shape) != 1):
            a, b = self.am_ravel(a), self.am_ravel(b)
        return self.np_concatenate((a, b), axis if axis is not None else I(0))

    def np_concatenate(self, seq, axis=None, **kw):
        it = self.iterspec(seq)
        if not isinstance(it, list):
            raise Unsupported("concatenate of a symbolic sequence")
        xs = [self.tonum(x) for x in it]
        if any(isinstance(x, Num) or not x.shape for x in xs):
            raise PyExc("ValueError", "zero-dimensional arrays cannot be concatenated")
        ax = int(self.toint(axis).const()) if axis is not None else 0
        nd = len(xs[0].shape)
        if any(len(x.shape) != nd for x in xs):
            raise PyExc("ValueError", "all the input array dimensions must match")
        if not -nd <= ax < nd:
            raise PyExc("AxisError")
        ax %= nd
        t = "b"
        for x in xs:
            t = join(t, self.dt(x))
            for j in range(nd):
                if j != ax and x.shape[j] is not xs[0].shape[j] and not self.choose(EQ(x.shape[j], xs[0].shape[j])):
                    raise PyExc("ValueError", "all the input array dimensions must match")
        tot = T.ZERO
        offs = []
        for x in xs:
            offs.append(tot)
            tot = tot + x.shape[ax]

        def f(*ix):
            acc = None
            for x, o in list(zip(xs, offs))[::-1]:
                idx = list(ix)
                idx[ax] = ix[ax] - o
                c = LT(ix[ax], o + x.shape[ax])
                if acc is None:
                    with T.assuming(*[LE(o, ix[ax])]):
                        acc = self.at(x, idx)
                else:
                    d = T.decide(c)
                    if d is True:
                        acc = self.at(x, idx)
                    elif d is None:
                        with T.assuming(c, LE(o, ix[ax])):
                            y = self.at(x, idx)
                        acc = mk_ite(c, y, acc)
            return acc
        shape = list(xs[0].shape)
        shape[ax] = tot
        return self.mkarr(shape, f, t)

    def np_vstack(self, seq):
        return self.np_concatenate(tuple(self.np_atleast_2d(x) for x in self.seqlist(seq)), I(0))

    np_row_stack = np_vstack

    def np_hstack(self, seq):
        xs = [self.np_atleast_1d(x) for x in self.seqlist(seq)]
        return self.np_concatenate(tuple(xs), I(0 if len(xs[0].shape) == 1 else 1))

    def np_column_stack(self, seq):
        xs = [self.np_atleast_1d(x) for x in self.seqlist(seq)]
        xs = [self.view_newaxis(x, 1) if len(x.shape) == 1 else x for x in xs]
        return self.np_concatenate(tuple(xs), I(1))

    def np_stack(self, seq, axis=None):
        ax = int(self.toint(axis).const()) if axis is not None else 0
        it = self.iterspec(seq)
        if not isinstance(it, list):
            r = self.fromseq(seq)
            if ax == 0:
                return r
            if ax in (1, -1) and len(r.shape) == 2:
                return self.np_copy(self.arrattr(r, "T"))
            raise Unsupported("stack")
        xs = [self.np_atleast_1d(x) for x in it]
        if ax < 0:
            ax += len(xs[0].shape) + 1
        return self.np_concatenate(tuple(self.view_newaxis(x, ax) for x in xs), I(ax))

    def seqlist(self, seq):
        it = self.iterspec(seq)
        if not isinstance(it, list):
            raise Unsupported("stack of a symbolic sequence")
        return it

    def np_take(self, a, ind, axis=None):
        a = self.tonum(a)
        ind = self.tonum(ind)
        if axis is None and len(a.shape) == 1 or axis is not None and self.toint(axis).const() == 0:
            return self.arr_get(a, ind)
        if axis is not None and self.toint(axis).const() == 1:
            return self.arr_get(a, (Slice(None, None, None), ind))
        raise Unsupported("take")

    def np_unique(self, a, return_counts=False, return_index=False, return_inverse=False):
        if return_counts or return_index or return_inverse:
            raise Unsupported("unique with extra results")
        c = self.classset(a)
        return self.mkarr((c.count,), lambda i: c.elem(i).p, c.t)

    def np_tile(self, a, reps):
        a = self.tonum(a)
        r = self.shape_arg(reps)
        if len(a.shape) == 1 and len(r) == 2 and r[1].const() == 1:
            return self.mkarr((r[0], a.shape[0]), lambda i, j: self.at(a, [j]), self.dt(a))
        raise Unsupported("tile")

    def np_broadcast_to(self, a, shape):
        a = self.np_atleast_1d(a)
        s = self.shape_arg(shape)
        return self.mkarr(s, lambda *ix: self.bat(a, ix), self.dt(a))

    def np_lib_stride_tricks_sliding_window_view(self, a, window_shape, axis=None):
        a = self.tonum(a)
        w = self.shape_arg(window_shape)
        if len(a.shape) != 1 or len(w) != 1 or axis is not None:
            raise Unsupported("sliding_window_view")
        n = a.shape[0]
        if not self.choose(LE(w[0], n)):
            raise PyExc("ValueError", "window shape cannot be larger than input array shape")
        return self.mkarr((n - w[0] + 1, w[0]), lambda i, j: self.at(a, [i + j]), self.dt(a))

    def np_fill_diagonal(self, a, v):
        v = self.tonum(v)
        old = dict(self.heap)
        self.store(a, lambda i, j: mk_ite(EQ(i, j), self.cast(v.p if isinstance(v, Num) else self.at(v, [i]), self.vdt(v), self.dt(a)),
                                          self.at(a, [i, j], old)), self.dt(a))

    def np_copyto(self, dst, src):
        self.assign_arr(dst, src)

    def np_put(self, *a):
        raise Unsupported("put")

    def np_seterr(self, **k):
        return None

    # ------------------------------------------------------------------------------------------ scipy.stats.genpareto
    def sp_fit(self, data, *a, **kw):
        if a or set(kw) != {"floc"}:
            raise Unsupported("genpareto.fit arguments")
        self.assumed.add("scipy.stats.genpareto.fit (opaque, location fixed at floc)")
        d = self.tonum(data)
        loc = self.tonum(kw["floc"])
        if isinstance(loc, Arr):
            lp = self.at(loc, [T.ZERO] * len(loc.shape))
        else:
            lp = loc.p
        q = T.fresh("q")
        with T.assuming(*T.inrange(P(q), d.shape[0])):
            body = self.at(d, [P(q)])
        sh = T.mk_big("gpfit_c", [(q, d.shape[0])], (body,), (lp,))
        sc = T.mk_big("gpfit_s", [(q, d.shape[0])], (body,), (lp,))
        return (Num(sh, "f", True), Num(lp, "f", True), Num(sc, "f", True))

    def sp_cdf(self, x, c, loc=None, scale=None):
        self.assumed.add("scipy.stats.genpareto.cdf (opaque)")
        lo = loc if loc is not None else F(0)
        sc = scale if scale is not None else F(1)
        return self.ew(lambda a, b, l, s: T.app("gpcdf", a, b, l, s), "f", x, c, lo, sc)

    def sp_sf(self, x, c, loc=None, scale=None):
        return self.ew1(lambda p: 1 - p, self.sp_cdf(x, c, loc, scale))


NDATTRS = {"flat", "strides", "itemsize", "nbytes", "base", "imag", "partition", "ptp", "searchsorted", "setflags", "flags",
           "resize", "tobytes", "choose", "compress", "cumprod", "put", "byteswap", "data", "nonzero"}


def ndiff(v, dim, body, order, k):
    """order-th forward difference of body(v), v < dim, at k, for a symbolic order"""
    return T.mk_big("ndiff", [(v, dim)], (body,), (order, k))
