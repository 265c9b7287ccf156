"""Symbolic executor for the Python subset padasip is written in (parses the sources in the repository on every run)."""
import ast
import os
from fractions import Fraction

from . import terms as T
from . import join
from . import logic as L
from .terms import P, Poly, EQ, LE, LT, Not, And, Or, mk_ite
from .core import *
from .npmod import NumpyMixin
from .loops import LoopMixin

IGNORED_LIBS = ("warnings", "logging", "sys", "os", "time", "typing", "numbers")


class Frame:
    def __init__(self, env, module, cls=None, self_=None, parent=None, func=None):
        self.env, self.module, self.cls, self.self_, self.parent, self.func = env, module, cls, self_, parent, func
        self.line = 0
        self.globals_ = set()


class Ret:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


BREAK, CONTINUE = "break", "continue"
BUILTINS = {"len", "range", "enumerate", "zip", "isinstance", "int", "float", "abs", "max", "min", "sum", "list", "tuple",
            "set", "sorted", "reversed", "str", "print", "getattr", "hasattr", "setattr", "type", "super", "any", "all",
            "map", "round", "callable", "dict", "bool", "slice", "object", "pow", "iter", "next", "repr", "frozenset",
            "property", "staticmethod", "classmethod", "complex", "issubclass", "id", "divmod", "filter", "format"}


class Interp(NumpyMixin, LoopMixin, Core):
    def __init__(self, repo):
        super().__init__()
        self.repo = repo
        self.modules = {}
        self.frames = []
        self.executed = {}
        self.hooks = {}          # (id(func node)) -> handler
        self.assumed = set()     # names of assumed library contracts used
        self.intercept = {}      # method name -> handler(interp, self_, args, kwargs)
        self.sources = {}
        self.mutable_defaults_guard = True
        self.wants = []          # conditions inner loops would have needed on entry

    # ------------------------------------------------------------------------------------------ modules
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        base = os.path.join(self.repo, *name.split("."))
        path = base + ".py" if os.path.isfile(base + ".py") else os.path.join(base, "__init__.py")
        if not os.path.isfile(path):
            raise PyExc("ModuleNotFoundError", name)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            m = self.modules.get(name)
            if m is not None:
                return m
        with open(path, encoding="utf-8") as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src)
        self.sources[name] = src
        m = Module(name, os.path.relpath(path, self.repo))
        m.env["__name__"] = name
        self.modules[name] = m
        if "." in name:
            p, c = name.rsplit(".", 1)
            self.modules[p].env[c] = m
        fr = Frame(m.env, m)
        self.frames.append(fr)
        try:
            for st in tree.body:
                s = self.exec(st, fr)
        finally:
            self.frames.pop()
        return m

    def load_src(self, name, src):
        m = Module(name, name)
        m.env["__name__"] = name
        self.modules[name] = m
        fr = Frame(m.env, m)
        self.frames.append(fr)
        try:
            for st in ast.parse(src).body:
                self.exec(st, fr)
        finally:
            self.frames.pop()
        return m

    def get(self, dotted):
        mod, name = dotted.rsplit(".", 1)
        m = self.load(mod)
        if name not in m.env:
            raise Unsupported("%s not found" % dotted)
        return m.env[name]

    def imp(self, name):
        if name == "padasip" or name.startswith("padasip."):
            return self.load(name)
        return Lib(name)

    # ------------------------------------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            s = self.exec(st, fr)
            if s is not None:
                return s
        return None

    def exec(self, st, fr):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported("execution budget exceeded")
        fr.line = st.lineno
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        return m(st, fr)

    def x_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return None
        self.e(st.value, fr)

    def x_Pass(self, st, fr):
        return None

    def x_Assign(self, st, fr):
        v = self.e(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.e(st.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if fr.func is not None and t.id in fr.globals_:
                fr.module.env[t.id] = v
            else:
                fr.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.e(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.e(t.value, fr), self.index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = self.unpack(v, None if star else len(t.elts))
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyExc("ValueError", "unpack")
                mid = ListV(self.alloc(ListRec(list(vals[i:len(vals) - k]))))
                vals = list(vals[:i]) + [mid] + list(vals[len(vals) - k:])
                for x, y in zip(t.elts, vals):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
            else:
                if len(vals) != len(t.elts):
                    raise PyExc("ValueError", "unpack")
                for x, y in zip(t.elts, vals):
                    self.assign(x, y, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            return list(v)
        it = self.iterspec(v)
        if isinstance(it, list):
            return it
        k, f = it
        if n is None:
            raise Unsupported("unpacking a symbolic-length sequence")
        if not self.choose(EQ(k, n)):
            raise PyExc("ValueError", "unpack")
        return [f(P(i)) for i in range(n)]

    def x_AugAssign(self, st, fr):
        op = type(st.op).__name__
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            setter = lambda v: self.assign(t, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.e(t.value, fr)
            cur = self.getattr(o, t.attr)
            setter = lambda v: self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.e(t.value, fr)
            ix = self.index(t.slice, fr)
            cur = self.getitem(o, ix)
            setter = lambda v: self.setitem(o, ix, v)
        else:
            raise Unsupported("augmented assignment target")
        v = self.e(st.value, fr)
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v)
            self.inplace(cur, r)
            if not isinstance(t, ast.Name):
                if isinstance(t, ast.Attribute):
                    self.setattr(o, t.attr, cur)
                else:
                    # a[ix] += v : numpy stores the result back (needed for index arrays; idempotent for views)
                    self.setitem(o, ix, r)
            return
        if isinstance(cur, ListV) and op == "Add":
            it = self.iterspec(v)
            if not isinstance(it, list):
                raise Unsupported("extending a list symbolically")
            for x in it:
                self.list_append(cur, x)
            return
        setter(self.binop(op, cur, v))

    def inplace(self, cur, r):
        dt = self.dt(cur)
        rdt = self.dt(r) if isinstance(r, Arr) else r.t
        if dt in ("i", "b") and rdt in ("f", "f4"):
            raise PyExc("UFuncTypeError", "cannot cast")
        if dt == "b" and rdt == "i":
            raise PyExc("UFuncTypeError", "cannot cast")
        self.assign_arr(cur, r)

    def x_If(self, st, fr):
        v = self.e(st.test, fr)
        if isinstance(v, SB) and self.deciders and v.b is not T.TRUE and v.b is not T.FALSE \
                and T.decide(v.b) is None and not join.exits(st):
            dec = self.deciders[-1]
            if join.join(self, v.b, st, fr, dec):
                return None
        if self.truth(v):
            return self.block(st.body, fr)
        return self.block(st.orelse, fr)

    def x_Return(self, st, fr):
        return Ret(self.e(st.value, fr) if st.value is not None else None)

    def x_Break(self, st, fr):
        return BREAK

    def x_Continue(self, st, fr):
        return CONTINUE

    def x_Assert(self, st, fr):
        if not self.truth(self.e(st.test, fr)):
            raise PyExc("AssertionError")

    def x_Raise(self, st, fr):
        if st.exc is None:
            cur = getattr(fr, "cur_exc", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise cur
        v = self.e(st.exc, fr)
        if isinstance(v, Builtin):
            raise PyExc(v.name)
        if isinstance(v, Exc):
            raise PyExc(v.name, v.msg)
        raise Unsupported("raise of a non-builtin exception")

    def x_Try(self, st, fr):
        try:
            sig = None
            try:
                sig = self.block(st.body, fr)
                if sig is None:
                    sig = self.block(st.orelse, fr)
            except PyExc as ex:
                for h in st.handlers:
                    if h.type is None:
                        names = ["BaseException"]
                    else:
                        v = self.e(h.type, fr)
                        vs = v if isinstance(v, tuple) else (v,)
                        names = [x.name if isinstance(x, Builtin) else str(getattr(x, "path", x)).split(".")[-1] for x in vs]
                    if any(exc_is(ex.name, n) for n in names):
                        if h.name:
                            fr.env[h.name] = Exc(ex.name, ex.msg)
                        prev = getattr(fr, "cur_exc", None)
                        fr.cur_exc = ex
                        try:
                            sig = self.block(h.body, fr)
                        finally:
                            fr.cur_exc = prev
                        break
                else:
                    raise
        except PyExc:
            if st.finalbody:
                s2 = self.block(st.finalbody, fr)
                if s2 is not None:
                    return s2
            raise
        if st.finalbody:
            s2 = self.block(st.finalbody, fr)
            if s2 is not None:
                return s2
        return sig

    def x_With(self, st, fr):
        for it in st.items:
            v = self.e(it.context_expr, fr)
            if not (isinstance(v, Lib) and v.path == "ctx"):
                raise Unsupported("with statement")
        return self.block(st.body, fr)

    def x_Import(self, st, fr):
        for a in st.names:
            m = self.imp(a.name)
            if a.asname:
                fr.env[a.asname] = m
            else:
                top = a.name.split(".")[0]
                fr.env[top] = self.imp(top)

    def x_ImportFrom(self, st, fr):
        mod = st.module or ""
        if st.level:
            parts = fr.module.name.split(".")
            if not fr.module.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (st.level - 1)]
            mod = ".".join(parts + ([mod] if mod else []))
        if mod == "__future__":
            return
        m = self.imp(mod)
        for a in st.names:
            if a.name == "*":
                if not isinstance(m, Module):
                    raise Unsupported("import *")
                for k, v in m.env.items():
                    if not k.startswith("_"):
                        fr.env[k] = v
                continue
            if isinstance(m, Module):
                if a.name in m.env:
                    v = m.env[a.name]
                else:
                    try:
                        v = self.load(mod + "." + a.name)
                    except PyExc:
                        raise PyExc("ImportError", a.name)
            else:
                v = Lib(mod + "." + a.name)
            fr.env[a.asname or a.name] = v

    def x_FunctionDef(self, st, fr):
        f = self.mkfunc(st, fr)
        for d in reversed(st.decorator_list):
            dv = self.e(d, fr)
            if isinstance(dv, Builtin) and dv.name in ("staticmethod", "classmethod", "property"):
                f.static = dv.name
            else:
                raise Unsupported("decorator")
        fr.env[st.name] = f

    def mkfunc(self, st, fr):
        a = st.args
        defaults = [self.e(d, fr) for d in a.defaults]
        kwd = {k.arg: self.e(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        closure = fr if fr.func is not None else (fr.parent if fr.parent is not None and fr.parent.func is not None else None)
        return Func(st, fr.module, None, closure, getattr(st, "name", "<lambda>"), defaults, kwd)

    def x_ClassDef(self, st, fr):
        bases = [self.e(b, fr) for b in st.bases]
        env = {}
        cf = Frame(env, fr.module)
        cf.parent = fr
        for s in st.body:
            self.exec(s, cf)
        c = Cls(st.name, bases, env, fr.module)
        for k, v in env.items():
            if isinstance(v, Func) and v.cls is None:
                v.cls = c
        for d in st.decorator_list:
            raise Unsupported("class decorator")
        fr.env[st.name] = c

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.e(t.value, fr)
                rec = self.heap[o.id]
                at = dict(rec.attrs)
                at.pop(t.attr, None)
                self.heap[o.id] = ObjRec(rec.cls, at)
            else:
                raise Unsupported("del")

    def x_Global(self, st, fr):
        fr.globals_ = fr.globals_ | set(st.names)

    def x_Nonlocal(self, st, fr):
        raise Unsupported("nonlocal")

    # ------------------------------------------------------------------------------------------ loops
    def x_For(self, st, fr):
        it = self.iterspec(self.e(st.iter, fr))
        if isinstance(it, list):
            for v in it:
                self.assign(st.target, v, fr)
                s = self.block(st.body, fr)
                if s == BREAK:
                    return None
                if isinstance(s, Ret):
                    return s
            return self.block(st.orelse, fr)
        k, elem = it
        c = P(k).const()
        if c is not None and c <= 6:
            for i in range(int(max(c, 0))):
                self.assign(st.target, elem(P(i)), fr)
                s = self.block(st.body, fr)
                if s == BREAK:
                    return None
                if isinstance(s, Ret):
                    return s
            return self.block(st.orelse, fr)
        self.sym_loop(fr, P(k), lambda kk: self.assign(st.target, elem(kk), fr), st.body, st.lineno)
        return self.block(st.orelse, fr)

    def x_While(self, st, fr):
        return self.while_loop(st, fr)

    # ------------------------------------------------------------------------------------------ iteration
    def iterspec(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListV):
            rec = self.heap[v.id]
            if rec.items is not None:
                return list(rec.items)
            if rec.app:
                raise Unsupported("iterating a list under construction")
            return rec.length, rec.elem
        if isinstance(v, DictV):
            return list(self.heap[v.id].d.keys())
        if isinstance(v, Arr):
            if not v.shape:
                raise PyExc("TypeError", "iteration over a 0-d array")
            c = v.shape[0].const()
            if c is not None and c <= 6:
                return [self.elem0(v, P(i)) for i in range(int(c))]
            return v.shape[0], lambda k: self.elem0(v, k)
        if isinstance(v, Range):
            ln = self.range_len(v)
            c = ln.const()
            if c is not None and c <= 6:
                return [I(v.start + P(i * v.step)) for i in range(int(c))]
            return ln, lambda k: I(v.start + k * P(v.step))
        if isinstance(v, IterV):
            if v.kind == "enumerate":
                it = self.iterspec(v.args[0])
                st = v.args[1]
                if isinstance(it, list):
                    return [(I(st + P(i)), x) for i, x in enumerate(it)]
                return it[0], lambda k: (I(st + k), it[1](k))
            if v.kind == "zip":
                its = [self.iterspec(a) for a in v.args]
                if not its:
                    return []
                lens = [P(len(i)) if isinstance(i, list) else P(i[0]) for i in its]
                n = lens[0]
                for m in lens[1:]:
                    if not self.choose(LE(n, m)):
                        n = m
                if n.const() is not None and n.const() <= 6:
                    c = int(n.const())
                    return [tuple(i[j] if isinstance(i, list) else i[1](P(j)) for i in its) for j in range(c)]
                if any(isinstance(i, list) for i in its):
                    raise Unsupported("zip of concrete and symbolic sequences")
                return n, lambda k: tuple(i[1](k) for i in its)
            if v.kind == "reversed":
                it = self.iterspec(v.args[0])
                if isinstance(it, list):
                    return it[::-1]
                return it[0], lambda k: it[1](P(it[0]) - 1 - k)
            if v.kind == "map":
                it = self.iterspec(v.args[1])
                if isinstance(it, list):
                    return [self.call(v.args[0], [x], {}) for x in it]
                t = self.template(lambda k: self.call(v.args[0], [it[1](k)], {}), it[0])
                return it[0], t
        if isinstance(v, str):
            return [c for c in v]
        if isinstance(v, ClassSet):
            return v.count, v.elem
        if isinstance(v, Bad):
            raise Unsupported("iterating an unconvertible sequence")
        if isinstance(v, (Num, SB)) or v is None or isinstance(v, bool):
            raise PyExc("TypeError", "not iterable")
        raise Unsupported("iteration over %s" % type(v).__name__)

    def range_len(self, r):
        d = (r.stop - r.start) if r.step > 0 else (r.start - r.stop)
        s = abs(r.step)
        if s != 1:
            d = T.mk_app("fdiv", d + (s - 1), P(s))
        if self.choose(LE(0, d)):
            return d
        return T.ZERO

    # ------------------------------------------------------------------------------------------ truth
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, SB):
            return self.choose(v.b)
        if isinstance(v, Num):
            return self.choose(self.nz(v.p))
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return bool(v)
        if isinstance(v, ListV):
            rec = self.heap[v.id]
            if rec.items is not None:
                return bool(rec.items)
            return self.choose(LT(0, rec.length))
        if isinstance(v, DictV):
            return bool(self.heap[v.id].d)
        if isinstance(v, Arr):
            if all(s.const() == 1 for s in v.shape):
                return self.choose(self.nz(self.at(v, [T.ZERO] * len(v.shape))))
            one = And(*[EQ(s, 1) for s in v.shape])
            if self.choose(one):
                return self.choose(self.nz(self.at(v, [T.ZERO] * len(v.shape))))
            zero = Or(*[EQ(s, 0) for s in v.shape])
            if self.choose(zero):
                return False
            raise PyExc("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, (Obj, Func, Bound, Cls, Module, Lib, Builtin, Host)):
            return True
        if isinstance(v, SStr):
            return True
        raise Unsupported("truth value of %s" % type(v).__name__)

    def nz(self, p):
        return bool_of(p)

    # ------------------------------------------------------------------------------------------ expressions
    def e(self, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s at %s:%d" % (type(n).__name__, fr.module.path, n.lineno))
        return m(n, fr)

    def e_Constant(self, n, fr):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, int):
            return I(v)
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")):
                raise Unsupported("inf/nan literal")
            return F(P(Fraction(repr(v))))
        if v is Ellipsis:
            return Ellipsis
        raise Unsupported("constant %r" % (v,))

    def e_Name(self, n, fr):
        return self.name(n.id, fr)

    def name(self, nm, fr):
        f = fr
        while f is not None:
            if nm in f.env:
                v = f.env[nm]
                if isinstance(v, Undef):
                    raise PyExc("UnboundLocalError", nm)
                if isinstance(v, Maybe):
                    raise MaybeRead("%s: %s" % (nm, v.why))
                return v
            f = f.parent
        if nm in fr.module.env:
            return fr.module.env[nm]
        if nm in BUILTINS or nm in EXC_PARENT:
            return Builtin(nm)
        if nm == "__name__":
            return fr.module.name
        if fr.func is not None and nm in assigned_names(fr.func.node):
            raise PyExc("UnboundLocalError", nm)
        raise PyExc("NameError", nm)

    def e_Tuple(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iterspec(self.e(x.value, fr))
                if not isinstance(it, list):
                    raise Unsupported("star of a symbolic sequence")
                out += it
            else:
                out.append(self.e(x, fr))
        return out

    def e_List(self, n, fr):
        return ListV(self.alloc(ListRec(self.elts(n.elts, fr))))

    def e_Set(self, n, fr):
        return tuple(self.elts(n.elts, fr))

    def e_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.e(v, fr)
                d.update(self.heap[o.id].d)
            else:
                d[self.dkey(self.e(k, fr))] = self.e(v, fr)
        return DictV(self.alloc(DictRec(d)))

    def dkey(self, k):
        if isinstance(k, str) or k is None or isinstance(k, bool):
            return k
        if isinstance(k, Num) and k.const() is not None:
            return ("num", k.const())
        if isinstance(k, tuple):
            return tuple(self.dkey(x) for x in k)
        if isinstance(k, SStr):
            return k
        raise Unsupported("dictionary key")

    def e_BoolOp(self, n, fr):
        isand = isinstance(n.op, ast.And)
        v = None
        for x in n.values:
            v = self.e(x, fr)
            if x is n.values[-1]:
                return v
            t = self.truth(v)
            if t != isand:
                return v
        return v

    def e_UnaryOp(self, n, fr):
        v = self.e(n.operand, fr)
        op = type(n.op).__name__
        if op == "Not":
            if isinstance(v, SB):
                return SB(Not(v.b))
            return not self.truth(v)
        if op == "USub":
            return self.ew1(lambda p: -p, v)
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, Arr) and self.dt(v) == "b":
                return self.ew1(lambda p: 1 - p, v, "b")
            raise Unsupported("~")
        raise Unsupported(op)

    def e_BinOp(self, n, fr):
        a = self.e(n.left, fr)
        b = self.e(n.right, fr)
        return self.binop(type(n.op).__name__, a, b)

    def e_Compare(self, n, fr):
        left = self.e(n.left, fr)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.e(c, fr)
            r = self.compare(type(op).__name__, left, right)
            if len(n.ops) == 1:
                return r
            if c is n.comparators[-1]:
                return r
            if not self.truth(r):
                return False
            left = right
        return res

    def e_IfExp(self, n, fr):
        return self.e(n.body, fr) if self.truth(self.e(n.test, fr)) else self.e(n.orelse, fr)

    def e_NamedExpr(self, n, fr):
        v = self.e(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def e_Lambda(self, n, fr):
        f = self.mkfunc(n, fr)
        if f.closure is None and fr.func is None:
            f.closure = None
        return f

    def e_JoinedStr(self, n, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.e(v.value, fr)
                if isinstance(x, str) and v.conversion == -1 and v.format_spec is None:
                    parts.append(x)
                else:
                    return OpaqueStr()
        return "".join(parts)

    def e_Attribute(self, n, fr):
        return self.getattr(self.e(n.value, fr), n.attr)

    def e_Subscript(self, n, fr):
        return self.getitem(self.e(n.value, fr), self.index(n.slice, fr))

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return Slice(*[self.e(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        return self.e(s, fr)

    def e_Call(self, n, fr):
        f = self.e(n.func, fr)
        args = self.elts(n.args, fr)
        kw = {}
        for k in n.keywords:
            v = self.e(k.value, fr)
            if k.arg is None:
                if not isinstance(v, DictV):
                    raise Unsupported("** of a non-dict")
                for kk, vv in self.heap[v.id].d.items():
                    if not isinstance(kk, str):
                        raise Unsupported("** key")
                    if kk in kw:
                        raise PyExc("TypeError", "multiple values for keyword")
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    raise PyExc("TypeError", "multiple values for keyword")
                kw[k.arg] = v
        if isinstance(f, Builtin) and f.name == "super" and not args:
            return ("super", fr.func.cls if fr.func else None, fr.self_)
        return self.call(f, args, kw)

    def e_ListComp(self, n, fr):
        return self.comp(n, fr)

    def e_GeneratorExp(self, n, fr):
        return self.comp(n, fr)

    def e_SetComp(self, n, fr):
        r = self.comp(n, fr)
        rec = self.heap[r.id]
        if rec.items is None:
            raise Unsupported("set comprehension")
        return tuple(rec.items)

    def comp(self, n, fr):
        g = n.generators
        sub = Frame(dict(), fr.module, fr.cls, fr.self_, fr, fr.func)
        sub.globals_ = getattr(fr, "globals_", set())

        def rec(i):
            if i == len(g):
                return [self.e(n.elt, sub)]
            it = self.iterspec(self.e(g[i].iter, sub if i else fr))
            if isinstance(it, list):
                out = []
                for v in it:
                    self.assign(g[i].target, v, sub)
                    if all(self.truth(self.e(c, sub)) for c in g[i].ifs):
                        r = rec(i + 1)
                        if isinstance(r, ListV):
                            if len(it) != 1:
                                raise Unsupported("nested symbolic comprehension")
                            return r
                        out += r
                return out
            if g[i].ifs or i != len(g) - 1:
                raise Unsupported("filtered or nested symbolic comprehension")
            k, elem = it

            def body(kk):
                self.assign(g[i].target, elem(kk), sub)
                return self.e(n.elt, sub)
            t = self.template(body, k, env=sub.env)
            if getattr(t, "items", None) is not None:
                return ListV(self.alloc(ListRec(list(t.items))))
            return ListV(self.alloc(ListRec(None, P(k), t)))
        r = rec(0)
        return r if isinstance(r, ListV) else ListV(self.alloc(ListRec(r)))

    def e_DictComp(self, n, fr):
        if len(n.generators) != 1:
            raise Unsupported("dict comprehension")
        g = n.generators[0]
        sub = Frame(dict(), fr.module, fr.cls, fr.self_, fr, fr.func)
        sub.globals_ = getattr(fr, "globals_", set())
        it = self.iterspec(self.e(g.iter, fr))
        if not isinstance(it, list):
            raise Unsupported("symbolic dict comprehension")
        d = {}
        for v in it:
            self.assign(g.target, v, sub)
            if all(self.truth(self.e(c, sub)) for c in g.ifs):
                d[self.dkey(self.e(n.key, sub))] = self.e(n.value, sub)
        return DictV(self.alloc(DictRec(d)))

    # ------------------------------------------------------------------------------------------ attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            rec = self.heap[o.id]
            if name in rec.attrs:
                v = rec.attrs[name]
                if isinstance(v, Maybe):
                    raise MaybeRead("%s: %s" % (name, v.why))
                return v
            if name in self.intercept and rec.cls is not None:
                h = self.intercept[name]
                return Bound(Host(lambda self_, *a, **k: h(self, self_, list(a), k), name), o)
            if name == "__dict__":
                return DictV(self.alloc(DictRec(dict(rec.attrs))))
            if name == "__class__":
                return rec.cls
            v, c = rec.cls.lookup(name) if rec.cls else (None, None)
            if v is None and c is None:
                raise PyExc("AttributeError", name)
            return self.bind(v, o)
        if isinstance(o, Cls):
            if name == "__name__":
                return o.name
            v, c = o.lookup(name)
            if c is None:
                raise PyExc("AttributeError", name)
            if isinstance(v, Func) and v.static == "classmethod":
                return Bound(v, o)
            return v
        if isinstance(o, tuple) and len(o) == 3 and o[0] == "super":
            _, cls, self_ = o
            mro = self.heap[self_.id].cls.mro()
            i = mro.index(cls)
            for c in mro[i + 1:]:
                if name in c.attrs:
                    return self.bind(c.attrs[name], self_)
            if name == "__init__":
                return Host(lambda *a, **k: None)
            raise PyExc("AttributeError", name)
        if isinstance(o, Module):
            if name in o.env:
                return o.env[name]
            try:
                return self.load(o.name + "." + name)
            except PyExc:
                raise PyExc("AttributeError", name)
        if isinstance(o, Lib):
            return self.libattr(o, name)
        if isinstance(o, Arr):
            return self.arrattr(o, name)
        if isinstance(o, Num):
            if name == "T":
                return o
            if name in ("shape",):
                return ()
            if name == "ndim":
                return I(0)
            if name in ("real",):
                return o
            if name in ("copy", "item", "sum", "mean", "max", "min", "astype", "squeeze", "tolist", "std", "dot"):
                if name == "dot":
                    return Host(lambda x: self.np_dot(o, x))
                if name == "astype":
                    return Host(lambda *a, **k: self.np_array(o, *a))
                return Host(lambda *a, **k: o)
            raise PyExc("AttributeError", name)
        if isinstance(o, (str, SStr)):
            return Host(lambda *a, **k: self.strmethod(o, name, a, k), name)
        if isinstance(o, ListV):
            return Host(lambda *a, **k: self.listmethod(o, name, a, k), name)
        if isinstance(o, DictV):
            return Host(lambda *a, **k: self.dictmethod(o, name, a, k), name)
        if isinstance(o, Func) and name == "__name__":
            return o.name
        if isinstance(o, OpaqueStr):
            return Host(lambda *a, **k: OpaqueStr())
        if isinstance(o, Junk):
            raise Unsupported("use of an unspecified value (%s)" % o.why)
        if isinstance(o, (tuple, bool)) or o is None or isinstance(o, (Bad, Builtin, ClassSet, SB)):
            if isinstance(o, Bad) and name in ("shape", "ndim", "T", "dtype", "copy"):
                raise PyExc("AttributeError", name)
            if isinstance(o, tuple) and name in ("index", "count"):
                raise Unsupported("tuple." + name)
            raise PyExc("AttributeError", name)
        raise Unsupported("attribute %s of %s" % (name, type(o).__name__))

    def bind(self, v, o):
        if isinstance(v, Func):
            if v.static == "staticmethod":
                return v
            if v.static == "classmethod":
                return Bound(v, self.heap[o.id].cls)
            if v.static == "property":
                return self.callfunc(v, [o], {})
            return Bound(v, o)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            rec = self.heap[o.id]
            if rec.cls is not None:
                pv, c = rec.cls.lookup(name)
                if isinstance(pv, Func) and pv.static == "property":
                    raise Unsupported("property setter")
            at = dict(rec.attrs)
            at[name] = v
            self.heap[o.id] = ObjRec(rec.cls, at)
            return
        if isinstance(o, Arr):
            raise Unsupported("array attribute assignment")
        raise Unsupported("attribute assignment on %s" % type(o).__name__)

    def strmethod(self, s, name, a, k):
        if name in ("upper", "lower", "strip", "casefold", "title", "capitalize", "swapcase") and isinstance(s, str):
            return getattr(s, name)()
        if isinstance(s, SStr):
            if name in ("upper", "lower", "casefold"):
                if s.fold is not None:
                    return s.fold.upper() if name == "upper" else s.fold.lower()
                return SStr(s.name, None, s.excl, "upper" if name == "upper" else "lower")
            if name == "format":
                return OpaqueStr()
            raise Unsupported("string method " + name)
        if name in ("format", "join"):
            return OpaqueStr()
        if all(isinstance(x, str) for x in a) and name in ("startswith", "endswith", "replace", "split", "rstrip", "lstrip"):
            r = getattr(s, name)(*a)
            return ListV(self.alloc(ListRec(list(r)))) if isinstance(r, list) else r
        raise Unsupported("string method " + name)

    def list_append(self, o, v):
        rec = self.heap[o.id]
        if isinstance(rec, FrozenListRec):
            raise Unsupported("append to a row of a nested list")
        if rec.items is not None:
            self.heap[o.id] = ListRec(rec.items + [v])
        else:
            self.heap[o.id] = ListRec(None, rec.length, rec.elem, rec.app + (v,))

    def listmethod(self, o, name, a, k):
        rec = self.heap[o.id]
        if name == "append":
            self.list_append(o, a[0])
            return None
        if name == "copy":
            return ListV(self.alloc(ListRec(list(rec.items) if rec.items is not None else None, rec.length, rec.elem, rec.app)))
        if rec.items is None:
            raise Unsupported("list.%s on a symbolic list" % name)
        if name == "extend":
            it = self.iterspec(a[0])
            if not isinstance(it, list):
                raise Unsupported("list.extend")
            self.heap[o.id] = ListRec(rec.items + it)
            return None
        if name == "pop":
            i = int(a[0].const()) if a else -1
            if not rec.items:
                raise PyExc("IndexError")
            items = list(rec.items)
            v = items.pop(i)
            self.heap[o.id] = ListRec(items)
            return v
        if name == "insert":
            items = list(rec.items)
            items.insert(int(a[0].const()), a[1])
            self.heap[o.id] = ListRec(items)
            return None
        if name == "reverse":
            self.heap[o.id] = ListRec(rec.items[::-1])
            return None
        if name == "index":
            for i, x in enumerate(rec.items):
                if self.truth(self.compare("Eq", x, a[0])):
                    return I(i)
            raise PyExc("ValueError")
        raise Unsupported("list." + name)

    def dictmethod(self, o, name, a, k):
        rec = self.heap[o.id]
        if name in ("keys",):
            return tuple(x for x in rec.d.keys())
        if name == "values":
            return tuple(rec.d.values())
        if name == "items":
            return tuple((x, y) for x, y in rec.d.items())
        if name in ("get", "pop", "setdefault"):
            dflt = a[1] if len(a) > 1 else None
            key = self.dkey(a[0])
            found, val, kk = self.dlookup(rec.d, key)
            if not found:
                if name == "pop" and len(a) < 2:
                    raise PyExc("KeyError")
                if name == "setdefault":
                    d = dict(rec.d)
                    d[key] = dflt
                    self.heap[o.id] = DictRec(d)
                return dflt
            if name == "pop":
                d = dict(rec.d)
                del d[kk]
                self.heap[o.id] = DictRec(d)
            return val
        if name == "update":
            d = dict(rec.d)
            if a:
                d.update(self.heap[a[0].id].d)
            d.update(k)
            self.heap[o.id] = DictRec(d)
            return None
        if name == "copy":
            return DictV(self.alloc(DictRec(dict(rec.d))))
        raise Unsupported("dict." + name)

    def dlookup(self, d, key):
        if isinstance(key, SStr):
            for k in d:
                if isinstance(k, str) and self.truth(self.compare("Eq", key, k)):
                    return True, d[k], k
            return False, None, None
        if key in d:
            return True, d[key], key
        return False, None, None

    # ------------------------------------------------------------------------------------------ comparison
    def streq(self, a, b):
        if isinstance(a, str) and isinstance(b, SStr):
            a, b = b, a
        if isinstance(b, SStr):
            if a is b:
                return True
            raise Unsupported("comparison of two symbolic strings")
        if not isinstance(b, str):
            return False
        if a.fold is not None:
            if a.fold.lower() != b.lower():
                return False
        elif b.upper() in a.excl:
            return False
        if a.op == "upper" and b != b.upper():
            return False
        if a.op == "lower" and b != b.lower():
            return False
        # exclusivity
        pre = "str:%s:%s:" % (a.name, a.op)
        for f in T.CTX:
            if f.kind == "bvar" and f.args[0].startswith(pre):
                return f.args[0] == pre + b
        return self.choose(T.bvar(pre + b))

    def compare(self, op, a, b):
        if isinstance(a, Junk) or isinstance(b, Junk):
            raise Unsupported("use of an unspecified value (%s)" % (a if isinstance(a, Junk) else b).why)
        if op in ("Is", "IsNot"):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b
            elif isinstance(a, Obj) and isinstance(b, Obj):
                r = a.id == b.id
            elif isinstance(a, Arr) and isinstance(b, Arr):
                raise Unsupported("identity of arrays")
            else:
                r = a is b
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, SB):
                return SB(Not(r.b)) if op == "NotIn" else r
            return r if op == "In" else not r
        if isinstance(a, (ListV, tuple)) and isinstance(b, Arr) or isinstance(b, (ListV, tuple)) and isinstance(a, Arr):
            a, b = self.tonum(a), self.tonum(b)
        if isinstance(a, (SStr, str)) or isinstance(b, (SStr, str)):
            if op not in ("Eq", "NotEq"):
                raise Unsupported("string ordering")
            if isinstance(a, str) and isinstance(b, str):
                r = a == b
            elif isinstance(a, SStr) or isinstance(b, SStr):
                if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
                    r = self.streq(a, b)
                else:
                    r = False
            elif isinstance(a, Arr) or isinstance(b, Arr):
                r = False
            else:
                r = False
            return r if op == "Eq" else not r
        if isinstance(a, bool):
            a = I(int(a))
        if isinstance(b, bool):
            b = I(int(b))
        if isinstance(a, SB):
            a = Num(T.b2p(a.b), "b")
        if isinstance(b, SB):
            b = Num(T.b2p(b.b), "b")
        if isinstance(a, Num) and isinstance(b, Num):
            x, y = a.p, b.p
            r = {"Eq": EQ, "NotEq": lambda p, q: Not(EQ(p, q)), "Lt": LT, "LtE": LE, "Gt": lambda p, q: LT(q, p),
                 "GtE": lambda p, q: LE(q, p)}[op](x, y)
            if r is T.TRUE:
                return True
            if r is T.FALSE:
                return False
            return SB(r)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, (Obj,)) or isinstance(b, (Obj,)):
                raise Unsupported("comparison of array and object")
            f = {"Eq": EQ, "NotEq": lambda p, q: Not(EQ(p, q)), "Lt": LT, "LtE": LE, "Gt": lambda p, q: LT(q, p),
                 "GtE": lambda p, q: LE(q, p)}[op]
            return self.ew(lambda p, q: T.b2p(f(p, q)), "b", a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op in ("Eq", "NotEq"):
            if len(a) != len(b):
                return op == "NotEq"
            for x, y in zip(a, b):
                if not self.truth(self.compare("Eq", x, y)):
                    return op == "NotEq"
            return op == "Eq"
        if isinstance(a, ListV) and isinstance(b, ListV) and op in ("Eq", "NotEq"):
            x, y = self.heap[a.id].items, self.heap[b.id].items
            if x is None or y is None:
                raise Unsupported("list comparison")
            return self.compare(op, tuple(x), tuple(y))
        if op in ("Eq", "NotEq"):
            kinds = (Num, Arr, tuple, ListV, DictV, Obj, Cls, Func, Builtin, Lib)
            if a is None or b is None:
                r = a is None and b is None
                if not r and (isinstance(a, Arr) or isinstance(b, Arr)):
                    raise Unsupported("array == None")
                return r if op == "Eq" else not r
            if isinstance(a, Lib) and isinstance(b, Lib):
                r = a.path == b.path
                return r if op == "Eq" else not r
            if isinstance(a, Builtin) and isinstance(b, Builtin):
                r = a.name == b.name
                return r if op == "Eq" else not r
            if isinstance(a, kinds) and isinstance(b, kinds) and type(a) is not type(b):
                return op == "NotEq"
            if isinstance(a, (Cls, Func)):
                return (a is b) == (op == "Eq")
            if isinstance(a, Obj):
                return (a.id == b.id) == (op == "Eq")
        if a is None or b is None or isinstance(a, (str, tuple)) or isinstance(b, (str, tuple)):
            raise PyExc("TypeError", "comparison")
        raise Unsupported("comparison %s of %s and %s" % (op, type(a).__name__, type(b).__name__))

    def contains(self, c, x):
        if isinstance(c, DictV):
            return self.dlookup(self.heap[c.id].d, self.dkey(x))[0]
        if isinstance(c, (tuple, ListV)):
            it = self.iterspec(c)
            if isinstance(it, list):
                for y in it:
                    if self.truth(self.compare("Eq", x, y)):
                        return True
                return False
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Range) and isinstance(x, Num) and c.step == 1:
            return SB(And(LE(c.start, x.p), LT(x.p, c.stop)))
        raise Unsupported("membership test")

    # ------------------------------------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Bound):
            if isinstance(f.func, Host):
                return f.func.f(f.self_, *args, **kw)
            return self.callfunc(f.func, [f.self_] + args, kw)
        if isinstance(f, Func):
            return self.callfunc(f, args, kw)
        if isinstance(f, Host):
            return f.f(*args, **kw)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Builtin):
            return self.builtin(f.name, args, kw)
        if isinstance(f, Lib):
            return self.libcall(f.path, args, kw)
        if isinstance(f, Obj):
            v, c = self.heap[f.id].cls.lookup("__call__")
            if c is not None:
                return self.callfunc(v, [f] + args, kw)
        if isinstance(f, Junk):
            raise Unsupported("call of an unspecified value (%s)" % f.why)
        if f is None or isinstance(f, (Num, str, tuple, Arr, bool)):
            raise PyExc("TypeError", "not callable")
        raise Unsupported("call of %s" % type(f).__name__)

    def instantiate(self, c, args, kw):
        o = Obj(self.alloc(ObjRec(c, {})))
        init, k = c.lookup("__init__")
        if any(isinstance(b, (Lib, Builtin)) and not (isinstance(b, Builtin) and b.name == "object") for x in c.mro() for b in x.bases):
            raise Unsupported("class %s derives from a library class" % c.name)
        if init is not None:
            self.callfunc(init, [o] + args, kw)
        elif args or kw:
            raise PyExc("TypeError", "takes no arguments")
        return o

    def callfunc(self, f, args, kw):
        h = self.hooks.get(id(f.node))
        if h is not None:
            return h(self, f, args, kw)
        if len(self.frames) > 60:
            raise Unsupported("recursion depth")
        node = f.node
        a = node.args
        env = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        pos = list(args)
        for i, nm in enumerate(params):
            if i < len(pos):
                env[nm] = pos[i]
                if nm in kw and nm not in [x.arg for x in a.posonlyargs]:
                    raise PyExc("TypeError", "multiple values for argument " + nm)
        rest = pos[len(params):]
        if a.vararg:
            env[a.vararg.arg] = tuple(rest)
        elif rest:
            raise PyExc("TypeError", "too many positional arguments")
        kw = dict(kw)
        nd = len(f.defaults)
        for i, nm in enumerate(params):
            if nm in env:
                continue
            if nm in kw:
                env[nm] = kw.pop(nm)
            elif i >= len(params) - nd:
                env[nm] = f.defaults[i - (len(params) - nd)]
            else:
                raise PyExc("TypeError", "missing argument " + nm)
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif x.arg in f.kwdefaults:
                env[x.arg] = f.kwdefaults[x.arg]
            else:
                raise PyExc("TypeError", "missing keyword argument " + x.arg)
        if a.kwarg:
            env[a.kwarg.arg] = DictV(self.alloc(DictRec(dict(kw))))
        elif kw:
            raise PyExc("TypeError", "unexpected keyword argument " + sorted(kw)[0])
        fr = Frame(env, f.module, f.cls, args[0] if (f.cls and args and f.static is None) else None, f.closure, f)
        fr.globals_ = set()
        if isinstance(node, ast.Lambda):
            self.frames.append(fr)
            try:
                return self.e(node.body, fr)
            finally:
                self.frames.pop()
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            raise Unsupported("generator function")
        q = "%s.%s" % (f.cls.name, f.name) if f.cls else f.name
        self.executed[(f.module.path, q)] = node.lineno
        self.frames.append(fr)
        try:
            r = self.block(node.body, fr)
        except Unsupported as u:
            if not getattr(u, "where", None):
                u.where = "%s:%d" % (f.module.path, fr.line)
            raise
        except PyExc as ex:
            if not getattr(ex, "where", None):
                ex.where = "%s:%d" % (f.module.path, fr.line)
            raise
        finally:
            self.frames.pop()
        return r.v if isinstance(r, Ret) else None

    # ------------------------------------------------------------------------------------------ builtins
    def length(self, v):
        if isinstance(v, Arr):
            if not v.shape:
                raise PyExc("TypeError", "len() of unsized object")
            return v.shape[0]
        if isinstance(v, (tuple, str)):
            return P(len(v))
        if isinstance(v, ListV):
            rec = self.heap[v.id]
            if rec.items is not None:
                return P(len(rec.items))
            return rec.length + len(rec.app)
        if isinstance(v, DictV):
            return P(len(self.heap[v.id].d))
        if isinstance(v, Range):
            return self.range_len(v)
        if isinstance(v, Bad):
            return v.n
        if isinstance(v, ClassSet):
            return v.count
        if isinstance(v, (Num, bool, SB)) or v is None or isinstance(v, (Obj, Func)):
            raise PyExc("TypeError", "object has no len()")
        raise Unsupported("len of %s" % type(v).__name__)

    def builtin(self, name, args, kw):
        if name in EXC_PARENT:
            return Exc(name, args[0] if args else "")
        if name == "len":
            return I(self.length(args[0]))
        if name == "range":
            a = [self.toint(x) for x in args]
            if len(a) == 1:
                return Range(0, a[0])
            st = 1
            if len(a) == 3:
                c = a[2].const()
                if c is None or c == 0:
                    raise Unsupported("symbolic range step")
                st = int(c)
            return Range(a[0], a[1], st)
        if name == "enumerate":
            st = args[1] if len(args) > 1 else kw.get("start", I(0))
            return IterV("enumerate", (args[0], st.p))
        if name == "zip":
            return IterV("zip", tuple(args))
        if name == "reversed":
            return IterV("reversed", (args[0],))
        if name == "map":
            if len(args) != 2:
                raise Unsupported("map")
            return IterV("map", (args[0], args[1]))
        if name == "isinstance":
            ts = args[1] if isinstance(args[1], tuple) else (args[1],)
            return any(self.isinst(args[0], t) for t in ts)
        if name == "issubclass":
            return args[1] in args[0].mro()
        if name == "int":
            v = args[0] if args else I(0)
            if isinstance(v, Num):
                return I(T.mk_app("trunc", v.p))
            if isinstance(v, bool):
                return I(int(v))
            if isinstance(v, Arr) and not v.shape:
                return I(T.mk_app("trunc", self.at(v, [])))
            if isinstance(v, (Bad, tuple, ListV)) or v is None:
                raise PyExc("TypeError", "int()")
            raise Unsupported("int()")
        if name == "float":
            v = args[0] if args else F(0)
            if isinstance(v, Num):
                return F(v.p)
            if isinstance(v, bool):
                return F(int(v))
            if isinstance(v, Arr):
                if all(s.const() == 1 for s in v.shape):
                    return F(self.at(v, [T.ZERO] * len(v.shape)))
                if self.choose(And(*[EQ(s, 1) for s in v.shape])):
                    return F(self.at(v, [T.ZERO] * len(v.shape)))
                raise PyExc("TypeError", "only length-1 arrays")
            if isinstance(v, (Bad, tuple, ListV, DictV, Obj)) or v is None:
                raise PyExc("TypeError", "float()")
            if isinstance(v, str):
                try:
                    return F(P(Fraction(v)))
                except ValueError:
                    raise PyExc("ValueError", "float()")
            if isinstance(v, SStr):
                raise PyExc("ValueError", "float()")
            raise Unsupported("float()")
        if name == "bool":
            return self.truth(args[0]) if args else False
        if name == "abs":
            return self.ew1(lambda p: T.mk_app("abs", p), args[0])
        if name == "pow":
            return self.binop("Pow", args[0], args[1])
        if name == "divmod":
            return (self.binop("FloorDiv", *args), self.binop("Mod", *args))
        if name == "round":
            if len(args) == 1:
                return I(T.mk_app("rint", args[0].p))
            raise Unsupported("round")
        if name in ("max", "min"):
            return self.pymaxmin(name, args, kw)
        if name == "sum":
            it = self.iterspec(args[0])
            acc = args[1] if len(args) > 1 else kw.get("start", I(0))
            if isinstance(it, list):
                for x in it:
                    acc = self.binop("Add", acc, x)
                return acc
            k, f = it
            i = T.fresh("s")
            with T.assuming(*T.inrange(P(i), k)):
                v = f(P(i))
            if isinstance(v, Num):
                r = Num(T.mk_sum(i, k, v.p), v.t)
            elif isinstance(v, SB):
                r = I(T.mk_sum(i, k, T.b2p(v.b)))
            elif isinstance(v, Arr):
                r = self.mkarr(v.shape, lambda *ix: T.mk_sum(i, k, self.at(v, ix)), self.dt(v))
            else:
                raise Unsupported("sum")
            return self.binop("Add", acc, r)
        if name == "any" or name == "all":
            it = self.iterspec(args[0])
            if isinstance(it, list):
                for x in it:
                    if self.truth(x) == (name == "any"):
                        return name == "any"
                return name == "all"
            k, f = it
            i = T.fresh("s")
            with T.assuming(*T.inrange(P(i), k)):
                v = f(P(i))
            b = v.b if isinstance(v, SB) else (T.TRUE if v is True else T.FALSE if v is False else bool_of(v.p))
            if name == "any":
                return SB(LT(0, T.mk_sum(i, k, T.b2p(b))))
            return SB(EQ(T.mk_sum(i, k, T.b2p(Not(b))), 0))
        if name in ("list", "tuple", "iter"):
            if not args:
                return () if name == "tuple" else ListV(self.alloc(ListRec([])))
            it = self.iterspec(args[0])
            if isinstance(it, list):
                return tuple(it) if name == "tuple" else ListV(self.alloc(ListRec(it)))
            return ListV(self.alloc(ListRec(None, P(it[0]), it[1])))
        if name in ("set", "frozenset"):
            if args and isinstance(args[0], (Arr, ListV)):
                return self.classset(args[0])
            if not args:
                return ()
            it = self.iterspec(args[0])
            if isinstance(it, list) and all(isinstance(x, str) for x in it):
                return tuple(sorted(set(it)))
            raise Unsupported("set()")
        if name == "sorted":
            if isinstance(args[0], ClassSet):
                return args[0]
            if isinstance(args[0], Arr) and len(args[0].shape) == 1 and not kw:
                return self.np_sort(args[0])
            it = self.iterspec(args[0])
            if isinstance(it, list) and all(isinstance(x, str) for x in it):
                return ListV(self.alloc(ListRec(sorted(it))))
            if isinstance(it, list) and all(isinstance(x, Num) and x.const() is not None for x in it):
                return ListV(self.alloc(ListRec(sorted(it, key=lambda x: x.const()))))
            raise Unsupported("sorted")
        if name in ("str", "repr", "format"):
            if args and isinstance(args[0], (str, SStr)) and name == "str":
                return args[0]
            return OpaqueStr()
        if name == "print":
            return None
        if name == "getattr":
            try:
                return self.getattr(args[0], args[1])
            except PyExc as ex:
                if len(args) > 2 and exc_is(ex.name, "AttributeError"):
                    return args[2]
                raise
        if name == "hasattr":
            try:
                self.getattr(args[0], args[1])
                return True
            except PyExc as ex:
                if exc_is(ex.name, "AttributeError"):
                    return False
                raise
        if name == "setattr":
            self.setattr(args[0], args[1], args[2])
            return None
        if name == "type":
            v = args[0]
            if isinstance(v, Obj):
                return self.heap[v.id].cls
            if isinstance(v, Num) and not v.np:
                return Builtin("int" if v.t == "i" else "float")
            if isinstance(v, Arr):
                return Lib("numpy.ndarray")
            if isinstance(v, (str, SStr)):
                return Builtin("str")
            if isinstance(v, ListV):
                return Builtin("list")
            if isinstance(v, tuple):
                return Builtin("tuple")
            if isinstance(v, bool):
                return Builtin("bool")
            raise Unsupported("type()")
        if name == "super":
            return ("super", args[0], args[1])
        if name == "callable":
            return isinstance(args[0], (Func, Bound, Host, Builtin, Cls, Lib))
        if name == "dict":
            d = {}
            if args:
                if isinstance(args[0], DictV):
                    d.update(self.heap[args[0].id].d)
                else:
                    it = self.iterspec(args[0])
                    if not isinstance(it, list):
                        raise Unsupported("dict()")
                    for p in it:
                        k, v = self.unpack(p, 2)
                        d[self.dkey(k)] = v
            d.update(kw)
            return DictV(self.alloc(DictRec(d)))
        if name == "slice":
            a = list(args)
            if len(a) == 1:
                return Slice(None, a[0], None)
            return Slice(a[0], a[1], a[2] if len(a) > 2 else None)
        if name == "complex":
            raise Unsupported("complex")
        raise Unsupported("builtin " + name)

    def pymaxmin(self, name, args, kw):
        if kw:
            raise Unsupported(name + " with keywords")
        if len(args) == 1:
            it = self.iterspec(args[0])
        else:
            it = list(args)
        if isinstance(it, list):
            if not it:
                raise PyExc("ValueError", "empty")
            acc = it[0]
            for x in it[1:]:
                if not (isinstance(acc, (Num,)) and isinstance(x, (Num,))):
                    raise Unsupported(name)
                a, b = acc.p, x.p
                d = T.decide(LE(a, b))
                t = acc.t if acc.t == x.t else "f"
                if d is True:
                    r = b if name == "max" else a
                elif d is False:
                    r = a if name == "max" else b
                else:
                    r = maxmin(name, a, b)
                acc = Num(r, t)
            return acc
        k, f = it
        if not self.choose(LE(1, k)):
            raise PyExc("ValueError", "empty")
        i = T.fresh("s")
        with T.assuming(*T.inrange(P(i), k)):
            v = f(P(i))
        if not isinstance(v, Num):
            raise Unsupported(name)
        return Num(T.mk_big(name, [(i, P(k))], (v.p,), (), v.t == "i"), v.t)

    def isinst(self, v, t):
        if isinstance(v, Junk):
            raise Unsupported("use of an unspecified value (%s)" % v.why)
        if isinstance(t, Cls):
            return isinstance(v, Obj) and t in self.heap[v.id].cls.mro()
        nm = t.name if isinstance(t, Builtin) else t.path
        if nm == "int":
            return (isinstance(v, Num) and v.t == "i" and not v.np) or isinstance(v, bool)
        if nm == "float":
            return isinstance(v, Num) and v.t == "f"
        if nm == "bool":
            return isinstance(v, bool) or (isinstance(v, SB))
        if nm == "str":
            return isinstance(v, (str, SStr, OpaqueStr))
        if nm == "list":
            return isinstance(v, ListV) or isinstance(v, Bad)
        if nm == "tuple":
            return isinstance(v, tuple)
        if nm == "dict":
            return isinstance(v, DictV)
        if nm == "complex":
            return False
        if nm == "object":
            return True
        if nm == "type":
            return isinstance(v, Cls)
        if nm == "numpy.ndarray":
            return isinstance(v, Arr)
        if nm in ("numpy.integer", "numpy.int64", "numpy.int32", "numpy.signedinteger"):
            return isinstance(v, Num) and v.np and v.t == "i"
        if nm in ("numpy.floating", "numpy.float64", "numpy.number", "numpy.generic", "numpy.bool_"):
            if nm == "numpy.float64":
                return isinstance(v, Num) and v.np and v.t == "f"
            if nm == "numpy.bool_":
                return isinstance(v, SB)
            return isinstance(v, Num) and v.np
        if nm in ("numbers.Number", "numbers.Real"):
            return isinstance(v, (Num, bool))
        if nm in ("numbers.Integral",):
            return (isinstance(v, Num) and v.t == "i") or isinstance(v, bool)
        if nm in ("set", "frozenset"):
            return isinstance(v, ClassSet)
        if nm in ("collections.abc.Iterable", "collections.abc.Sequence"):
            return isinstance(v, (ListV, tuple)) or (isinstance(v, Arr) and nm.endswith("Iterable"))
        raise Unsupported("isinstance %s" % nm)

    def toint(self, v):
        if isinstance(v, Num):
            if v.t == "i" or v.p.isint and v.t == "b":
                return v.p
            if v.t == "f":
                raise PyExc("TypeError", "float used as an integer")
            return v.p
        if isinstance(v, bool):
            return P(int(v))
        if isinstance(v, SB):
            return T.b2p(v.b)
        if v is None or isinstance(v, (str, tuple, ListV)):
            raise PyExc("TypeError", "not an integer")
        if isinstance(v, Arr) and not v.shape:
            return self.at(v, [])
        if isinstance(v, Junk):
            raise Unsupported("use of an unspecified value (%s)" % v.why)
        raise Unsupported("integer from %s" % type(v).__name__)

    # ------------------------------------------------------------------------------------------ items
    def getitem(self, o, ix):
        if isinstance(o, Arr):
            return self.arr_get(o, ix)
        if isinstance(o, (tuple, ListV, str)):
            if isinstance(o, ListV):
                rec = self.heap[o.id]
                items = rec.items
                if items is None:
                    return self.symlist_get(rec, ix)
            else:
                items = list(o)
            if isinstance(ix, Slice):
                vals = []
                for x in (ix.a, ix.b, ix.c):
                    if x is None:
                        vals.append(None)
                    else:
                        c = self.toint(x).const()
                        if c is None:
                            raise Unsupported("symbolic slice of a concrete list")
                        vals.append(int(c))
                r = items[slice(*vals)]
                if isinstance(o, str):
                    return "".join(r)
                return tuple(r) if isinstance(o, tuple) else ListV(self.alloc(ListRec(r)))
            if isinstance(ix, (tuple, str, Arr, ListV)):
                if isinstance(ix, Arr):
                    raise Unsupported("list index")
                raise PyExc("TypeError", "list indices must be integers")
            c = self.toint(ix).const()
            if c is None:
                return self.select(items, self.toint(ix))
            i = int(c)
            if not -len(items) <= i < len(items):
                raise PyExc("IndexError")
            return items[i]
        if isinstance(o, DictV):
            f, v, k = self.dlookup(self.heap[o.id].d, self.dkey(ix))
            if not f:
                raise PyExc("KeyError")
            return v
        if isinstance(o, Num):
            raise PyExc("IndexError" if o.np else "TypeError", "not subscriptable")
        if isinstance(o, Junk):
            raise Unsupported("use of an unspecified value (%s)" % o.why)
        if isinstance(o, Lib) and o.path in ("numpy.c_", "numpy.r_"):
            raise Unsupported(o.path)
        if isinstance(o, Obj):
            v, c = self.heap[o.id].cls.lookup("__getitem__")
            if c is not None:
                return self.callfunc(v, [o, ix], {})
        if isinstance(o, Bad):
            raise Unsupported("element of an unconvertible sequence")
        if o is None or isinstance(o, (bool, Func, Cls)):
            raise PyExc("TypeError", "not subscriptable")
        raise Unsupported("subscript of %s" % type(o).__name__)

    def select(self, items, i):
        n = len(items)
        for j in range(n):
            if self.choose(EQ(i, j)):
                return items[j]
        for j in range(n):
            if self.choose(EQ(i, j - n)):
                return items[j]
        raise PyExc("IndexError")

    def symlist_get(self, rec, ix):
        if rec.app:
            raise Unsupported("reading a list under construction")
        if isinstance(ix, Slice):
            s, ln, st = self.slice_bounds(ix, rec.length)
            if st == 1:
                return ListV(self.alloc(ListRec(None, ln, lambda k: rec.elem(s + k))))
            if st == -1:
                return ListV(self.alloc(ListRec(None, ln, lambda k: rec.elem(s - k))))
            raise Unsupported("list slice step")
        i = self.norm_index(self.toint(ix), rec.length)
        return rec.elem(i)

    def setitem(self, o, ix, v):
        if isinstance(o, Arr):
            return self.arr_set(o, ix, v)
        if isinstance(o, ListV):
            rec = self.heap[o.id]
            if rec.items is None or isinstance(ix, Slice):
                raise Unsupported("list item assignment")
            c = self.toint(ix).const()
            if c is None:
                raise Unsupported("list item assignment at a symbolic index")
            i = int(c)
            if not -len(rec.items) <= i < len(rec.items):
                raise PyExc("IndexError")
            items = list(rec.items)
            items[i] = v
            self.heap[o.id] = ListRec(items)
            return
        if isinstance(o, DictV):
            d = dict(self.heap[o.id].d)
            d[self.dkey(ix)] = v
            self.heap[o.id] = DictRec(d)
            return
        if isinstance(o, (tuple, Num, str)) or o is None:
            raise PyExc("TypeError", "item assignment")
        raise Unsupported("item assignment on %s" % type(o).__name__)


_an = {}


def assigned_names(node):
    r = _an.get(id(node))
    if r is None:
        r = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                r.add(x.id)
        _an[id(node)] = r
    return r


from .npmod import ClassSet, bool_of, maxmin  # noqa: E402
