"""Values, heap and path exploration of the symbolic executor."""
from . import terms as T
from . import logic as L
from .terms import P, Poly, EQ, LE, LT, Not, And, Or, mk_ite


class Unsupported(Exception):
    """construct outside the verifier's reach: the obligation is undecided"""


class PyExc(Exception):
    """a Python exception raised by the interpreted program"""

    def __init__(self, name, msg=""):
        super().__init__(name, msg)
        self.name, self.msg = name, msg


class Infeasible(Exception):
    pass


class TooMany(Unsupported):
    pass


class Hoist(Exception):
    def __init__(self, owner, b):
        self.owner, self.b = owner, b


EXC_PARENT = {"ValueError": "Exception", "TypeError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
              "LookupError": "Exception", "AttributeError": "Exception", "AssertionError": "Exception",
              "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "OverflowError": "ArithmeticError",
              "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "NameError": "Exception",
              "UnboundLocalError": "NameError", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception",
              "LinAlgError": "ValueError", "AxisError": "ValueError", "UFuncTypeError": "TypeError",
              "StopIteration": "Exception", "DeprecationWarning": "Warning", "Warning": "Exception",
              "UserWarning": "Warning", "RuntimeWarning": "Warning", "FloatingPointError": "ArithmeticError",
              "UnicodeDecodeError": "ValueError", "Exception": "BaseException", "BaseException": None}


def exc_is(name, parent):
    while name is not None:
        if name == parent:
            return True
        name = EXC_PARENT.get(name)
    return False


# -------------------------------------------------------------------------------------------------------- values
class Num:
    __slots__ = ("p", "t", "np")

    def __init__(self, p, t="f", np=False):
        self.p = P(p)
        self.t = t
        self.np = np

    def __repr__(self):
        return "Num(%r,%s)" % (self.p, self.t)

    def const(self):
        c = self.p.const()
        return c


def I(x):
    return Num(P(x), "i")


def F(x):
    return Num(P(x), "f")


class SB:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


class Arr:
    """a view on a heap buffer; vmap[j] = (view dim or None, offset, stride) for every buffer dimension"""
    __slots__ = ("buf", "shape", "vmap")

    def __init__(self, buf, shape, vmap):
        self.buf, self.shape, self.vmap = buf, tuple(shape), tuple(vmap)

    def key(self):
        return (self.buf, self.shape, self.vmap)

    def __repr__(self):
        return "Arr(#%d,%s)" % (self.buf, list(self.shape))


class Obj:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class ListV:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class DictV:
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id


class SStr:
    """symbolic string; fold: the string is known to equal this constant up to letter case; excl: its upper-case
    form is known to be none of these"""
    __slots__ = ("name", "fold", "excl", "op")

    def __init__(self, name, fold=None, excl=frozenset(), op=""):
        self.name, self.fold, self.excl, self.op = name, fold, excl, op


class OpaqueStr:
    pass


class Range:
    def __init__(self, start, stop, step=1):
        self.start, self.stop, self.step = P(start), P(stop), step


class IterV:
    """kind: enumerate, zip, reversed"""

    def __init__(self, kind, args):
        self.kind, self.args = kind, args


class Slice:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Junk:
    """a value the contract does not pin down; using it is outside the verifier's reach"""

    def __init__(self, why):
        self.why = why


class Undef:
    pass


class Maybe(Junk):
    """a location a loop body assigns, before that assignment"""


class MaybeRead(Unsupported):
    pass


class Bad:
    """a sequence of `n` things that cannot be converted to numbers"""

    def __init__(self, n):
        self.n = P(n)


class Func:
    def __init__(self, node, module, cls=None, closure=None, name=None, defaults=None, kwdefaults=None):
        self.node, self.module, self.cls, self.closure = node, module, cls, closure
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults, self.kwdefaults = defaults or [], kwdefaults or {}
        self.static = None

    def where(self):
        return "%s:%d" % (self.module.path, self.node.lineno)


class Host:
    """a function implemented by the verifier"""

    def __init__(self, f, name="host"):
        self.f, self.name = f, name


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Cls:
    def __init__(self, name, bases, attrs, module):
        self.name, self.bases, self.attrs, self.module = name, bases, attrs, module

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, Cls) else []):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def __repr__(self):
        return "<class %s>" % self.name


class Module:
    def __init__(self, name, path):
        self.name, self.path, self.env = name, path, {}


class Lib:
    """numpy / scipy / math / warnings namespaces by dotted path"""

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<lib %s>" % self.path


class Builtin:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<builtin %s>" % self.name


class Exc:
    def __init__(self, name, msg=""):
        self.name, self.msg = name, msg


# -------------------------------------------------------------------------------------------------------- heap records
class ObjRec:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class BufRec:
    __slots__ = ("shape", "formals", "body", "dt", "tag", "ro")

    def __init__(self, shape, formals, body, dt, tag=None, ro=None):
        self.shape, self.formals, self.body, self.dt, self.tag, self.ro = shape, formals, body, dt, tag, ro

    def with_body(self, body):
        return BufRec(self.shape, self.formals, body, self.dt, self.tag, self.ro)


class ListRec:
    """items: list of values, or symbolic: length poly + elem(k) -> value"""
    __slots__ = ("items", "length", "elem", "app")

    def __init__(self, items=None, length=None, elem=None, app=()):
        self.items, self.length, self.elem, self.app = items, length, elem, app


class FrozenListRec(ListRec):
    """a row of a nested list of symbolic length: read only here"""
    __slots__ = ()


class DictRec:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class Path:
    def __init__(self, conds, kind, value, heap, env=None):
        self.conds, self.kind, self.value, self.heap, self.env = conds, kind, value, heap, env

    def cond(self):
        return And(*self.conds)


class Decider:
    def __init__(self, prefix, loop=None):
        self.prefix, self.pos, self.trace, self.alts, self.loop = prefix, 0, [], [], loop

    def choose(self, b):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            self.alts.append(self.trace + [False])
            if self.loop is not None:
                self.loop.log.append(b)
        self.pos += 1
        self.trace.append(v)
        T.CTX.append(b if v else Not(b))
        return v


class Core:
    MAXPATHS = 600

    def __init__(self):
        self.heap = {}
        self.nid = 1
        self.rng = self.alloc(ObjRec(None, {"pos": Num(T.ZERO, "i")}))     # position in numpy's global random stream
        self.deciders = []
        self.depth = 0
        self.defs = []          # definedness obligations (bool, facts, where)
        self.steps = 0

    # ---- heap
    def alloc(self, rec):
        i = self.nid
        self.nid += 1
        self.heap[i] = rec
        return i

    # ---- choice
    def choose(self, b):
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        d = T.decide(b)
        if d is not None:
            return d
        if not self.deciders:
            raise Unsupported("undetermined condition outside a path exploration: %r" % (b,))
        dec = self.deciders[-1]
        if dec.loop is not None and not dec.loop.depends(b):
            raise Hoist(dec.loop, b)
        return dec.choose(b)

    def explore(self, thunk, loop=None, envs=(), maxpaths=None):
        base = len(T.CTX)
        heap0 = dict(self.heap)
        env0 = [dict(e) for e in envs]
        out = []
        work = [[]]
        while work:
            prefix = work.pop()
            del T.CTX[base:]
            self.heap = dict(heap0)
            for e, s in zip(envs, env0):
                e.clear()
                e.update(s)
            dec = Decider(prefix, loop)
            self.deciders.append(dec)
            try:
                try:
                    kind, val = "ret", thunk()
                except PyExc as ex:
                    kind, val = "exc", ex
            except Infeasible:
                self.deciders.pop()
                work.extend(dec.alts)
                continue
            except BaseException:
                self.deciders.pop()
                del T.CTX[base:]
                raise
            self.deciders.pop()
            out.append(Path(list(T.CTX[base:]), kind, val, self.heap, [dict(e) for e in envs]))
            work.extend(dec.alts)
            if len(out) + len(work) > (maxpaths or self.MAXPATHS):
                del T.CTX[base:]
                raise TooMany("too many paths")
        del T.CTX[base:]
        self.heap = dict(heap0)
        for e, s in zip(envs, env0):
            e.clear()
            e.update(s)
        return out

    # ---- arrays
    def mkarr(self, shape, f, dt="f", tag=None):
        shape = tuple(P(s) for s in shape)
        formals = tuple(T.vatom("$%d.%d" % (self.depth, j), True) for j in range(len(shape)))
        facts = []
        for v, s in zip(formals, shape):
            facts += T.inrange(P(v), s)
        self.depth += 1
        try:
            with T.assuming(*facts):
                body = P(f(*[P(v) for v in formals]))
        finally:
            self.depth -= 1
        i = self.alloc(BufRec(shape, formals, body, dt, tag))
        return Arr(i, shape, [(j, T.ZERO, 1) for j in range(len(shape))])

    def dt(self, a):
        return self.heap[a.buf].dt

    def bindex(self, a, idx):
        out = []
        for vd, off, st in a.vmap:
            out.append(off if vd is None else off + (idx[vd] if st == 1 else idx[vd] * P(st)))
        return out

    def at(self, a, idx, heap=None):
        rec = (heap or self.heap)[a.buf]
        b = self.bindex(a, [P(i) for i in idx])
        return T.subst(rec.body, {v.name: x for v, x in zip(rec.formals, b)})

    def store(self, a, valf, valdt, where=""):
        """a[...] = valf(*view index)"""
        rec = self.heap[a.buf]
        if rec.ro:
            raise Unsupported("in-place write to %s" % rec.ro)
        conds = []
        idx = [None] * len(a.shape)
        formals = [T.vatom("$%d.%d" % (self.depth, j), True) for j in range(len(rec.shape))]
        self.depth += 1
        base = []
        for v, s in zip(formals, rec.shape):
            base += T.inrange(P(v), s)
        try:
            with T.assuming(*base):
                for v, (vd, off, st) in zip(formals, a.vmap):
                    if vd is None:
                        conds.append(EQ(P(v), off))
                    else:
                        if st not in (1, -1):
                            raise Unsupported("write through a strided view")
                        x = (P(v) - off) * P(st)
                        idx[vd] = x
                        conds += T.inrange(x, a.shape[vd])
                for j, s in enumerate(a.shape):
                    if idx[j] is None:
                        if P(s).const() != 1 and T.decide(EQ(s, 1)) is not True:
                            raise Unsupported("write to a broadcast view")
                        idx[j] = T.ZERO
                conds = [c for c in conds if T.decide(c) is not True]
                cond = And(*conds)
                old = T.subst(rec.body, {o.name: P(n) for o, n in zip(rec.formals, formals)})
                with T.assuming(*conds):
                    new = self.cast(P(valf(*idx)), valdt, rec.dt)
                body = mk_ite(cond, new, old)
        finally:
            self.depth -= 1
        self.heap[a.buf] = BufRec(rec.shape, tuple(formals), body, rec.dt, rec.tag, rec.ro)

    def cast(self, p, frm, to):
        if frm == to:
            return p
        if to in ("i",):
            if frm == "b":
                return p
            return T.mk_app("trunc", p)
        if to == "f4":
            return p if p.isconst() and p.const() in (0, 1) else T.app("rnd32", p)
        if to == "b":
            return T.b2p(Not(T.eq0(p)))
        return p

    def view_index(self, a, vd, i):
        """fix view dimension vd at index i"""
        vm = []
        for d, off, st in a.vmap:
            if d is None or d < vd:
                vm.append((d, off, st))
            elif d == vd:
                vm.append((None, off + i * P(st), 1))
            else:
                vm.append((d - 1, off, st))
        return Arr(a.buf, a.shape[:vd] + a.shape[vd + 1:], vm)

    def view_slice(self, a, vd, start, length, step=1):
        vm = []
        for d, off, st in a.vmap:
            if d == vd:
                vm.append((d, off + start * P(st), st * step))
            else:
                vm.append((d, off, st))
        return Arr(a.buf, a.shape[:vd] + (P(length),) + a.shape[vd + 1:], vm)

    def view_newaxis(self, a, vd):
        vm = [(d if d is None or d < vd else d + 1, off, st) for d, off, st in a.vmap]
        return Arr(a.buf, a.shape[:vd] + (T.ONE,) + a.shape[vd:], vm)

    def view_transpose(self, a, perm):
        invp = {p: i for i, p in enumerate(perm)}
        vm = [(None if d is None else invp[d], off, st) for d, off, st in a.vmap]
        return Arr(a.buf, [a.shape[p] for p in perm], vm)
