"""if statements inside a symbolic loop: both branches are executed and the states joined (if-then-else values), instead of
following every combination of branches separately.  Falls back to separate paths when the states cannot be joined."""
import ast

from . import terms as T
from .terms import P, And, Or, Not, EQ, mk_ite
from .core import Num, SB, Arr, Obj, ListV, DictV, ObjRec, BufRec, ListRec, DictRec


class NoJoin(Exception):
    pass


def exits(st):
    """the branches contain statements that leave the if"""
    e = getattr(st, "_exits", None)
    if e is None:
        todo = list(st.body) + list(st.orelse)
        e = False
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise, ast.Assert)):
                e = True
            if not isinstance(x, (ast.FunctionDef, ast.Lambda)):
                todo += list(ast.iter_child_nodes(x))
        st._exits = e
    return e


def join(I, b, st, fr, dec):
    nd = len(I.defs)
    paths = []
    base = len(T.CTX)
    old = dict(fr.env)
    for c, blk in ((b, st.body), (Not(b), st.orelse)):
        T.CTX.append(c)
        try:
            ps = I.explore(lambda: I.block(blk, fr), loop=dec.loop, envs=[fr.env])
        finally:
            del T.CTX[base:]
        if any(p.kind != "ret" or p.value is not None for p in ps):
            del I.defs[nd:]
            return False
        for p in ps:
            p.conds = [c] + p.conds
        paths += ps
    if not paths:
        del I.defs[nd:]
        return False
    try:
        heap, env = Join(I, paths).run()
    except NoJoin:
        del I.defs[nd:]
        return False
    I.heap = heap
    fr.env.clear()
    fr.env.update(env)
    return True


class Join:
    def __init__(self, I, paths):
        self.I, self.paths = I, paths
        self.conds = [And(*p.conds) for p in paths]
        self.before = I.heap
        self.new = {}

    def run(self):
        ps = self.paths
        heap = {}
        env = {}
        ids = {}
        for p in ps:
            for i in p.heap:
                ids[i] = 1
        for k in ps[0].env[0]:
            if not all(k in p.env[0] for p in ps):
                raise NoJoin()
        if any(set(p.env[0]) != set(ps[0].env[0]) for p in ps):
            raise NoJoin()
        for k in ps[0].env[0]:
            env[k] = self.val([p.env[0][k] for p in ps])
        for i in ids:
            have = [p for p in ps if i in p.heap]
            if len(have) < len(ps):
                if i in self.before:
                    raise NoJoin()
                # allocated in one branch only
                heap[i] = have[0].heap[i]
                continue
            heap[i] = self.rec([p.heap[i] for p in ps])
        heap.update(self.new)
        return heap, env

    def ite(self, vals):
        r = vals[-1]
        if all(v is r for v in vals):
            return r
        for c, v in list(zip(self.conds, vals))[-2::-1]:
            r = mk_ite(c, v, r)
        return r

    def rec(self, rs):
        r = rs[0]
        if all(x is r for x in rs):
            return r
        if any(type(x) is not type(r) for x in rs):
            raise NoJoin()
        if isinstance(r, BufRec):
            if any(x.dt != r.dt or x.ro != r.ro or len(x.shape) != len(r.shape) for x in rs):
                raise NoJoin()
            if any(a is not b for x in rs for a, b in zip(x.shape, r.shape)):
                raise NoJoin()
            bodies = [x.body if x.formals == r.formals else T.subst(x.body, {o.name: P(n) for o, n in zip(x.formals, r.formals)}) for x in rs]
            return r.with_body(self.ite(bodies))
        if isinstance(r, ObjRec):
            if any(x.cls is not r.cls or set(x.attrs) != set(r.attrs) for x in rs):
                raise NoJoin()
            return ObjRec(r.cls, {k: self.val([x.attrs[k] for x in rs]) for k in r.attrs})
        if isinstance(r, ListRec):
            if any(x.items is None or r.items is None or len(x.items) != len(r.items) for x in rs):
                raise NoJoin()
            return ListRec([self.val([x.items[j] for x in rs]) for j in range(len(r.items))], r.length, r.elem, r.app)
        if isinstance(r, DictRec):
            if any(set(x.d) != set(r.d) for x in rs):
                raise NoJoin()
            return DictRec({k: self.val([x.d[k] for x in rs]) for k in r.d})
        raise NoJoin()

    def val(self, vs):
        v = vs[0]
        if all(x is v for x in vs):
            return v
        if all(isinstance(x, Num) for x in vs):
            t = v.t
            for x in vs:
                if x.t != t:
                    t = "f" if "f" in (x.t, t) else ("f4" if "f4" in (x.t, t) else "i")
            return Num(self.ite([x.p for x in vs]), t, any(x.np for x in vs))
        if all(isinstance(x, (bool, SB)) for x in vs):
            bs = [(T.TRUE if x else T.FALSE) if isinstance(x, bool) else x.b for x in vs]
            if all(x is bs[0] for x in bs):
                return v
            return SB(Or(*[And(c, x) for c, x in zip(self.conds, bs)]))
        if all(isinstance(x, str) for x in vs) and all(x == v for x in vs):
            return v
        if all(isinstance(x, tuple) for x in vs) and all(len(x) == len(v) for x in vs):
            return tuple(self.val([x[j] for x in vs]) for j in range(len(v)))
        for t in (Obj, ListV, DictV):
            if all(isinstance(x, t) and x.id == v.id for x in vs):
                return v
        if all(isinstance(x, Arr) for x in vs):
            if all(x.buf == v.buf and x.shape == v.shape and x.vmap == v.vmap for x in vs):
                return v
            return self.arrays(vs)
        raise NoJoin()

    def arrays(self, vs):
        """fresh arrays of the same shape, each referenced from here only: a new array"""
        v = vs[0]
        hs = [p.heap for p in self.paths]
        if any(len(x.shape) != len(v.shape) for x in vs):
            raise NoJoin()
        for x in vs:
            if any(a is not b and T.decide(EQ(a, b)) is not True for a, b in zip(x.shape, v.shape)):
                raise NoJoin()
        dts = {h[x.buf].dt for x, h in zip(vs, hs)}
        if len(dts) > 1:
            raise NoJoin()
        for x, p in zip(vs, self.paths):
            if x.buf in self.before or refs(p, x.buf) != 1:
                raise NoJoin()
        old = self.I.heap
        # parallel values computed in each branch's heap
        fs = [T.vatom("$j%d.%d" % (self.I.depth, j), True) for j in range(len(v.shape))]
        facts = []
        for f, s in zip(fs, v.shape):
            facts += T.inrange(P(f), s)
        with T.assuming(*facts):
            vals = []
            for c, x, h in zip(self.conds, vs, hs):
                with T.assuming(c):
                    vals.append(self.I.at(x, [P(f) for f in fs], h))
            body = self.ite(vals)
        a = self.I.mkarr(v.shape, lambda *ix: T.subst(body, {f.name: P(i) for f, i in zip(fs, ix)}), dts.pop())
        self.new[a.buf] = self.I.heap[a.buf]
        del self.I.heap[a.buf]
        return a


def refs(p, buf):
    n = 0

    def scan(v):
        nonlocal n
        if isinstance(v, Arr):
            n += v.buf == buf
        elif isinstance(v, (tuple, list)):
            for x in v:
                scan(x)
        elif isinstance(v, dict):
            for x in v.values():
                scan(x)
    for e in p.env:
        scan(e)
    for r in p.heap.values():
        if isinstance(r, ObjRec):
            scan(r.attrs)
        elif isinstance(r, ListRec):
            if r.items is None:
                n += 2      # lazily defined elements: assume a reference
            else:
                scan(r.items)
            scan(r.app)
        elif isinstance(r, DictRec):
            scan(r.d)
    return n
