"""Loop rule of the executor.

A loop with a symbolic trip count is summarised exactly: every location the body modifies becomes a function
h(k, ...) of the iteration number, defined by h(0) = value on entry and h(k+1) = value the body computes from h(k).
Closed forms (accumulation, element-wise store, last value, shift register) are guessed from the shape of the step and
then *verified* by induction (base and step obligations); what has no closed form stays a recursive function, about
which the prover reasons by induction.  No invariant is assumed.
"""
import ast

from . import terms as T
from . import logic as L
from . import induct
from .terms import P, Poly, EQ, LE, LT, Not, And, Or, mk_ite
from .core import *


FREEZE = int(__import__('os').environ.get('PYVC_FREEZE', '2'))


class LoopToken:
    def __init__(self, kname, syms):
        self.kname, self.syms = kname, syms
        self.log = []           # undecided conditions met in the body

        self.hoist = []         # conditions independent of the loop

    def depends(self, b):
        # what the loop changes is not known before its body was explored: such conditions are split on afterwards
        if not (self.kname in b.fv or not b.syms.isdisjoint(self.syms)):
            self.hoist.append(b)
        return True


class NeedPositive(Exception):
    pass



class Missing:
    pass


MISSING = Missing()


class Loc:
    __slots__ = ("key", "kind", "sym", "formals", "shape", "isint", "t", "np", "m", "n0", "pre", "init", "step", "closed",
                 "finalview", "bufkeys", "aux", "guess", "noguess")

    def __init__(self, key, kind):
        self.key, self.kind = key, kind
        self.formals, self.shape, self.aux = (), (), None
        self.finalview = None
        self.closed = None
        self.guess = None
        self.noguess = False


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Num) and isinstance(b, Num):
        return a.p is b.p and a.t == b.t and a.np == b.np
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.key() == b.key()
    if isinstance(a, (ListV, DictV, Obj)) and type(a) is type(b):
        return a.id == b.id
    if isinstance(a, SB) and isinstance(b, SB):
        return a.b is b.b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.func is b.func and same(a.self_, b.self_)
    return False


class LoopMixin:
    loop_depth = 0
    loop_obls = None        # list of (description, how)

    # ------------------------------------------------------------------------------------------ entry points
    def template(self, body, K, env=None):
        lst = ListV(self.alloc(ListRec([])))

        class FR:
            pass
        fr = FR()
        fr.env = env if env is not None else {}
        self.sym_loop(fr, P(K), lambda kk: self._append(lst, body(kk)), None, 0)
        rec = self.heap[lst.id]
        if rec.items is not None:
            items = rec.items

            def f(k):
                c = P(k).const()
                if c is None:
                    if len(items) == 1:
                        return items[0]
                    raise Unsupported("symbolic index of a short list")
                return items[int(c)]
            f.items = items
            return f
        return rec.elem

    def _append(self, lst, v):
        self.list_append(lst, v)

    def while_loop(self, st, fr):
        if st.orelse:
            raise Unsupported("while-else")
        # concrete unrolling while the condition is decided
        for it in range(40):
            v = self.e(st.test, fr)
            d = None
            if isinstance(v, SB):
                d = T.decide(v.b)
                if d is None:
                    break
            elif isinstance(v, Num):
                d = T.decide(self.nz(v.p))
                if d is None:
                    break
            else:
                d = self.truth(v)
            if not d:
                return None
            if self._counter_loop(st, fr):
                # a counted loop: one recursion from its first iteration on
                break
            s = self.block(st.body, fr)
            if s == BREAK_:
                return None
            if s is not None and s != CONTINUE_:
                return s
        # counted loop
        names = self._counter_names(st, fr)
        for nm in names:
            cur = fr.env.get(nm)
            if not (isinstance(cur, Num) and cur.p.isint):
                continue
            r = self._try_counter(st, fr, nm, cur)
            if r is not None:
                return None
        raise Unsupported("while loop without a recognisable counter")

    def _counter_loop(self, st, fr):
        return any(isinstance(fr.env.get(n), Num) for n in self._counter_names(st, fr))

    def _counter_names(self, st, fr):
        test = [x.id for x in ast.walk(st.test) if isinstance(x, ast.Name)]
        stored = {x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        return [n for n in dict.fromkeys(test) if n in stored]

    def _try_counter(self, st, fr, nm, cur):
        """nm advances by +-1 each iteration and the test is linear in it"""
        v = T.vatom("wc.%d" % self.loop_depth, True)
        save = fr.env[nm]
        fr.env[nm] = I(P(v))
        try:
            c = self.e(st.test, fr)
        finally:
            fr.env[nm] = save
        if not isinstance(c, SB) or c.b.kind not in ("le", "not"):
            return None
        step = self._const_step(st, nm)
        if step is None:
            return None
        b = c.b
        c0 = cur.p
        if b.kind == "not" and b.args[0].kind == "eq":
            # while i != n
            lin = T._linear_in(b.args[0].args[0], v)
            if lin is None or abs(lin[0]) != 1:
                return None
            target = -lin[1] * P(1 / lin[0])
            K = (target - c0) * P(step)
            if not self.choose(LE(0, K)):
                raise Unsupported("non-terminating while loop")
        elif b.kind == "le":
            lin = T._linear_in(b.args[0], v)
            if lin is None or abs(lin[0]) != 1 or lin[0] * step < 0:
                return None
            k, r = lin
            # step=+1: v + r <= 0 holds for v = c0 .. -r ; step=-1: -v + r <= 0 holds for v = c0 .. r
            K = (-r - c0 + 1) if k == 1 else (c0 - r + 1)
            if not self.choose(LE(0, K)):
                K = T.ZERO
        else:
            return None
        kc = K.const()
        if kc is not None and kc <= 6:
            for _ in range(int(kc)):
                s = self.block(st.body, fr)
                if s == BREAK_:
                    return True
                if s is not None and s != CONTINUE_:
                    raise Unsupported("return inside a while loop")
            return True
        # run with the counter bound to its closed form, then check that the body indeed steps it and leaves the test alone
        def bind(kk):
            fr.env[nm] = I(c0 + kk * P(step))
            cc = self.e(st.test, fr)
            if not isinstance(cc, SB) or T.decide(cc.b) is not True:
                raise Unsupported("while loop: the bound changes during the loop")

        def after(kk):
            x = fr.env.get(nm)
            if not (isinstance(x, Num) and (x.p - (c0 + (kk + 1) * P(step))) is T.ZERO):
                raise Unsupported("while loop: irregular counter")
        self.sym_loop(fr, K, bind, st.body, st.lineno, after=after, skip={nm})
        fr.env[nm] = I(c0 + K * P(step))
        return True

    def _const_step(self, st, nm):
        found = []
        for b in st.body:
            for x in ast.walk(b):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == nm \
                        and isinstance(x.value, ast.Constant) and x.value.value == 1 and isinstance(x.op, (ast.Add, ast.Sub)):
                    found.append(1 if isinstance(x.op, ast.Add) else -1)
                elif isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in x.targets):
                    w = x.value
                    if isinstance(w, ast.BinOp) and isinstance(w.left, ast.Name) and w.left.id == nm \
                            and isinstance(w.right, ast.Constant) and w.right.value == 1 and isinstance(w.op, (ast.Add, ast.Sub)):
                        found.append(1 if isinstance(w.op, ast.Add) else -1)
                    else:
                        return None
        return found[0] if len(found) == 1 else None

    # ------------------------------------------------------------------------------------------ the loop rule
    def sym_loop(self, fr, K, bind, body, lineno, after=None, skip=()):
        K = P(K)
        peels = 0
        off = 0
        while True:
            heap0 = dict(self.heap)
            env0 = dict(fr.env)
            base = len(T.CTX)
            depth0, nd = self.depth, len(self.defs)
            ld = self.loop_depth
            try:
                bnd = bind if not off else (lambda kk, o=off: bind(kk + o))
                aft = after if not off or after is None else (lambda kk, o=off: after(kk + o))
                self._sym_loop(fr, K - off, bnd, body, lineno, aft, skip)
                return
            except Hoist as hz:
                self._restore(heap0, fr, env0, base, depth0, nd, ld)
                if not isinstance(hz.owner, LoopToken) or hz.owner is not self._tok:
                    raise
                self.choose(hz.b)
            except NeedPositive:
                self._restore(heap0, fr, env0, base, depth0, nd, ld)
                if not self.choose(LE(1, K - off)):
                    return
            except MaybeRead:
                # a value of changing kind is carried over: handle the first iteration separately
                self._restore(heap0, fr, env0, base, depth0, nd, ld)
                if peels >= 3:
                    raise Unsupported("loop-carried value changes kind (line %s)" % lineno)
                peels += 1
                if not self.choose(LE(1, K - off)):
                    return
                s = self._run_body(fr, lambda: bind(P(off)), body)
                if s is not None:
                    raise Unsupported("break in a symbolic loop")
                off += 1

    def _restore(self, heap0, fr, env0, base, depth, nd, ld):
        self.heap = dict(heap0)
        fr.env.clear()
        fr.env.update(env0)
        del T.CTX[base:]
        del self.defs[nd:]
        self.depth = depth
        self.loop_depth = ld

    def _run_body(self, fr, bind, body):
        bind()
        if body is None:
            return None
        s = self.block(body, fr)
        if s is None or s == CONTINUE_:
            return None
        return s

    _tok = None

    def _sym_loop(self, fr, K, bind, body, lineno, after, skip):
        kv = T.vatom("k.%d" % self.loop_depth, True)
        k = P(kv)
        facts = T.inrange(k, K)
        locs = {}
        syms = set()
        heap_in = dict(self.heap)
        env_in = dict(fr.env)
        base = len(T.CTX)
        calm = False            # no further candidates: explore all paths
        invs = []               # candidate invariants over loop-carried integers: [(Bool at iteration k, dropped)]
        dropped = set()
        veil = {i: r for i, r in heap_in.items() if isinstance(r, BufRec) and r.dt in ("f", "f4") and r.body.size > 8}
        for rnd in range(60):
            facts = T.inrange(k, K) + invs
            tok = LoopToken(kv.name, syms)
            self.heap = dict(heap_in)
            fr.env.clear()
            fr.env.update(env_in)
            del T.CTX[base:]
            T.CTX.extend(facts)
            for l in locs.values():
                self._havoc(l, fr, k, heap_in, env_in)
            if rnd == 0:
                # first look at what the body changes: the contents of large arrays do not matter for that
                for i, r in veil.items():
                    self.heap[i] = r.with_body(T.app("veil~%d" % i, *[P(f) for f in r.formals]))
            heapH = dict(self.heap)
            envH = dict(fr.env)

            def thunk():
                s = self._run_body(fr, lambda: bind(k), body)
                if s is None and after is not None:
                    after(k)
                return s
            self._tok = tok
            self.loop_depth += 1
            nd = len(self.defs)
            depth = self.depth
            try:
                paths = self.explore(thunk, loop=tok, envs=[fr.env], maxpaths=None if calm else 12)
            except Unsupported as ex:
                if rnd == 0 and veil:
                    del self.defs[nd:]
                    self.depth = depth
                    del T.CTX[base:]
                    veil = {}
                    continue
                if tok.hoist:
                    raise Hoist(tok, tok.hoist[0])
                if self._wanted(locs, kv, K, invs, dropped):
                    # an inner loop could not establish its invariants without knowing more about our variables
                    del self.defs[nd:]
                    self.depth = depth
                    continue
                if calm or not isinstance(ex, TooMany):
                    raise
                paths = None
            finally:
                self.loop_depth -= 1
                self._tok = tok
            del T.CTX[base:]
            if not calm and self._candidates(tok.log, locs, kv, K, invs, dropped):
                del self.defs[nd:]
                self.depth = depth
                continue
            if paths is None:
                calm = True
                del self.defs[nd:]
                self.depth = depth
                continue
            self.heap = dict(heap_in)       # values before the loop are read from the state before the loop
            new = self._modified(paths, heapH, envH, heap_in, env_in, locs, skip)
            if new or (rnd == 0 and veil):
                del self.defs[nd:]
                continue
            if tok.hoist:
                self._tok = tok
                raise Hoist(tok, tok.hoist[0])
            exc = [p for p in paths if p.kind == "exc"]
            if exc and len(exc) < len(paths) and self._guess(paths, locs, kv, invs, dropped):
                continue
            if exc:
                if len(exc) == len(paths):
                    # the body raises in its first iteration
                    self.heap = dict(heap_in)
                    fr.env.clear()
                    fr.env.update(env_in)
                    if self.choose(LE(1, K)):
                        self._run_body(fr, lambda: bind(T.ZERO), body)
                        raise Unsupported("loop body expected to raise")
                    return
                raise Unsupported("exception in some iterations of a loop (%s)" % exc[0].value.name)
            if any(p.value is not None for p in paths):
                raise Unsupported("break or return inside a symbolic loop")
            if self._posts(paths, locs, kv, K, base, facts):
                continue            # a sort was widened
            if self._refuted(paths, locs, kv, K, invs, dropped, facts):
                continue
            break
        else:
            raise Unsupported("loop discovery did not converge")
        self.heap = dict(heap_in)
        fr.env.clear()
        fr.env.update(env_in)
        self._facts = facts
        self._solve(locs, kv, K, facts)
        invs = [T.subst_b(b, None, self._solved) for b in invs]
        if invs and T.decide(LE(1, K)) is True:
            # the invariants hold after the loop as well
            for b in invs:
                b = T.subst_b(b, {kv.name: K})
                if T.decide(b) is not True:
                    T.CTX.append(b)
        self._finish(fr, paths, locs, kv, K, heap_in, env_in, base, skip)

    def _candidates(self, log, locs, kv, K, invs, dropped):
        """conditions on loop-carried integers that hold before the loop: candidate invariants"""
        syms = {l.sym: l for l in locs.values() if l.kind == "num" and l.isint and l.guess is None}
        if not syms:
            return False
        new = False
        for c in log:
            if c.syms.isdisjoint(syms):
                continue
            for b in (c, Not(c)):
                if b.kind != "le" or b in invs or b in dropped:
                    continue
                mine = {x for x in b.syms if x.startswith("h~") or x in syms}
                if not all(x in syms for x in mine):
                    continue
                b0 = T.subst_b(b, {kv.name: T.ZERO}, {x: (lambda kk, v=syms[x].init: v) for x in mine})
                with T.assuming(LE(1, K)):
                    if T.decide(b0) is not True:
                        continue
                invs.append(b)
                new = True
        return new

    def _wanted(self, locs, kv, K, invs, dropped):
        syms = {l.sym: l for l in locs.values() if l.kind == "num" and l.isint and l.guess is None}
        new = False
        for b in self.wants:
            mine = {x for x in b.syms if x in syms}
            if not mine or b in invs or b in dropped:
                continue
            for c in [b] + [LE(0, T.app(x, P(kv), isint=True)) for x in sorted(mine)]:
                b0 = T.subst_b(c, {kv.name: T.ZERO}, {x: (lambda kk, v=syms[x].init: v) for x in mine})
                with T.assuming(LE(1, K)):
                    if c in invs or c in dropped or T.decide(b0) is not True:
                        continue
                invs.append(c)
                new = True
        del self.wants[:]
        return new

    def _guess(self, paths, locs, kv, invs, dropped):
        """the body may raise: look for closed forms of counters and for invariants that exclude the exception"""
        k = P(kv)
        ok = [p for p in paths if p.kind != "exc"]
        syms = {}
        new = False
        for l in locs.values():
            if l.kind != "num" or not l.isint:
                continue
            syms[l.sym] = l
            if l.guess is not None or l.noguess:
                continue
            vals = [self._get(l.key, p.heap, p.env[0]) for p in ok]
            if not all(isinstance(v, Num) for v in vals):
                continue
            own = T.app(l.sym, k, isint=True)
            ds = {v.p - own for v in vals}
            if len(ds) == 1 and next(iter(ds)).isconst():
                l.guess = l.init + next(iter(ds)) * k
                new = True
        if new:
            return True
        for p in paths:
            if p.kind != "exc" or not p.conds:
                continue
            c = p.conds[-1]
            if not (c.syms & set(syms)):
                continue
            n = Not(c)
            if n not in invs and n not in dropped:
                invs.append(n)
                new = True
        for sym, l in syms.items():
            b = LE(0, T.app(sym, k, isint=True))
            if l.guess is None and b not in invs and b not in dropped and (new or invs):
                invs.append(b)
                new = True
        return new

    @staticmethod
    def _under(b, conds):
        with T.assuming(*conds):
            return T.decide(b)

    def _refuted(self, paths, locs, kv, K, invs, dropped, facts):
        """check guessed closed forms and candidate invariants by induction; True when some had to be dropped"""
        k = P(kv)
        bad = False
        for l in locs.values():
            if l.guess is None:
                continue
            ok = T.subst(l.guess, {kv.name: T.ZERO}) is l.init
            if ok:
                with T.assuming(*facts):
                    ok = L.prove_zero(l.step - T.subst(l.guess, {kv.name: k + 1})) is not None
            if not ok:
                l.guess, l.noguess = None, True
                bad = True
        if bad:
            return True
        nums = {l.sym: l for l in locs.values() if l.kind == "num" and l.isint and l.guess is None}
        for b in list(invs):
            mine = {x for x in b.syms if x.startswith("h~") or x in nums}
            if not all(x in nums for x in mine):
                ok = False
            else:
                b0 = T.subst_b(b, {kv.name: T.ZERO}, {x: (lambda kk, v=nums[x].init: v) for x in mine})
                with T.assuming(LE(1, K)):
                    ok = T.decide(b0) is True
                if not ok:
                    self.wants.append(b0)
                if ok:
                    nxt = T.subst_b(b, {kv.name: k + 1}, {x: (lambda kk, v=nums[x].step: v) for x in mine})
                    with T.assuming(*facts):
                        ok = bool(L.prove_bool(nxt)) or self._kept(b, mine, nums, paths, kv)
            if not ok:
                invs.remove(b)
                dropped.add(b)
                bad = True
        return bad

    def _kept(self, b, mine, nums, paths, kv):
        """does every path through the body keep the invariant?  (with what is known on that path)"""
        for p in paths:
            if p.kind == "exc":
                return False
            vals = {x: self._get(nums[x].key, p.heap, p.env[0]) for x in mine}
            if not all(isinstance(v, Num) for v in vals.values()):
                return False
            nxt = T.subst_b(b, {kv.name: P(kv) + 1}, {x: (lambda kk, v=vals[x].p: v) for x in mine})
            with T.assuming(*p.conds):
                if not L.prove_bool(nxt):
                    return False
        return True

    # ---- locations
    def _havoc(self, l, fr, k, heap_in, env_in):
        kind = l.kind
        if kind == "temp":
            v = Maybe("maybe unbound before the loop body assigns it")
        elif kind == "num":
            v = Num(l.guess if l.guess is not None else T.app(l.sym, k, isint=l.isint), l.t, l.np)
        elif kind == "bool":
            v = SB(Not(T.eq0(T.app(l.sym, k, isint=True))))
        elif kind == "buf":
            r = heap_in[l.key[1]]
            fs = l.formals
            self.heap[l.key[1]] = BufRec(r.shape, fs, T.app(l.sym, k, *[P(f) for f in fs], isint=l.isint), r.dt, r.tag, r.ro)
            return
        elif kind == "arr":
            fs = l.formals
            i = self.alloc(BufRec(l.shape, fs, T.app(l.sym, k, *[P(f) for f in fs], isint=l.isint), l.t, None,
                                  "an array rebound by the loop"))
            v = Arr(i, l.shape, [(j, T.ZERO, 1) for j in range(len(l.shape))])
        elif kind == "list":
            def bad(_):
                raise Unsupported("reading a list under construction")
            self.heap[l.key[1]] = ListRec(None, l.n0 + P(l.m) * k, bad, ())
            return
        else:
            raise Unsupported("loop-carried %s" % kind)
        self._set(l.key, v, fr)

    def _set(self, key, v, fr):
        if key[0] == "env":
            fr.env[key[1]] = v
        elif key[0] == "attr":
            rec = self.heap[key[1]]
            at = dict(rec.attrs)
            at[key[2]] = v
            self.heap[key[1]] = ObjRec(rec.cls, at)
        elif key[0] == "item":
            rec = self.heap[key[1]]
            items = list(rec.items)
            items[key[2]] = v
            self.heap[key[1]] = ListRec(items)
        elif key[0] == "dict":
            d = dict(self.heap[key[1]].d)
            d[key[2]] = v
            self.heap[key[1]] = DictRec(d)

    def _has(self, key, heap, env):
        return self._get(key, heap, env) is not MISSING

    def _get(self, key, heap, env):
        if key[0] == "env":
            return env.get(key[1], MISSING)
        if key[0] == "attr":
            return heap[key[1]].attrs.get(key[2], MISSING)
        if key[0] == "item":
            return heap[key[1]].items[key[2]]
        if key[0] == "dict":
            return heap[key[1]].d.get(key[2], MISSING)
        raise KeyError(key)

    def _modified(self, paths, heapH, envH, heap_in, env_in, locs, skip):
        new = False
        for p in paths:
            post = p.env[0]
            for nm, v in post.items():
                if nm in skip:
                    continue
                key = ("env", nm)
                if key in locs:
                    continue
                if nm not in envH:
                    locs[key] = Loc(key, "temp")
                    new = True
                elif not same(v, envH[nm]):
                    self._newloc(key, env_in[nm], locs)
                    new = True
            for nm in envH:
                if nm not in post:
                    raise Unsupported("del in a loop")
            for i in heap_in:
                a, b = heapH.get(i), p.heap.get(i)
                if a is b:
                    continue
                if isinstance(a, ObjRec):
                    for nm, v in b.attrs.items():
                        key = ("attr", i, nm)
                        if key in locs:
                            continue
                        if nm not in a.attrs:
                            locs[key] = Loc(key, "temp")
                            new = True
                        elif not same(v, a.attrs[nm]):
                            self._newloc(key, heap_in[i].attrs[nm], locs)
                            new = True
                    if any(nm not in b.attrs for nm in a.attrs):
                        raise Unsupported("del in a loop")
                elif isinstance(a, BufRec):
                    key = ("buf", i)
                    if key in locs:
                        continue
                    x = T.subst(b.body, {f.name: P(g) for f, g in zip(b.formals, a.formals)})
                    if x is not a.body:
                        l = Loc(key, "buf")
                        r = heap_in[i]
                        self._mkarrloc(l, r.shape, r.dt, T.subst(r.body, {f.name: P(T.vatom("lf%d" % j, True))
                                                                          for j, f in enumerate(r.formals)}))
                        l.t = r.dt
                        locs[key] = l
                        new = True
                elif isinstance(a, ListRec):
                    key = ("list", i)
                    if a.items is not None:
                        if len(b.items) == len(a.items):
                            for j, (u, v) in enumerate(zip(a.items, b.items)):
                                kk = ("item", i, j)
                                if kk not in locs and not same(u, v):
                                    self._newloc(kk, heap_in[i].items[j], locs)
                                    new = True
                        elif len(b.items) > len(a.items) and all(same(u, v) for u, v in zip(a.items, b.items)):
                            if key not in locs:
                                l = Loc(key, "list")
                                l.n0, l.m = P(len(a.items)), len(b.items) - len(a.items)
                                locs[key] = l
                                new = True
                        else:
                            raise Unsupported("list shrinks in a loop")
                    elif key not in locs and b.app:
                        l = Loc(key, "list")
                        l.n0, l.m = a.length, len(b.app)
                        locs[key] = l
                        new = True
                elif isinstance(a, DictRec):
                    if set(a.d) != set(b.d):
                        raise Unsupported("dictionary grows in a loop")
                    for kk in a.d:
                        key = ("dict", i, kk)
                        if key not in locs and not same(a.d[kk], b.d[kk]):
                            self._newloc(key, heap_in[i].d[kk], locs)
                            new = True
        return new

    def _mkarrloc(self, l, shape, dt, body):
        l.formals = tuple(T.vatom("lf%d" % j, True) for j in range(len(shape)))
        l.shape = tuple(shape)
        l.init = body
        l.isint = bool(body.isint and dt in ("i", "b"))
        l.sym = T.freshname("h")

    def _newloc(self, key, pre, locs):
        if isinstance(pre, Maybe):
            locs[key] = Loc(key, "temp")
            return
        if isinstance(pre, Num):
            l = Loc(key, "num")
            l.init, l.t, l.np, l.isint = pre.p, pre.t, pre.np, pre.p.isint
            l.sym = T.freshname("h")
        elif isinstance(pre, (bool, SB)):
            l = Loc(key, "bool")
            l.init = T.b2p(pre.b) if isinstance(pre, SB) else P(int(pre))
            l.isint = True
            l.sym = T.freshname("h")
        elif isinstance(pre, Arr):
            l = Loc(key, "arr")
            fs = [P(T.vatom("lf%d" % j, True)) for j in range(len(pre.shape))]
            self._mkarrloc(l, pre.shape, self.dt(pre), self.at(pre, fs))
            l.t = self.dt(pre)
        elif isinstance(pre, Junk):
            l = Loc(key, "temp")
        elif pre is None or isinstance(pre, (str, Obj, ListV, tuple, DictV)):
            l = Loc(key, "temp")
        else:
            raise Unsupported("loop-carried %s" % type(pre).__name__)
        l.pre = pre
        l.m = 0
        locs[key] = l

    # ---- post values
    def _merge(self, paths, base, f):
        """ite over the paths of f(path)"""
        vals = []
        for p in paths:
            c = And(*p.conds)
            with T.assuming(c):
                vals.append((c, P(f(p))))
        r = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            r = mk_ite(c, v, r)
        return r

    def _posts(self, paths, locs, kv, K, base, facts):
        """fill in loc.step; returns True when a sort had to be widened (rerun needed)"""
        widened = False
        # conditions of a path beyond the loop facts
        nb = base + len(facts)
        modbufs = {key[1] for key in locs if key[0] == "buf"}
        pre_ids = None
        with T.assuming(*facts):
            for l in locs.values():
                if l.kind in ("temp", "list"):
                    continue
                if l.kind == "buf":
                    i = l.key[1]
                    ff = []
                    for v, s in zip(l.formals, l.shape):
                        ff += T.inrange(P(v), s)
                    with T.assuming(*ff):
                        l.step = self._merge(paths, nb, lambda p: T.subst(
                            p.heap[i].body, {f.name: P(g) for f, g in zip(p.heap[i].formals, l.formals)}))
                    if l.isint and not l.step.isint:
                        l.isint = False
                        l.sym = T.freshname("h")
                        widened = True
                    continue
                vals = [self._get(l.key, p.heap, p.env[0]) for p in paths]
                if l.kind == "num":
                    if not all(isinstance(v, Num) for v in vals):
                        l.kind = "temp"
                        widened = True
                        continue
                    t = l.t
                    for v in vals:
                        if v.t != t:
                            t = "f" if "f" in (v.t, t) else ("f4" if "f4" in (v.t, t) else "i")
                    l.step = self._merge(paths, nb, lambda p: self._get(l.key, p.heap, p.env[0]).p)
                    isint = l.isint and l.step.isint
                    npf = any(v.np for v in vals)
                    if t != l.t or isint != l.isint or (npf and not l.np):
                        l.t, l.isint, l.np = t, isint, l.np or npf
                        l.sym = T.freshname("h")
                        widened = True
                elif l.kind == "bool":
                    if not all(isinstance(v, (bool, SB)) for v in vals):
                        l.kind = "temp"
                        widened = True
                        continue
                    l.step = self._merge(paths, nb, lambda p: (lambda v: P(int(v)) if isinstance(v, bool) else T.b2p(v.b))(
                        self._get(l.key, p.heap, p.env[0])))
                elif l.kind == "arr":
                    if not all(isinstance(v, Arr) for v in vals) or any(
                            len(v.shape) != len(l.shape) or any(T.decide(EQ(a, b)) is not True for a, b in zip(v.shape, l.shape))
                            for v in vals):
                        l.kind = "temp"
                        widened = True
                        continue
                    for p, v in zip(paths, vals):
                        if v.buf in modbufs:
                            raise Unsupported("a loop variable aliases an array modified in the loop")
                    ff = []
                    for v, s in zip(l.formals, l.shape):
                        ff += T.inrange(P(v), s)
                    ix = [P(f) for f in l.formals]
                    with T.assuming(*ff):
                        l.step = self._merge(paths, nb, lambda p: self.at(self._get(l.key, p.heap, p.env[0]), ix, p.heap))
                    dts = {p.heap[v.buf].dt for p, v in zip(paths, vals)} | {l.t}
                    if len(dts) > 1:
                        if "f" not in dts:
                            raise Unsupported("array changes dtype in a loop")
                        if l.t != "f":
                            l.t = "f"
                            l.isint = False
                            l.sym = T.freshname("h")
                            widened = True
                    elif l.isint and not l.step.isint:
                        l.isint = False
                        l.sym = T.freshname("h")
                        widened = True
                    if len(paths) == 1:
                        v = vals[0]
                        l.finalview = v
        return widened

    # ---- solving the recursions
    def _solve(self, locs, kv, K, kf):
        ls = [l for l in locs.values() if l.kind in ("num", "bool", "buf", "arr")]
        bysym = {l.sym: l for l in ls}
        k = P(kv)
        dep = {}
        self._kept_cells(ls, kv, kf)
        for l in ls:
            self._freeze(l)
            ff = list(kf)
            for v, s in zip(l.formals, l.shape):
                ff += T.inrange(P(v), s)
            with T.assuming(*ff):
                l.step = L.rebuild(l.step)
            dep[l.sym] = {s for s in l.step.syms if s in bysym}
        solved = {}         # sym -> function(k,*idx)
        for comp in _sccs(dep):
            group = [bysym[s] for s in comp]
            for l in group:
                ff = list(kf)
                for v, s in zip(l.formals, l.shape):
                    ff += T.inrange(P(v), s)
                sub = {s: solved[s] for s in dep[l.sym] if s in solved}
                if sub:
                    with T.assuming(*ff):
                        l.step = T.merge_heads(L.rebuild(T.subst(l.step, None, sub)))
            if len(group) == 1:
                l = group[0]
                if l.guess is not None:
                    l.closed = lambda kk, g=l.guess: T.subst(g, {kv.name: P(kk)})
                    solved[l.sym] = l.closed
                    continue
                c = self._closed(l, kv, K)
                if c is not None:
                    l.closed = c
                    solved[l.sym] = c
                    continue
            fns = self._continues(group, kv, kf)
            if fns is None:
                fns = T.mk_recs([(l.sym, l.formals, kv, l.init, l.step, l.isint) for l in group])
            for l in group:
                l.closed = fns[l.sym]
                solved[l.sym] = l.closed
        self._solved = solved

    def _kept_cells(self, ls, kv, kf):
        """cells that no iteration writes keep their initial value"""
        syms = {}
        for l in ls:
            if not l.formals:
                continue
            with T.assuming(*kf, *[f for v, s in zip(l.formals, l.shape) for f in T.inrange(P(v), s)]):
                kept = _overwritten(L.rebuild(l.step), T.app(l.sym, P(kv), *[P(f) for f in l.formals], isint=l.isint), l.sym, kv)
            if kept is None or kept[0] is T.FALSE or kept[1] is None:
                continue

            def old(kk, *jx, l=l, keep=kept[0]):
                at = {f.name: j for f, j in zip(l.formals, jx)}
                kept = T.subst_b(keep, at)
                d = T.decide(kept)
                own = T.app(l.sym, kk, *jx, isint=l.isint)
                return T.subst(l.init, at) if d is True else own if d is False else mk_ite(kept, T.subst(l.init, at), own)
            syms[l.sym] = (old, kept[0])
        if not syms:
            return
        for l in ls:
            if any(s in l.step.syms for s in syms):
                # the loop's own copy at a kept cell stays recognisable as such
                with T.assuming(*kf, *[f for v, s in zip(l.formals, l.shape) for f in T.inrange(P(v), s)]):
                    if l.sym in syms:
                        own = T.app(l.sym, P(kv), *[P(f) for f in l.formals], isint=l.isint)
                        keep, V = _overwritten(L.rebuild(l.step), own, l.sym, kv)
                        with T.assuming(Not(keep)):
                            V = L.Rebuild(None, {s: f for s, (f, _) in syms.items()}).poly(V)
                        l.step = mk_ite(keep, own, V)
                    else:
                        l.step = L.Rebuild(None, {s: f for s, (f, _) in syms.items()}).poly(l.step)

    def _freeze(self, l):
        """name the contents an array has before the loop (unfolded by the prover when needed)"""
        def ites(p, lim):
            n = 0
            for m in p.t:
                for a, e in m:
                    if a.kind == "ite":
                        n += 1 + ites(a.args[1], lim) + ites(a.args[2], lim)
            return n
        if not l.formals or ites(l.init, 3) < FREEZE:
            return
        kv = T.vatom("k.frz", True)
        own = T.app(l.sym, P(kv), *[P(f) for f in l.formals], isint=l.isint)
        fn = T.mk_recs([(l.sym, l.formals, kv, l.init, own, l.isint)], "c")
        l.init = fn[l.sym](T.ZERO, *[P(f) for f in l.formals])

    def _continues(self, group, kv, kf):
        """a loop that carries on where an earlier recursion stopped: h(0) = a(c) and h(k+1) = a(c+k+1) follows from
        h(k) = a(c+k); then h is that recursion from c on, and no new symbol is needed"""
        k = P(kv)
        fns = {}
        cs = set()
        for l in group:
            a = T.single(l.init)
            if a is None or a.kind != "app" or a.name not in T.RECS or a.name.startswith("c!"):
                return None
            c, rest = a.args[0], a.args[1:]
            n = len(l.formals)
            d = T.RECS[a.name]
            if sum(1 for f in d.formals if f.name.startswith("@f")) != n or d.isint != l.isint:
                return None
            fn = {f.name for f in l.formals}
            if tuple(rest[:n]) != tuple(P(f) for f in l.formals) or any(fn & P(x).fv for x in tuple(rest[n:]) + (c,)):
                return None
            cs.add(c)
            fns[l.sym] = (lambda nm, c, pa, ii: lambda kk, *ix: P(T._mk("app", nm, (P(kk) + c,) + tuple(P(i) for i in ix) + pa, ii)))(
                a.name, c, tuple(rest[n:]), d.isint)
        if len(cs) != 1:
            return None
        c = cs.pop()
        if T.decide(LE(0, c)) is not True:
            return None
        for l in group:
            a = T.single(l.init)
            ff = []
            for v, s in zip(l.formals, l.shape):
                ff += T.inrange(P(v), s)
            with T.assuming(*(kf + ff)):
                here = T.subst(l.step, None, fns)
                there = T.RECS[a.name].next(k + c, a.args[1:])
                if here is not there and L.prove_zero(here - there) is None \
                        and L.prove_zero(induct.unfold_const(here - there)) is None:
                    return None
        if self.loop_obls is not None:
            for l in group:
                self.loop_obls.append(("continuation of an earlier recursion: %s" % (l.key[-1],), "induction", "recursion"))
        return fns

    def _closed(self, l, kv, K):
        k = P(kv)
        E = l.step
        fs = l.formals
        ix = [P(f) for f in fs]
        own = T.app(l.sym, k, *ix, isint=l.isint)
        kf = T.inrange(k, K)
        ff = []
        for v, s in zip(fs, l.shape):
            ff += T.inrange(P(v), s)

        def fn(poly):
            return lambda kk, *jx: T.subst(poly, dict([(kv.name, P(kk))] + [(f.name, P(j)) for f, j in zip(fs, jx)]))
        if E is own:
            return fn(l.init)
        if l.sym not in E.syms:
            if kv.name in E.fv:
                with T.assuming(LE(1, k)):
                    prev = T.subst(E, {kv.name: k - 1})
            else:
                prev = E
            if prev is l.init:
                return fn(l.init)
            return fn(mk_ite(EQ(k, 0), l.init, prev))
        # the same cells are overwritten in every iteration, the others never (nothing of it depends on the iteration)
        kept = _overwritten(E, own, l.sym, kv)
        if kept is not None and kept[1] is not None:
            keep, V = kept

            def old(kk, *jx):
                if T.decide(T.subst_b(keep, {f.name: j for f, j in zip(fs, jx)})) is True:
                    return T.subst(l.init, {f.name: j for f, j in zip(fs, jx)})
                return T.app(l.sym, kk, *jx, isint=l.isint)
            with T.assuming(Not(keep), *(kf + ff)):
                V = T.subst(V, None, {l.sym: old}) if l.sym in V.syms else V
            if l.sym not in V.syms:
                with T.assuming(LE(1, k), Not(keep), *ff):
                    prev = T.subst(V, {kv.name: k - 1}) if kv.name in V.fv else V
                if self.loop_obls is not None:
                    self.loop_obls.append(("closed form of %s" % (l.key[-1],), "nf", "overwrite"))
                return fn(mk_ite(keep, l.init, mk_ite(EQ(k, 0), l.init, prev)))
        r = self._blocks(l, kv, K, E, own, ff)
        if r is not None:
            return fn(r)
        cands = []
        # accumulation
        d = _minus(E, own)
        if d is not None and l.sym not in d.syms:
            # h(k+1) = h(k) + d(k): h(k) = h(0) + the sum of d below k, by construction
            j = T.fresh("a")
            with T.assuming(LE(0, k), LE(k, K), *ff):
                with T.assuming(*T.inrange(P(j), k)):
                    dj = T.subst(d, {kv.name: P(j)})
                s = T.mk_sum(j, k, dj)
            if self.loop_obls is not None:
                self.loop_obls.append(("closed form of %s" % (l.key[-1],), "nf", "sum"))
            return fn(l.init + s)
        # element-wise store
        for p, f in enumerate(fs):
            for c0, sg in _store_index(E, kv, f):
                pos = c0 + P(sg) * k           # f == pos at iteration k
                it = (P(f) - c0) * P(sg)       # the iteration that writes index f
                with T.assuming(*(kf + ff)):
                    V = T.subst(E, {f.name: pos})
                    # reads of cells not written yet
                    V = _unwritten(V, l, kv, p, c0, sg)
                    if l.sym in V.syms:
                        continue
                with T.assuming(Not(EQ(P(f), pos)), *(kf + ff)):
                    elsewhere = L.rebuild(E) is own
                with T.assuming(LE(0, k), LE(k, K), *ff):
                    with T.assuming(LE(0, it), LT(it, k)):
                        v = T.subst(V, {kv.name: it})
                    if elsewhere:
                        # iteration k writes exactly the cells with this index, and what it writes does not depend on the
                        # array itself: the induction step holds by construction
                        if self.loop_obls is not None:
                            self.loop_obls.append(("closed form of %s" % (l.key[-1],), "nf", "store"))
                        return fn(mk_ite(And(LE(0, it), LT(it, k)), v, l.init))
                    cands.append(mk_ite(And(LE(0, it), LT(it, k)), v, l.init))
        # shift register along one axis: E = ite(f == 0, v, h(k, f-1))
        for p, f in enumerate(fs):
            with T.assuming(*(kf + ff)):
                with T.assuming(EQ(P(f), 0)):
                    v0 = T.subst(E, {f.name: T.ZERO})
                if l.sym in v0.syms:
                    continue
                with T.assuming(LE(1, P(f))):
                    v1 = L.rebuild(E)
                jx = list(ix)
                jx[p] = ix[p] - 1
                if v1 is not T.app(l.sym, k, *jx, isint=l.isint):
                    continue
            with T.assuming(LE(0, k), LE(k, K), *ff):
                with T.assuming(LT(P(f), k)):
                    a = T.subst(v0, {kv.name: k - 1 - P(f)})
                with T.assuming(LE(k, P(f))):
                    b = T.subst(l.init, {f.name: P(f) - k})
                cands.append(mk_ite(LT(P(f), k), a, b))
        for c in cands:
            if self._check_closed(l, c, kv, K, kf, ff):
                return fn(c)
        return None

    def _blocks(self, l, kv, K, E, own, ff):
        """iteration k writes the cells c + s*k .. c + s*k + s - 1 of an axis, and nothing of it depends on the array itself"""
        a = T.single(E)
        if a is None or a.kind != "ite" or a.args[0].kind != "and" or a.args[2] is not own or l.sym in a.args[1].syms:
            return None
        k, cond, V = P(kv), a.args[0], a.args[1]
        if len(cond.args) != 2 or any(x.kind != "le" for x in cond.args):
            return None
        for f in l.formals:
            if any(x.name in cond.fv for x in l.formals if x is not f):
                continue
            for lo, hi in (cond.args, cond.args[::-1]):
                first = lo.args[0] + P(f)                # first <= f
                last = P(f) - hi.args[0]                 # f <= last
                if f.name in first.fv or f.name in last.fv:
                    continue
                c = T.subst(first, {kv.name: T.ZERO})
                s = T.subst(first, {kv.name: T.ONE}) - c
                if kv.name in s.fv or not s.isint or (first - c - s * k) is not T.ZERO or (last - first - s + 1) is not T.ZERO:
                    continue
                it = T.mk_app("fdiv", P(f) - c, s)
                with T.assuming(LE(0, k), LE(k, K), *ff):
                    if T.decide(LE(1, s)) is not True or T.decide(LE(c, P(f))) is not True:
                        continue
                    # 0 <= f - c - s*it < s
                    with T.assuming(LE(0, it), LT(it, k), LE(c + s * it, P(f)), LE(P(f), c + s * it + s - 1)):
                        v = T.subst(V, {kv.name: it})
                    if self.loop_obls is not None:
                        self.loop_obls.append(("closed form of %s" % (l.key[-1],), "nf", "blocks"))
                    return mk_ite(LT(it, k), v, l.init)
        return None

    def _check_closed(self, l, c, kv, K, kf, ff):
        fs = l.formals

        def fn(kk, *jx):
            return T.subst(c, dict([(kv.name, P(kk))] + [(f.name, P(j)) for f, j in zip(fs, jx)]))
        try:
            with T.assuming(*ff):
                h0 = L.prove_zero(fn(0, *[P(f) for f in fs]) - l.init)
            if h0 is None:
                return False
            with T.assuming(*(kf + ff)):
                post = T.subst(l.step, None, {l.sym: fn})
                h1 = L.prove_zero(post - fn(P(kv) + 1, *[P(f) for f in fs]))
        except T.TooBig:
            return False
        if h1 is None:
            return False
        if self.loop_obls is not None:
            self.loop_obls.append(("closed form of %s" % (l.key[-1],), h0, h1))
        return True

    # ---- state after the loop
    def _finish(self, fr, paths, locs, kv, K, heap_in, env_in, base, skip):
        k = P(kv)
        syms = self._solved

        def final(poly, kk=K, extra=None):
            mp = {kv.name: P(kk)}
            if extra:
                mp.update(extra)
            return T.subst(T.subst(poly, None, syms) if not poly.syms.isdisjoint(syms.keys()) else poly, mp)
        pos = T.decide(LE(1, K))
        if pos is False:
            return
        last = K - 1
        shared = {}
        for l in locs.values():
            if l.kind == "arr":
                for p in paths:
                    v = self._get(l.key, p.heap, p.env[0])
                    shared[v.buf] = shared.get(v.buf, 0) + 1
        for l in locs.values():
            if l.kind == "num":
                self._set(l.key, Num(l.closed(K), l.t, l.np), fr)
            elif l.kind == "bool":
                from .npmod import bool_of
                q = l.closed(K)
                b = bool_of(q)
                self._set(l.key, True if b is T.TRUE else False if b is T.FALSE else SB(b), fr)
            elif l.kind == "buf":
                r = heap_in[l.key[1]]
                ff = []
                for v, s in zip(l.formals, l.shape):
                    ff += T.inrange(P(v), s)
                with T.assuming(*ff):
                    b = l.closed(K, *[P(f) for f in l.formals])
                self.heap[l.key[1]] = BufRec(r.shape, l.formals, b, r.dt, r.tag, r.ro)
            elif l.kind == "arr":
                v = l.finalview
                if v is not None and v.buf in heap_in:
                    # the location ends as a view of an array that existed before the loop
                    if pos is not True:
                        raise NeedPositive()
                    vm = [(d, final(off, last), st) for d, off, st in v.vmap]
                    self._set(l.key, Arr(v.buf, [final(s, last) for s in v.shape], vm), fr)
                    continue
                ro = None
                for p in paths:
                    w = self._get(l.key, p.heap, p.env[0])
                    if w.buf in heap_in or shared[w.buf] > len(paths):
                        ro = "an array that may be shared"
                if pos is not True:
                    raise NeedPositive()
                ff = []
                for f, s in zip(l.formals, l.shape):
                    ff += T.inrange(P(f), s)
                with T.assuming(*ff):
                    b = l.closed(K, *[P(f) for f in l.formals])
                i = self.alloc(BufRec(l.shape, l.formals, b, l.t, None, ro))
                self._set(l.key, Arr(i, l.shape, [(j, T.ZERO, 1) for j in range(len(l.shape))]), fr)
        for l in locs.values():
            if l.kind == "temp":
                if pos is not True:
                    if self._has(l.key, heap_in, env_in):
                        raise NeedPositive()
                    self._set(l.key, Junk("assigned only inside a loop that may not run"), fr)
                    continue
                self._set(l.key, self._lastval(l, paths, final, last, heap_in, base, kv, K), fr)
            elif l.kind == "list":
                self._finish_list(l, paths, final, kv, K, heap_in, base)

    def _lastval(self, l, paths, final, last, heap_in, base, kv, K):
        try:
            v = self._general(paths, [self._get(l.key, p.heap, p.env[0]) for p in paths], final, heap_in, base, kv, K)
            return v(last)
        except (Unsupported, KeyError):
            return Junk("last value of a loop temporary")

    def _general(self, paths, vals, final, heap_in, base, kv, K):
        """merge the values of all paths into a function of the iteration number"""
        facts = T.inrange(P(kv), K)
        nb = base + len(facts)
        v0 = vals[0]
        if all(isinstance(v, Num) for v in vals):
            with T.assuming(*facts):
                m = self._mergev(paths, nb, [v.p for v in vals])
            t = v0.t
            for v in vals:
                if v.t != t:
                    t = "f"
            npf = any(v.np for v in vals)
            return lambda kk: Num(final(m, kk), t, npf)
        if all(isinstance(v, (bool, SB)) for v in vals):
            with T.assuming(*facts):
                m = self._mergev(paths, nb, [P(int(v)) if isinstance(v, bool) else T.b2p(v.b) for v in vals])
            from .npmod import bool_of

            def fb(kk):
                b = bool_of(final(m, kk))
                return True if b is T.TRUE else False if b is T.FALSE else SB(b)
            return fb
        if all(isinstance(v, Arr) for v in vals):
            if len({len(v.shape) for v in vals}) != 1:
                raise Unsupported("values of different shapes")
            if len(vals) == 1 and v0.buf in heap_in:
                # (current content of that buffer: it may have been modified by the loop itself)
                return lambda kk: Arr(v0.buf, [final(s, kk) for s in v0.shape], [(d, final(o, kk), st) for d, o, st in v0.vmap])
            for v in vals[1:]:
                for a, b in zip(v.shape, v0.shape):
                    if a is not b:
                        raise Unsupported("values of different shapes")
            fs = [T.vatom("lf%d" % j, True) for j in range(len(v0.shape))]
            ff = []
            for f, s in zip(fs, v0.shape):
                ff += T.inrange(P(f), s)
            with T.assuming(*(facts + ff)):
                m = self._mergev(paths, nb, [self.at(v, [P(f) for f in fs], p.heap) for v, p in zip(vals, paths)])
            dts = {p.heap[v.buf].dt for v, p in zip(vals, paths)}
            dt = dts.pop() if len(dts) == 1 else "f"
            ro = None if all(v.buf not in heap_in for v in vals) else "an array that may be shared"
            cache = {}

            def fa(kk):
                kk = P(kk)
                hit = cache.get(kk)
                if hit is not None and hit.buf in self.heap:
                    return hit
                sh = [final(s, kk) for s in v0.shape]
                a = self.mkarr(sh, lambda *ix: final(m, kk, {f.name: x for f, x in zip(fs, ix)}), dt)
                if ro or True:
                    r = self.heap[a.buf]
                    r.ro = ro or "an element of a list built by a loop"
                return a
            return fa
        if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
            parts = [self._general(paths, [v[j] for v in vals], final, heap_in, base, kv, K) for j in range(len(v0))]
            return lambda kk: tuple(f(kk) for f in parts)
        if all(same(v, v0) for v in vals) and (v0 is None or isinstance(v0, (str, Func, Cls, Lib, Builtin, Module, SStr))
                                               or (isinstance(v0, (Obj, ListV, DictV)) and v0.id in heap_in)):
            return lambda kk: v0
        if len(vals) == 1 and isinstance(v0, Range):
            return lambda kk: Range(final(v0.start, kk), final(v0.stop, kk), v0.step)
        if len(vals) == 1 and isinstance(v0, (ListV,)):
            rec = paths[0].heap[v0.id]
            if rec.items is not None:
                parts = [self._general(paths, [x], final, heap_in, base, kv, K) for x in rec.items]
                return lambda kk: ListV(self.alloc(ListRec([f(kk) for f in parts])))
            if not rec.app:
                elem = rec.elem
                ln = rec.length
                j = T.vatom("le%d" % self.loop_depth, True)
                h = self.heap
                self.heap = dict(paths[0].heap)
                try:
                    with T.assuming(*(facts + T.inrange(P(j), ln))):
                        x = elem(P(j))
                    hp = Path(paths[0].conds, "ret", None, self.heap, paths[0].env)
                finally:
                    self.heap = h
                if isinstance(x, Num):
                    return lambda kk: ListV(self.alloc(ListRec(None, final(ln, kk), lambda i: Num(final(x.p, kk, {j.name: P(i)}), x.t, x.np))))
        raise Unsupported("loop value of type %s" % type(v0).__name__)

    def _mergev(self, paths, nb, vals):
        r = vals[-1]
        for p, v in list(zip(paths, vals))[-2::-1]:
            r = mk_ite(And(*p.conds), v, r)
        return r

    def _finish_list(self, l, paths, final, kv, K, heap_in, base):
        i = l.key[1]
        apps = [p.heap[i].app for p in paths]
        if any(len(a) != l.m for a in apps):
            raise Unsupported("conditional append in a loop")
        old = heap_in[i]
        fns = [self._general(paths, [a[j] for a in apps], final, heap_in, base, kv, K) for j in range(l.m)]
        m = l.m
        n0 = l.n0
        olditem = None
        if old.items is not None:
            items = list(old.items)
            olditem = lambda q: items[int(q.const())] if q.const() is not None else self.select(items, q)
        else:
            olditem = old.elem

        def elem(q):
            q = P(q)
            if n0 is not T.ZERO:
                if self.choose(LT(q, n0)):
                    return olditem(q)
                q = q - n0
            if m == 1:
                return fns[0](q)
            c = q.const()
            if c is not None:
                return fns[int(c) % m](P(int(c) // m))
            raise Unsupported("symbolic index of an interleaved list")
        self.heap[i] = ListRec(None, n0 + P(m) * K, elem, ())


BREAK_, CONTINUE_ = "break", "continue"


def _sccs(dep):
    """strongly connected components in dependency order (dependencies first)"""
    index, low, on, st, out = {}, {}, set(), [], []
    n = [0]

    def go(v):
        index[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        on.add(v)
        for w in sorted(dep[v]):
            if w not in index:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = st.pop()
                on.discard(w)
                c.append(w)
                if w == v:
                    break
            out.append(c[::-1])
    order = list(dep)
    for v in order:
        if v not in index:
            go(v)
    # members in a stable order
    pos = {v: i for i, v in enumerate(order)}
    return [sorted(c, key=lambda v: pos[v]) for c in out]


def _minus(E, own):
    """E - own with the subtraction pushed into conditionals"""
    d = E - own
    (m, c), = own.t.items()
    a = m[0][0]
    if not any(a is x for mm in d.t for x, e in mm) and a.name not in d.syms:
        return d
    # E is a conditional: distribute
    if len(E.t) == 1:
        (mm, cc), = E.t.items()
        if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].kind == "ite":
            cnd, p, q = mm[0][0].args
            if P(cc) is T.ONE:
                x, y = _minus(p, own), _minus(q, own)
                if x is None or y is None:
                    return None
                return mk_ite(cnd, x, y)
    its = [x for x in d.atoms() if x.kind == "ite" and a.name in x.syms]
    if len(its) == 1 and len(d.t) <= 6:
        x = its[0]
        cnd, p, q = x.args
        u = _minus(T.replace_atoms(E, {x: p}), own)
        v = _minus(T.replace_atoms(E, {x: q}), own)
        if u is None or v is None:
            return None
        return mk_ite(cnd, u, v)
    return d


def _store_index(E, kv, f):
    """candidate (c0, sign) with 'f == c0 + sign*k' tested in E"""
    out = []
    seen = set()

    def cond(b):
        if b.kind in ("and", "or"):
            for x in b.args:
                cond(x)
        elif b.kind == "not":
            cond(b.args[0])
        elif b.kind == "eq":
            p = b.args[0]
            lf = T._linear_in(p, f)
            if lf is None:
                return
            cf, r = lf
            pos = -r * P(1 / cf)
            lk = T._linear_in(pos, kv)
            if lk is None or abs(lk[0]) != 1 or not lk[1].isint:
                return
            t = (lk[1], int(lk[0]))
            if t not in out:
                out.append(t)

    def walk(p):
        if p in seen:
            return
        seen.add(p)
        for a in p.atoms():
            if a.kind == "ite":
                cond(a.args[0])
                walk(a.args[1])
                walk(a.args[2])
    walk(E)
    return out


def _overwritten(E, own, sym, kv):
    """(condition under which the cell keeps its value, the value stored otherwise), if the condition concerns the index only"""
    if E is own:
        return T.TRUE, None
    a = T.single(E)
    if a is not None and a.kind == "ite" and sym in E.syms:
        c, p, q = a.args
        if kv.name not in c.fv and not any(s == sym for s in c.syms):
            x, y = _overwritten(p, own, sym, kv), _overwritten(q, own, sym, kv)
            if x is not None and y is not None:
                keep = T.Or(T.And(c, x[0]), T.And(Not(c), y[0]))
                return keep, (y[1] if x[1] is None else x[1] if y[1] is None else mk_ite(c, x[1], y[1]))
    return T.FALSE, E


def _unwritten(V, l, kv, p, c0, sg):
    """in V (value stored at iteration k) replace own cells that no earlier iteration can have written by their initial value"""
    if l.sym not in V.syms:
        return V
    k = P(kv)

    def own(kk, *jx):
        it = (jx[p] - c0) * P(sg)      # iteration that writes the cell
        if T.decide(Or(LT(it, 0), LE(k, it))) is True and kk is k:
            return T.subst(l.init, {f.name: j for f, j in zip(l.formals, jx)})
        return T.app(l.sym, kk, *jx, isint=l.isint)
    return T.subst(V, None, {l.sym: own})
