"""Induction over recursive symbols (loop-carried state): equality goals that mention two recursions are proved by a
coupling invariant  b(k+c, idx) == a(k, idx)  for all k >= 0, itself proved by induction from the two definitions."""
from . import terms as T
from . import logic as L
from .terms import P, RECS, EQ, LE

STATS = {"coupled": 0, "induct": 0}


def rec_atoms(p, out=None, seen=None):
    """recursive atoms with the range facts of the binders they are under: list of (atom, depth)"""
    if out is None:
        out, seen = [], set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if isinstance(x, T.Poly):
            for m in x.t:
                for a, e in m:
                    go(a)
        elif isinstance(x, T.Atom):
            if x.kind == "app" and x.name in RECS:
                out.append(x)
            for y in _parts(x):
                go(y)
        elif isinstance(x, T.Bool):
            for y in x.args:
                if isinstance(y, (T.Poly, T.Bool)):
                    go(y)
    go(p)
    return out


def _parts(a):
    if a.kind in ("app", "den"):
        return a.args
    if a.kind == "ite":
        return a.args
    if a.kind == "big":
        dims, bv, bodies, xargs = a.args
        return tuple(dims) + tuple(bodies) + tuple(xargs)
    return ()


def groups_of(p):
    g = {}
    for a in rec_atoms(p):
        g.setdefault(RECS[a.name].group, []).append(a)
    return g


def kdiff(a, b):
    return P(a.args[0]) - P(b.args[0])


def unfold_const(p):
    """h(0,..) -> init, h(c,..) with small constant c -> steps"""
    p = P(p)
    for _ in range(6):
        todo = [a for a in rec_atoms(p) if a.args[0].isconst() and a.args[0].const() <= 3]
        if not todo:
            return p
        syms = {}
        names = {a.name for a in todo}
        for nm in names:
            d = RECS[nm]

            def f(k, *args, nm=nm, d=d):
                if k.isconst() and k.const() <= 0:
                    return d.at0(args)
                if k.isconst() and k.const() <= 3:
                    return d.next(k - 1, args)
                return P(T._mk("app", nm, (k,) + tuple(args), d.isint))
            syms[nm] = f
        p2 = SymRep(syms).poly(p)
        if p2 is p:
            return p
        p = p2
    return p


class SymRep(T.Subst):
    """replaces applications of recursive symbols (their definitions are left alone)"""

    def __init__(self, vars=None, syms=None):
        if syms is None:
            vars, syms = None, vars
        super().__init__(vars, {})
        self.rs = syms
        self.rk = frozenset(syms)
        self.syms = syms
        self.sk = frozenset()

    def touches(self, x):
        return not (x.syms.isdisjoint(self.rk) and x.fv.isdisjoint(self.vk))

    def atom(self, a):
        r = self.ma.get(a)
        if r is None and a.kind == "app" and a.name in RECS:
            args = [self.poly(x) for x in a.args]
            f = self.rs.get(a.name)
            r = f(*args) if f is not None else P(T._mk("app", a.name, tuple(args), a.isint))
            self.ma[a] = r
            return r
        return super().atom(a)


def unfold_cross(p):
    """unfold the recursions whose index is ahead of another recursion's by a small constant (one step)"""
    g = groups_of(p)
    ks = {grp: {P(a.args[0]) for a in atoms} for grp, atoms in g.items()}
    syms = {}
    for grp in g:
        up = set()
        for x in ks[grp]:
            for o in g:
                if o is grp:
                    continue
                ds = [(x - y).const() for y in ks[o] if (x - y).isconst()]
                if ds and 0 < min(ds) <= 3 and T.decide(LE(0, x - 1)) is True:
                    up.add(x)
        if up:
            top = {x for x in up if not any((y - x).isconst() and (y - x).const() > 0 for y in up)}
            for nm in grp:
                syms[nm] = _unf(nm, top)
    if not syms:
        return p
    return SymRep(syms).poly(p)


def unfold_succ(p):
    """h(k+1,..) next to h(k,..): unfold down to the smallest index"""
    for _ in range(6):
        g = groups_of(p)
        syms = {}
        for grp, atoms in g.items():
            ks = []
            for a in atoms:
                k = P(a.args[0])
                if k not in ks:
                    ks.append(k)
            if len(ks) < 2:
                continue
            up = set()
            for x in ks:
                for y in ks:
                    d = x - y
                    if d.isconst() and 0 < d.const() <= 3 and T.decide(LE(0, y)) is True:
                        up.add(x)
            if up:
                for nm in grp:
                    syms[nm] = _unf(nm, up)
        if not syms:
            return p
        q = SymRep(syms).poly(p)
        if q is p:
            return p
        p = q
    return p


def _unf(nm, up):
    d = RECS[nm]

    def f(k, *args):
        if k in up:
            return d.next(k - 1, args)
        return P(T._mk("app", nm, (k,) + tuple(args), d.isint))
    return f


def numeric_zero(p, tries=4, seed=1):
    """cheap refutation of p == 0 under T.CTX (False: differs somewhere; True/None: no difference seen)"""
    r = L.refute_eq(p, 0, list(T.CTX), seed=seed, count=tries)
    if r:
        return False
    return None if r is False else True


# ------------------------------------------------------------------------------------------------ coupling
class Coupling:
    def __init__(self, mapping, c, pa, pb):
        self.mapping, self.c, self.pa, self.pb = mapping, c, pa, pb


_proved = {}
_failed = set()


def nidx(nm):
    return sum(1 for f in RECS[nm].formals if f.name.startswith("@f"))


def couple(A, atA, B, atB, depth):
    """A, B: groups; atA, atB: one atom of each from the goal.  Try to prove B's symbols equal A's with the index
    offset c = k_B - k_A and the parameters of the two atoms.  Returns {b symbol: function} or None"""
    if len(A) > len(B):
        pass
    c = kdiff(atB, atA)
    pa, pb = atA.args[1 + nidx(atA.name):], atB.args[1 + nidx(atB.name):]
    fv = set(c.fv)
    for q in tuple(pa) + tuple(pb):
        fv |= q.fv
    # the invariant is first tried for all k, then for the k up to the index of the goal
    for hi in (None, P(atA.args[0])):
        if hi is not None:
            if hi.isconst() or (hi.fv and all("~" in v for v in hi.fv) and _isvar(hi) is None):
                continue
            fv |= hi.fv
        glob = tuple(f for f in T.CTX if f.fv and f.fv <= fv)
        key = (A, B, c, pa, pb, glob, hi)
        if key in _proved:
            return _proved[key]
        if key in _failed:
            continue
        save = list(T.CTX)
        try:
            T.CTX[:] = glob
            r = _couple(A, atA, B, atB, depth, c, pa, pb, key, hi)
            if r is not None:
                return r
        finally:
            T.CTX[:] = save
    return None


def _couple(A, atA, B, atB, depth, c, pa, pb, key, hi=None):
    k = T.fresh("k")
    kp = P(k)
    facts = [LE(0, kp)]
    if hi is not None:
        facts.append(LE(kp, hi))
    # symbol matching by numeric fingerprints
    cand = {}
    for b in B:
        for a in A:
            if nidx(a) != nidx(b) or RECS[a].isint != RECS[b].isint:
                continue
            fs = [T.fresh("f") for _ in range(nidx(a))]
            ta = P(T._mk("app", a, (kp,) + tuple(P(f) for f in fs) + tuple(pa), RECS[a].isint))
            tb = P(T._mk("app", b, (kp + c,) + tuple(P(f) for f in fs) + tuple(pb), RECS[b].isint))
            fx = facts + [q for f in fs for q in (LE(0, P(f)), LE(P(f), 3))] + [LE(kp, 4)]
            with T.assuming(*fx):
                z = numeric_zero(ta - tb)
            if z is not False:
                cand.setdefault(b, []).append(a)
    if len(cand) < len(B) and atB.name not in cand:
        _failed.add(key)
        return None
    import itertools
    bs = [b for b in B if b in cand]
    n = 0
    for choice in itertools.product(*[cand[b] for b in bs]):
        n += 1
        if n > 6:
            break
        mp = dict(zip(bs, choice))
        f = _try(mp, c, pa, pb, k, facts, depth, hi)
        if f is not None:
            _proved[key] = f
            STATS["coupled"] += 1
            return f
    _failed.add(key)
    return None


def _rw(mp, c, pa, pb, lo=None, hi=None):
    """rewriter b(kk, idx, pb) -> a(kk - c, idx, pa)"""
    out = {}
    for b, a in mp.items():
        n = nidx(b)

        def f(kk, *args, b=b, a=a, n=n):
            me = P(T._mk("app", b, (kk,) + tuple(args), RECS[b].isint))
            if tuple(args[n:]) != tuple(pb):
                return me
            j = kk - c
            tgt = P(T._mk("app", a, (j,) + tuple(args[:n]) + tuple(pa), RECS[a].isint))
            g = T.TRUE if c is T.ZERO else LE(0, j)
            if lo is not None:
                g = T.And(g, LE(j, lo))
            elif hi is not None:
                g = T.And(g, LE(j, hi))
            if g is T.TRUE:
                return tgt
            d = T.decide(g)
            if d is True:
                return tgt
            if d is False:
                return me
            return T.mk_ite(g, tgt, me)
        out[b] = f
    return out


def _try(mp, c, pa, pb, k, facts, depth, hi=None):
    kp = P(k)
    # base
    for b, a in mp.items():
        fs = [T.fresh("f") for _ in range(nidx(b))]
        ix = [P(f) for f in fs]
        # recursions are only ever evaluated inside their arrays: any index is allowed, no range facts are used
        with T.assuming(*facts):
            ia = RECS[a].at0(ix + list(pa))
            if c.isconst():
                ib = unfold_const(P(T._mk("app", b, (c,) + tuple(ix) + tuple(pb), RECS[b].isint)))
            else:
                ib = P(T._mk("app", b, (c,) + tuple(ix) + tuple(pb), RECS[b].isint))
            if prove_zero(ia - ib, depth - 1) is None:
                return None
    rw = _rw(mp, c, pa, pb, lo=kp)
    if hi is not None:
        facts = facts + [LE(kp + 1, hi)]
    for b, a in mp.items():
        fs = [T.fresh("f") for _ in range(nidx(b))]
        ix = [P(f) for f in fs]
        with T.assuming(*facts):
            sa = RECS[a].next(kp, ix + list(pa))
            sb = RECS[b].next(kp + c, ix + list(pb))
            sb = SymRep(rw).poly(sb)
            if prove_zero(sa - sb, depth - 1) is None:
                return None
    return _rw(mp, c, pa, pb, hi=hi)


def prove_zero(p, depth=3):
    """equality prover with coupling induction"""
    p = P(p)
    p = unfold_const(p)
    h = L.prove_zero(p)
    if h is not None:
        return h
    if depth <= 0:
        return None
    q = settle(p)
    if q is not p:
        h = prove_zero(q, depth - 1)
        if h is not None:
            return "induction"
    g = groups_of(p)
    if not g:
        return None
    if len(g) == 1:
        q = unfold_succ(p)
        if q is not p:
            h = L.prove_zero(q)
            if h is not None:
                return h + "+unfold"
            p = q
            g = groups_of(p)
            if not g:
                return None
    if numeric_zero(p) is False:
        return None
    q = unfold_cross(p)
    if q is not p and not (q - p).t.__len__() == 0:
        h = prove_zero(q, depth - 1)
        if h is not None:
            return h
    gl = sorted(g, key=lambda x: tuple(RECS[s].init.height + RECS[s].step.height for s in x))
    for i, A in enumerate(gl):
        for B in gl[i:]:
            for X, Y in (((A, B), (B, A)) if A is not B else ((A, A),)):
                done = set()
                for a in g[X]:
                    for b in g[Y]:
                        if a is b or nidx(a.name) != nidx(b.name):
                            continue
                        d = kdiff(b, a)
                        if d.isconst() and d.const() < 0:
                            continue
                        pa, pb = a.args[1 + nidx(a.name):], b.args[1 + nidx(b.name):]
                        if X is Y and d.isconst() and pa == pb:
                            continue
                        kk = (d, pa, pb)
                        if kk in done or len(done) > 6:
                            continue
                        if any(v.startswith("c#") or v.startswith("m#") for v in d.fv):
                            continue
                        if T.decide(LE(0, d)) is not True:
                            continue
                        done.add(kk)
                        rw = couple(X, a, Y, b, depth)
                        if rw is None:
                            continue
                        r = L.rebuild(SymRep(rw).poly(p))
                        if r is p:
                            continue
                        h = prove_zero(r, depth - 1)
                        if h is not None:
                            return "induction"
    if len(g) > 1:
        q = unfold_succ(p)
        if q is not p:
            h = prove_zero(q, depth - 1)
            if h is not None:
                return h + "+unfold"
    return induct(p, depth)


_settled = {}


def settled(nm):
    """does the recursion keep its initial value for ever?  (init is a fixed point of its step)"""
    d = RECS[nm]
    par = set(f.name for f in d.formals if not f.name.startswith("@f"))
    facts = [f for f in T.CTX if f.fv and f.fv <= par]
    key = (nm, frozenset(facts))
    r = _settled.get(key)
    if r is None:
        _settled[key] = False
        if nm.startswith("c!"):
            return False
        ni = nidx(nm)
        args = [P(f) for f in d.formals]
        k = P(T.vatom("k.settled", True))
        save = list(T.CTX)
        try:
            T.CTX[:] = facts + [LE(0, k)]
            init = d.at0(args)
            pa = tuple(args[ni:])

            def f(kk, *a):
                if tuple(a[ni:]) == pa:
                    return d.at0(list(a))
                return P(T._mk("app", nm, (kk,) + tuple(a), d.isint))
            st = SymRep({nm: f}).poly(d.next(k, args))
            z = st - init
            r = z is T.ZERO or (numeric_zero(z, 2) is not False and prove_zero(z, 1) is not None)
        finally:
            T.CTX[:] = save
        _settled[key] = r
    return r


def settle(p):
    names = {nm for nm in p.syms if nm in RECS}
    names = {nm for nm in names if settled(nm)}
    if not names:
        return p
    return SymRep({nm: (lambda d: lambda k, *a: d.at0(list(a)))(RECS[nm]) for nm in names}).poly(p)


def induct(p, depth):
    """goal  c*h(k, idx) + rest == 0 with k, idx variables: prove h(k,idx) == -rest/c for all k by induction"""
    for m, c in p.t.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        a = m[0][0]
        if a.kind != "app" or a.name not in RECS:
            continue
        d = RECS[a.name]
        if len(d.group) != 1:
            continue
        n = nidx(a.name)
        ks = a.args[:1 + n]
        if not all(len(x.t) == 1 and T.leading(x)[0].__len__() == 1 for x in ks if not x.isconst()):
            continue
        vs = []
        for x in ks:
            at = _isvar(x)
            vs.append(at)
        if any(v is None for v in vs) or len(set(vs)) < len(vs):
            continue
        E = (P(a) * P(c) - p) * P(1 / c)
        if a.name in E.syms:
            continue
        kv = vs[0]
        # E as function of (k, idx)
        pa = a.args[1 + n:]

        def Ef(kk, *ix):
            return T.subst(E, dict(zip([v.name for v in vs], (kk,) + tuple(ix))))
        names = {v.name for v in vs}
        facts = [f for f in T.CTX if not (names & f.fv)]
        save = list(T.CTX)
        try:
            T.CTX[:] = facts
            ix = [P(v) for v in vs[1:]]
            if prove_zero(d.at0(list(ix) + list(pa)) - Ef(T.ZERO, *ix), depth - 1) is None:
                continue
            T.CTX.append(LE(0, P(kv)))
            st = d.next(P(kv), list(ix) + list(pa))

            def f(kk, *args):
                if tuple(args[n:]) == tuple(pa):
                    return Ef(kk, *args[:n])
                return P(T._mk("app", a.name, (kk,) + tuple(args), d.isint))
            st = SymRep({a.name: f}).poly(st)
            if prove_zero(st - Ef(P(kv) + 1, *ix), depth - 1) is None:
                continue
            STATS["induct"] += 1
            return "induction"
        finally:
            T.CTX[:] = save
    return None


def _isvar(x):
    if len(x.t) == 1:
        m, c = next(iter(x.t.items()))
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var":
            return m[0][0]
    return None
