"""Decision procedures over terms: z3 translation, cached decide, equality prover, numeric evaluation."""
import math
import random
import time
from fractions import Fraction

import z3

from .opaque import permutation, stream
from . import terms as T
from . import lin
from .terms import P, Poly, TRUE, FALSE, Not, And, Or, EQ, LE, LT

STATS = {"z3_calls": 0, "z3_time": 0.0, "nf": 0, "z3": 0, "lin": 0}

# ------------------------------------------------------------------------------------------------ translation to z3
_tr_memo = {}
_tr_ax = {}
_uf = {}


def _const(name, isint):
    return z3.Int(name) if isint else z3.Real(name)


def _real(x):
    return z3.ToReal(x) if z3.is_int(x) else x


def tr(p):
    """Poly -> (z3 expr, frozenset of axioms)"""
    r = _tr_memo.get(p)
    if r is not None:
        return r
    ax = set()
    isint = p.isint
    terms = []
    for m, c in p.t.items():
        if isint:
            e = z3.IntVal(int(c))
        else:
            e = z3.RealVal(str(c))
        one = c == 1
        for a, k in m:
            x, axx = tr_atom(a)
            ax |= axx
            if not isint:
                x = _real(x)
            if k < 0:
                rec = z3.Real("rec!%d" % a.uid)
                ax.add(rec * _real(tr_atom(a)[0]) == 1)
                x = rec
                k = -k
            for _ in range(k):
                e = x if one else e * x
                one = False
        terms.append(e)
    if not terms:
        e = z3.IntVal(0)
    elif len(terms) == 1:
        e = terms[0]
    else:
        e = z3.Sum(terms)
    r = (e, frozenset(ax))
    _tr_memo[p] = r
    return r


_atom_memo = {}


def tr_atom(a):
    r = _atom_memo.get(a)
    if r is not None:
        return r
    ax = set()
    k = a.kind
    if k == "var":
        e = _const("v!" + a.name, a.isint)
    elif k == "ite":
        c, axc = trb(a.args[0])
        x, ax1 = tr(a.args[1])
        y, ax2 = tr(a.args[2])
        ax |= axc | ax1 | ax2
        if z3.is_int(x) != z3.is_int(y):
            x, y = _real(x), _real(y)
        e = z3.If(c, x, y)
        if not a.isint:
            e = _real(e)
    elif k == "den":
        e, axx = tr(a.args[0])
        ax |= axx
        e = _real(e)
    elif k == "app":
        args = []
        for x in a.args:
            v, axx = tr(x)
            ax |= axx
            args.append(v)
        n = a.name
        if n == "abs":
            e = z3.If(args[0] >= 0, args[0], -args[0])
        elif n == "sign":
            e = z3.If(args[0] > 0, z3.IntVal(1), z3.If(args[0] < 0, z3.IntVal(-1), z3.IntVal(0)))
        elif n in ("trunc", "floor", "ceil", "rint"):
            e = z3.Int("t!%d" % a.uid)
            x = _real(args[0])
            if n == "floor":
                ax.add(z3.And(z3.ToReal(e) <= x, x < z3.ToReal(e) + 1))
            elif n == "ceil":
                ax.add(z3.And(z3.ToReal(e) >= x, x > z3.ToReal(e) - 1))
            elif n == "trunc":
                ax.add(z3.If(x >= 0, z3.And(z3.ToReal(e) <= x, x < z3.ToReal(e) + 1),
                             z3.And(z3.ToReal(e) >= x, x > z3.ToReal(e) - 1)))
            else:
                ax.add(z3.And(z3.ToReal(e) - x <= z3.Q(1, 2), x - z3.ToReal(e) <= z3.Q(1, 2)))
        elif n in ("mod", "fdiv") and z3.is_int(args[0]) and z3.is_int(args[1]) and a.args[1].isconst() \
                and a.args[1].const() > 0:
            e = args[0] % args[1] if n == "mod" else args[0] / args[1]
        else:
            e = _const("a!%d" % a.uid, a.isint) if not args else \
                _ufun(n, [x.sort() for x in args], a.isint)(*args)
            if n == "sqrt":
                x = _real(args[0])
                ax.add(e >= 0)
                ax.add(z3.Implies(x >= 0, e * e == x))
            elif n == "exp":
                ax.add(e > 0)
            elif n == "tanh":
                x = _real(args[0])
                ax.add(z3.And(e < 1, e > -1, (e > 0) == (x > 0), (e < 0) == (x < 0)))
            elif n == "perm":
                ax.add(z3.Implies(z3.And(args[2] >= 0, args[2] < args[1]), z3.And(e >= 0, e < args[1])))
            elif n == "pow":
                ax.add(z3.Implies(_real(args[0]) > 0, e > 0))
            elif n in ("log10", "log"):
                x = _real(args[0])
                ax.add(z3.Implies(x >= 1, z3.And(e >= 0, e <= x - 1)))
                ax.add(z3.Implies(z3.And(x > 0, x < 1), e < 0))
    else:  # big
        e = _const("b!%d" % a.uid, a.isint)
        if a.nonneg:
            ax.add(e >= 0)
        if a.name == "ncls":
            d, ax1 = tr(a.args[0][0])
            ax |= ax1
            ax.add(z3.And(e <= d, z3.Implies(d >= 1, e >= 1)))
        if a.name == "sum" and a.isint:
            k = _class_size(a)
            if k is not None:
                i, ax1 = tr(k.args[3][0])
                c, ax2 = tr(P(T._mk("big", "ncls", k.args[:3] + ((),), True)))
                ax |= ax1 | ax2
                ax.add(z3.Implies(z3.And(i >= 0, i < c), e >= 1))       # every class has a member
        if a.name in ("nth", "argsort", "argmax", "argmin"):
            dims, bv, bodies, xargs = a.args
            ax.add(e >= 0)
            d, ax1 = tr(dims[0])
            ax |= ax1
            if a.name in ("argmax", "argmin"):
                ax.add(z3.Implies(d > 0, e < d))
            else:
                i, ax2 = tr(xargs[0])
                ax |= ax2
                top = d
                if a.name == "nth":
                    top, ax3 = tr(T.mk_sum(bv[0], dims[0], bodies[0]))
                    ax |= ax3
                ax.add(z3.Implies(z3.And(i >= 0, i < top), e < d))
    r = (e, frozenset(ax))
    _atom_memo[a] = r
    return r


def _class_size(a):
    """the cls atom if `a` counts the elements that equal it"""
    dims, bv, bodies, _ = a.args
    x = T.single(bodies[0])
    if len(dims) != 1 or x is None or x.kind != "ite" or x.args[1] is not T.ONE or x.args[2] is not T.ZERO or x.args[0].kind != "eq":
        return None
    p = x.args[0].args[0]
    for k in p.atoms():
        if k.kind == "big" and k.name == "cls" and bv[0].name not in k.fv and k.args[0] == dims:
            l = T.subst(k.args[2][0], {k.args[1][0].name: P(bv[0])})
            if p is l - P(k) or p is P(k) - l:
                return k
    return None


def _ufun(name, sorts, isint):
    key = (name, tuple(s.name() for s in sorts), isint)
    f = _uf.get(key)
    if f is None:
        f = z3.Function("f!%s!%d" % (name, len(_uf)), *sorts, z3.IntSort() if isint else z3.RealSort())
        _uf[key] = f
    return f


_trb_memo = {}


def trb(b):
    r = _trb_memo.get(b)
    if r is not None:
        return r
    k = b.kind
    if k in ("eq", "le", "lt"):
        e, ax = tr(b.args[0])
        z = 0
        e = e == z if k == "eq" else (e <= z if k == "le" else e < z)
        r = (e, ax)
    elif k == "not":
        e, ax = trb(b.args[0])
        r = (z3.Not(e), ax)
    elif k in ("and", "or"):
        es, ax = [], set()
        for x in b.args:
            e, a = trb(x)
            es.append(e)
            ax |= a
        r = ((z3.And if k == "and" else z3.Or)(*es), frozenset(ax))
    elif k == "true":
        r = (z3.BoolVal(True), frozenset())
    elif k == "false":
        r = (z3.BoolVal(False), frozenset())
    else:
        r = (z3.Bool("p!" + str(b.args[0])), frozenset())
    _trb_memo[b] = r
    return r


# ------------------------------------------------------------------------------------------------ decide
_keys_memo = {}


def keys(x):
    """names whose sharing makes a fact relevant to a query"""
    r = _keys_memo.get(x)
    if r is None:
        r = frozenset(x.fv | frozenset("@" + s for s in x.syms if s not in T.BUILTIN_APPS))
        _keys_memo[x] = r
    return r


def relevant(facts, b):
    ks = set(keys(b))
    left = [f for f in facts if f.size < 4000]
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for f in left:
            kf = keys(f)
            if not kf or kf & ks:
                out.append(f)
                if not kf <= ks:
                    ks |= kf
                    changed = True
            else:
                rest.append(f)
        left = rest
    return out


_dec_cache = {}
RLIMIT = 400000
Z3LOG = __import__("os").environ.get("PYVC_Z3LOG")


def _check(exprs, rlimit):
    s = z3.Solver()
    s.set("rlimit", rlimit)
    s.set("timeout", 8000)       # successes take well under a second; the limit that decides is the resource limit
    for e in exprs:
        s.add(e)
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["z3_calls"] += 1
    STATS["z3_time"] += time.time() - t
    if Z3LOG and time.time() - t > 0.5:
        open(Z3LOG, "a").write("%.1f %s %s\n" % (time.time() - t, r, rlimit))
    return r, s


def entails(facts, b, rlimit=None):
    """True if facts |- b, else None"""
    fs = relevant(facts, b)
    key = (frozenset(fs), b)
    r = _dec_cache.get(key, 0)
    if r == 0:
        r = lin.entails(fs, b)
        if r != "?":
            STATS["lin"] += 1
            _dec_cache[key] = r
            return r
        exprs = []
        ax = set()
        for f in fs:
            e, a = trb(f)
            exprs.append(e)
            ax |= a
        e, a = trb(b)
        ax |= a
        res, _ = _check(exprs + list(ax) + [z3.Not(e)], rlimit or RLIMIT)
        r = True if res == z3.unsat else None
        _dec_cache[key] = r
    return r


_quick = {}


def decide(b):
    if b.kind in ("and",):
        vals = [T.decide(x) for x in b.args]
        if all(v is True for v in vals):
            return True
        if any(v is False for v in vals):
            return False
        return None if len(T.CTX) == 0 else _dec2(b)
    if b.kind == "or":
        r = decide(Not(b))
        return None if r is None else (not r)
    return _dec2(b)


def _dec2(b):
    if not T.CTX and not b.syms:
        pass
    if entails(T.CTX, b):
        return True
    if entails(T.CTX, Not(b)):
        return False
    return None


T.DECIDE[0] = decide


def feasible(facts):
    exprs, ax = [], set()
    for f in facts:
        e, a = trb(f)
        exprs.append(e)
        ax |= a
    r, s = _check(exprs + list(ax), RLIMIT)
    return r != z3.unsat


def model_hints(facts, extra=()):
    """a z3 model of the facts: {variable name: Fraction}"""
    exprs, ax = list(extra), set()
    for f in facts:
        if f.size > 4000:
            continue
        e, a = trb(f)
        exprs.append(e)
        ax |= a
    r, s = _check(exprs + list(ax), 4 * RLIMIT)
    if r != z3.sat:
        return None
    out = {}
    m = s.model()
    for d in m.decls():
        if d.arity() == 0 and d.name().startswith("v!"):
            v = m[d]
            try:
                if z3.is_int_value(v):
                    out[d.name()[2:]] = Fraction(v.as_long())
                elif z3.is_rational_value(v):
                    out[d.name()[2:]] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                elif z3.is_algebraic_value(v):
                    q = v.approx(12)
                    out[d.name()[2:]] = Fraction(q.numerator_as_long(), q.denominator_as_long())
            except Exception:
                pass
    return out


# ------------------------------------------------------------------------------------------------ rebuilding under facts
class Rebuild(T.Subst):
    """re-normalises a term bottom-up under the facts in force"""

    def touches(self, x):
        return x.height > 0 or self.hasite(x) or super().touches(x)

    _memo_ite = {}

    def hasite(self, x):
        r = self._memo_ite.get(x)
        if r is None:
            if isinstance(x, Poly):
                r = any(self.hasite(a) for m in x.t for a, e in m)
            elif isinstance(x, T.Atom):
                r = x.kind in ("ite", "big") or (x.kind != "var" and any(self.hasite(y) for y in x.args))
            elif isinstance(x, T.Bool):
                r = any(self.hasite(y) for y in x.args if isinstance(y, (Poly, T.Bool)))
            else:
                r = False
            self._memo_ite[x] = r
        return r


def rebuild(p):
    return Rebuild().poly(p)


class Indic(Rebuild):
    """rewrites every case distinction into products with 0/1 indicators: (c ? A : B) = B + [c](A - B), [c][c] = [c]"""

    def lit(self, b):
        k = b.kind
        if b is T.TRUE:
            return T.ONE
        if b is T.FALSE:
            return T.ZERO
        if k in ("le", "lt", "eq"):
            x = self.poly(b.args[0])
            if k == "le" and T.decide(LE(0, x)) is True:
                k = "eq"
            return T.mk_app("?" + k, x)
        if k == "not":
            x = self.lit(b.args[0])
            return None if x is None else T.ONE - x
        if k in ("and", "or"):
            r = T.ONE
            for y in b.args:
                x = self.lit(y)
                if x is None:
                    return None
                r = self.norm(r * (x if k == "and" else T.ONE - x))
            return r if k == "and" else T.ONE - r
        return None

    def atom(self, a):
        if a.kind == "ite":
            r = self.ma.get(a)
            if r is None:
                c = self.lit(a.args[0])
                if c is None:
                    return super().atom(a)
                p, q = self.poly(a.args[1]), self.poly(a.args[2])
                r = self.ma[a] = self.norm(q + c * (p - q))
            return r
        return super().atom(a)

    def norm(self, p):
        return idem(p, self.__dict__.setdefault("pairs", {}))

    def poly(self, p):
        return self.norm(super().poly(p))


def _isind(a):
    return a.kind == "app" and a.name in ("?le", "?lt", "?eq")


def _lit_of(a):
    x = a.args[0]
    return T.eq0(x) if a.name == "?eq" else T.le0(x) if a.name == "?le" else T.lt0(x)


def idem(p, cache=None):
    """products of indicators: [c][c] = [c]; [a][b] = [a] if a implies b, 0 if they exclude each other; what [v = t] says of v
    is used in the other factors"""
    if not any(_isind(a) for m in p.t for a, e in m):
        return p
    if cache is None:
        cache = {}
    r = T.ZERO
    todo = list(p.t.items())
    while todo:
        m, c = todo.pop()
        inds = [a for a, e in m if _isind(a)]
        if not inds:
            r = r + T._poly({m: c})
            continue
        new = None
        for a in inds:
            if a.name != "?eq":
                continue
            for mm, k in a.args[0].t.items():
                if len(mm) == 1 and mm[0][0].kind == "var" and mm[0][1] == 1 and (a.args[0] - P(mm[0][0]) * P(k)).isconst():
                    v = mm[0][0]
                    t = P(v) - a.args[0] * P(1 / k)
                    if any(v.name in b.fv for b, e in m if b is not a):
                        new = T._poly({((a, 1),): c}) * T.subst(T._poly({tuple(z for z in m if z[0] is not a): T.ONE_F}), {v.name: t})
                    break
            if new is not None:
                break
        if new is None:
            drop = set()
            zero = False
            for a in inds:
                for b in inds:
                    if a is b or a in drop or b in drop:
                        continue
                    d = cache.get((a, b), 0)
                    if d == 0:
                        with T.assuming(_lit_of(a)):
                            d = cache[(a, b)] = T.decide(_lit_of(b))
                    if d is False:
                        zero = True
                        break
                    if d is True:
                        drop.add(b)
                if zero:
                    break
            if zero:
                continue
            if drop or any(e > 1 and _isind(a) for a, e in m):
                m = tuple((a, 1 if _isind(a) else e) for a, e in m if a not in drop)
            r = r + T._poly({m: c})
            continue
        todo.extend(new.t.items())
    return r


def indic(p):
    return Indic().poly(p)


# ------------------------------------------------------------------------------------------------ proving equalities
def clear_denominators(p):
    """multiply by every denominator; result is zero iff p is (where defined)"""
    for _ in range(8):
        neg = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    neg[a] = min(neg.get(a, 0), e)
        # positive den atoms are expanded
        if not neg:
            break
        mult = T.ONE
        q = T.ZERO
        for m, c in p.t.items():
            d = dict(m)
            term = P(c)
            for a in neg:
                e = d.pop(a, 0) - neg[a]
                if e:
                    term = term * ((a.args[0] if a.kind == "den" else P(a)) ** e)
            for a, e in d.items():
                term = term * (T.inv(P(a)) ** (-e) if e < 0 else P(a) ** e)
            q = q + term
        p = q
    return p


def eliminate(p, facts):
    """use equality facts var == expr as substitutions"""
    for f in facts:
        fs = f.args if f.kind == "and" else (f,)
        for g in fs:
            if g.kind != "eq":
                continue
            q = g.args[0]
            for m, c in q.t.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var":
                    v = m[0][0]
                    r = (P(v) * P(c) - q) * P(1 / c)
                    if v.name in r.fv or (v.isint and not r.isint) or v.name not in p.fv:
                        continue
                    if not _subst_pref(v, r):
                        continue
                    p = T.subst(p, {v.name: r})
                    break
    return p


def _subst_pref(v, r):
    # avoid replacing a variable by a term with variables that come "before" it: any order terminates because each
    # equation is used once
    return True


def find_split(p):
    """an ite condition occurring (outside binders) in p"""
    best = None
    for m in p.t:
        for a, e in m:
            c = _find_split_atom(a)
            if c is not None and (best is None or c.size < best.size):
                best = c
    return best


_fs_memo = {}


def _find_split_atom(a):
    if a in _fs_memo:
        return _fs_memo[a]
    r = None
    if a.kind == "ite":
        r = a.args[0]
        inner = None
        for x in a.args[1:]:
            pass
        if r.kind in ("and", "or"):
            r = r.args[0]
    elif a.kind in ("app", "den"):
        for x in a.args:
            r = find_split(x)
            if r is not None:
                break
    elif a.kind == "big":
        dims, bv, bodies, xargs = a.args
        for x in tuple(dims) + tuple(xargs):
            r = find_split(x)
            if r is not None:
                break
        if r is None:
            names = {v.name for v in bv}
            for b in bodies:
                r = _free_split(b, names)
                if r is not None:
                    break
    _fs_memo[a] = r
    return r


def _free_split(p, names):
    for m in p.t:
        for a, e in m:
            if a.kind == "ite":
                c = a.args[0]
                for q in (c.args if c.kind in ("and", "or") else (c,)):
                    if not (q.fv & names):
                        return q
            if a.kind in ("app", "den"):
                for x in a.args:
                    r = _free_split(x, names)
                    if r is not None:
                        return r
            if a.kind == "big":
                inner = names | {v.name for v in a.args[1]}
                for b in a.args[2]:
                    r = _free_split(b, inner)
                    if r is not None:
                        return r
    return None


class Result:
    def __init__(self, status, how="", info=None):
        self.status, self.how, self.info = status, how, info

    def __bool__(self):
        return self.status == "proved"

    def __repr__(self):
        return "Result(%s,%s,%s)" % (self.status, self.how, self.info)


def prove_zero(p, depth=10):
    """prove p == 0 under T.CTX; returns how or None"""
    try:
        return _prove_zero(p, depth)
    except ZeroDivisionError:
        return None


def _prove_zero(p, depth=10):
    p = P(p)
    if p is T.ZERO:
        return "nf"
    try:
        p = eliminate(p, T.CTX)
        p = rebuild(p)
        if p is T.ZERO:
            return "nf"
        q = clear_denominators(p)
        if q is T.ZERO:
            return "nf"
        if depth == 10 and p.size < 4000 and Rebuild().hasite(p) and indic(q) is T.ZERO:
            return "nf+cases"
        c = find_split(p)
        if c is not None and depth > 0:
            d = T.decide(c)
            if d is None:
                hows = []
                for lit in (c, Not(c)):
                    with T.assuming(lit):
                        h = prove_zero(p, depth - 1)
                    if h is None:
                        return None
                    hows.append(h)
                return "nf+cases" if all(h.startswith("nf") for h in hows) else "z3"
        q2 = combine_sums(q)
        if q2 is T.ZERO:
            return "nf"
        q3 = match_bigs(q2, depth)
        if q3 is not q2:
            if q3 is T.ZERO:
                return "nf"
            h = prove_zero(q3, depth - 1)
            if h is not None:
                return h
    except T.TooBig:
        return None
    if q.size < 1500:
        if entails(T.CTX, T.eq0(q), 4 * RLIMIT):
            return "z3"
    return None


def combine_sums(p):
    """merge c*S1 + c'*S2 with equal dims into one sum and simplify its body under the index range"""
    groups = {}
    rest = T.ZERO
    for m, c in p.t.items():
        sums = [(a, e) for a, e in m if a.kind == "big" and a.name == "sum" and e == 1]
        if len(sums) != 1:
            rest = rest + T._poly({m: c})
            continue
        s = sums[0][0]
        other = tuple((a, e) for a, e in m if a is not s)
        groups.setdefault((s.args[0],), []).append((s, other, c))
    r = rest
    for (dims,), items in groups.items():
        new = [T.fresh("c") for _ in dims]
        body = T.ZERO
        for s, other, c in items:
            bv = s.args[1]
            b = T.subst(s.args[2][0], {o.name: P(w) for o, w in zip(bv, new)})
            body = body + b * P(c) * (T._poly({other: T.ONE_F}) if other else T.ONE)
        facts = []
        for w, d in zip(new, dims):
            facts += T.inrange(P(w), d)
        with T.assuming(*facts):
            b2 = rebuild(body)
            if b2 is T.ZERO or clear_denominators(b2) is T.ZERO:
                continue
            if len(items) > 1 and find_split(b2) is not None and prove_zero(b2, 4):
                continue
        r = r + T.mk_big("sum", list(zip(new, dims)), (b2,))
    return r


def bigs_in(p, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    for m in p.t:
        for a, e in m:
            if a in seen:
                continue
            seen.add(a)
            if a.kind == "big":
                out.append(a)
                for x in a.args[3]:
                    bigs_in(x, out, seen)
            elif a.kind == "ite":
                for x in a.args[1:]:
                    bigs_in(x, out, seen)
            elif a.kind in ("app", "den"):
                for x in a.args:
                    bigs_in(x, out, seen)
    return out


def match_bigs(p, depth):
    """identify binder atoms whose bodies are provably equal on their range"""
    bs = [a for a in bigs_in(p)]
    bs.sort(key=lambda a: (a.height, a.uid))
    rep = {}
    used = []
    for a in bs:
        hit = None
        for b in used:
            if b.name != a.name or len(b.args[1]) != len(a.args[1]) or len(b.args[2]) != len(a.args[2]) \
                    or len(a.args[3]) != len(b.args[3]):
                continue
            if any(prove_zero(x - y, 1) is None for x, y in zip(a.args[0], b.args[0])):
                continue
            if any(prove_zero(x - y, 1) is None for x, y in zip(a.args[3], b.args[3])):
                continue
            new = [T.fresh("m") for _ in a.args[1]]
            facts = []
            for w, d in zip(new, a.args[0]):
                facts += T.inrange(P(w), d)
            ok = True
            with T.assuming(*facts):
                for x, y in zip(a.args[2], b.args[2]):
                    x = T.subst(x, {o.name: P(w) for o, w in zip(a.args[1], new)})
                    y = T.subst(y, {o.name: P(w) for o, w in zip(b.args[1], new)})
                    if x is not y and prove_zero(x - y, min(depth - 1, 4)) is None:
                        ok = False
                        break
            if ok:
                hit = b
                break
        if hit is not None:
            rep[a] = P(hit)
        else:
            used.append(a)
    if not rep:
        return p
    return AtomRep(rep).poly(p)


class AtomRep(T.Subst):
    def __init__(self, rep):
        super().__init__({}, {})
        self.rep = rep

    def touches(self, x):
        return True

    def atom(self, a):
        r = self.rep.get(a)
        if r is not None:
            return r
        if a.kind == "var":
            return P(a)
        if a.kind == "big":
            if a in self.ma:
                return self.ma[a]
            # only rewrite the outside of binders
            dims, bv, bodies, xargs = a.args
            nx = tuple(self.poly(x) for x in xargs)
            r = P(a) if nx == xargs else T.mk_big(a.name, [(v, d) for v, d in zip(bv, dims)], bodies, nx, a.isint)
            self.ma[a] = r
            return r
        return super().atom(a)


def prove_eq(lhs, rhs, facts=()):
    with T.assuming(*facts):
        return prove_zero(P(lhs) - P(rhs))


def prove_bool(b, facts=(), rlimit=None):
    with T.assuming(*facts):
        if b is TRUE:
            return "nf"
        if b.kind == "and":
            hs = [prove_bool(x) for x in b.args]
            return None if any(h is None for h in hs) else ("nf" if all(h == "nf" for h in hs) else "z3")
        if b.kind == "eq":
            h = prove_zero(b.args[0])
            if h:
                return h
        return "z3" if entails(T.CTX, b, rlimit or 20 * RLIMIT) else None


# ------------------------------------------------------------------------------------------------ numeric evaluation
class Undefined(Exception):
    pass


RECS = T.RECS
RecDef = T.RecDef


class Env:
    def __init__(self, rng, vals=None, ufs=None, scale=1.0):
        self.rng = rng
        self.vals = dict(vals or {})
        self.ufs = dict(ufs or {})
        self.memo = {}
        self.scale = scale
        self.ranges = {}
        self.budget = 400000
        self.exact = False          # real samples as short fractions: polynomial terms are evaluated without rounding
        self.wobble = 0.0           # relative disturbance of the samples, to recognise ill-conditioned evaluations

    def uf(self, name, args, isint):
        if name in ("gauss#", "unif#"):
            v = stream(name, args[0])
            return Fraction(v) if self.exact else v
        f = self.ufs.get(name)
        if f is not None:
            return f(*args)
        key = (name,) + tuple(round(a, 9) if isinstance(a, float) else a for a in args)
        v = self.memo.get(key)
        if v is None:
            r = random.Random(repr(key) + str(self.rng))
            v = r.randint(-4, 4) if isint else r.uniform(-2, 2) * self.scale
            if not isint:
                if self.exact:
                    v = Fraction(round(v * 32), 32)
                elif self.wobble:
                    v *= 1 + self.wobble * (1 if r.random() < 0.5 else -1)
            self.memo[key] = v
        return v

    def var(self, a):
        v = self.vals.get(a.name)
        if v is None:
            r = random.Random(a.name + str(self.rng))
            v = r.randint(0, 3) if a.isint else r.uniform(-2, 2)
            self.vals[a.name] = v
        return v


def ev(p, env):
    s = 0
    for m, c in p.t.items():
        x = int(c) if c.denominator == 1 else c if env.exact else float(c)
        for a, e in m:
            v = ev_atom(a, env)
            if e < 0:
                if v == 0 or v != v:
                    raise Undefined("division by zero")
                x = x / ((Fraction(v) if env.exact and isinstance(v, (int, Fraction)) else float(v)) ** (-e))
            else:
                x = x * v ** e
        s = s + x
    if env.exact and isinstance(s, Fraction) and s.denominator.bit_length() > 6000:
        raise Undefined("exact values too long")
    env.budget -= 1
    if env.budget < 0:
        raise Undefined("evaluation budget")
    return s


def _key(args):
    return tuple(round(a, 9) if isinstance(a, float) else a for a in args)


def ev_atom(a, env):
    k = a.kind
    if k == "var":
        return env.var(a)
    if k == "ite":
        return ev(a.args[1] if evb(a.args[0], env) else a.args[2], env)
    if k == "den":
        return ev(a.args[0], env)
    if k == "app":
        args = [ev(x, env) for x in a.args]
        n = a.name
        f = _NUM.get(n)
        if f is not None:
            try:
                return f(*args)
            except (ValueError, ZeroDivisionError, OverflowError):
                raise Undefined(n)
        if n in RECS:
            key = (n,) + _key(args)
            if key in env.memo:
                return env.memo[key]
            d = RECS[n]
            kk = int(args[0])
            if kk > 400:
                raise Undefined("too many steps to evaluate")
            save = {}
            for f, v in zip(d.formals, args[1:]):
                save[f.name] = env.vals.get(f.name)
                env.vals[f.name] = v
            save[d.kvar.name] = env.vals.get(d.kvar.name)
            try:
                if kk <= 0:
                    r = ev(d.init, env)
                else:
                    env.vals[d.kvar.name] = kk - 1
                    r = ev(d.step, env)
            finally:
                for nm, v in save.items():
                    if v is None:
                        env.vals.pop(nm, None)
                    else:
                        env.vals[nm] = v
            env.memo[key] = r
            return r
        if n == "rnd32":
            import numpy as np
            return float(np.float32(args[0]))
        if n == "gpcdf":
            from scipy.stats import genpareto
            return float(genpareto.cdf(*[float(x) for x in args]))
        if n == "perm":
            c, m, i = args
            q = permutation(int(c), int(m))
            return q[int(i)] if 0 <= int(i) < int(m) else int(i)
        return env.uf(n, args, a.isint)
    dims, bv, bodies, xargs = a.args
    # memo on the values of free variables
    free = tuple(sorted(a.fv))
    key = (a.uid,) + tuple(env.vals.get(x) if not isinstance(env.vals.get(x), float) else round(env.vals[x], 9) for x in free)
    if key in env.memo and all(env.vals.get(x) is not None for x in free):
        return env.memo[key]
    r = ev_big(a, env)
    key = (a.uid,) + tuple(env.vals.get(x) if not isinstance(env.vals.get(x), float) else round(env.vals[x], 9) for x in free)
    env.memo[key] = r
    return r


def _iter(dims, bv, env, f):
    import itertools
    ds = [int(ev(d, env)) for d in dims]
    save = [env.vals.get(v.name) for v in bv]
    out = []
    try:
        for ix in itertools.product(*[range(max(d, 0)) for d in ds]):
            for v, i in zip(bv, ix):
                env.vals[v.name] = i
            out.append(f())
    finally:
        for v, s in zip(bv, save):
            if s is None:
                env.vals.pop(v.name, None)
            else:
                env.vals[v.name] = s
    return ds, out


def ev_big(a, env):
    import numpy as np
    dims, bv, bodies, xargs = a.args
    n = a.name
    ds, vals = _iter(dims, bv, env, lambda: [ev(b, env) for b in bodies])
    v0 = [v[0] for v in vals]
    xs = [ev(x, env) for x in xargs]
    if n == "sum":
        return sum(v0) if v0 else 0
    if n == "prod":
        r = 1
        for v in v0:
            r *= v
        return r
    if n in ("max", "min"):
        if not v0:
            raise Undefined("empty " + n)
        return max(v0) if n == "max" else min(v0)
    if n == "sort":
        i = int(xs[0])
        if not 0 <= i < len(v0):
            raise Undefined("index")
        return sorted(v0)[i]
    if n in ("argsort", "argmax", "argmin"):
        if n == "argsort":
            return int(np.argsort(np.array(v0, float), kind="stable")[int(xs[0])])
        return int(getattr(np, n)(np.array(v0, float)))
    if n in ("minv", "eigval", "eigvec", "det", "pinv"):
        A = np.array(v0, float).reshape(ds)
        try:
            if n == "minv":
                if not np.linalg.cond(A) < 1e8:
                    raise Undefined("ill-conditioned")
                return float(np.linalg.inv(A)[int(xs[0]), int(xs[1])])
            if n == "det":
                return float(np.linalg.det(A))
            if n == "pinv":
                return float(np.linalg.pinv(A)[int(xs[0]), int(xs[1])])
            w, V = np.linalg.eig(A)
            if n == "eigval":
                return float(np.real(w[int(xs[0])]))
            return float(np.real(V[int(xs[0]), int(xs[1])]))
        except np.linalg.LinAlgError:
            raise Undefined(n)
        except IndexError:
            raise Undefined(n)
    if n in ("gpfit_c", "gpfit_s"):
        from scipy.stats import genpareto
        try:
            f = genpareto.fit(np.array(v0, float), floc=float(xs[0]))
        except Exception:
            raise Undefined(n)
        return float(f[0] if n == "gpfit_c" else f[2])
    if n == "ndiff":
        o, i = int(xs[0]), int(xs[1])
        if not (o >= 0 and 0 <= i < len(v0) - o):
            raise Undefined("index")
        return sum((-1) ** (o - j) * math.comb(o, j) * v0[i + j] for j in range(o + 1))
    if n == "nth":
        sel = [i for i, v in enumerate(v0) if v]
        i = int(xs[0])
        if not 0 <= i < len(sel):
            raise Undefined("nth")
        return sel[i]
    if n == "ncls":
        return len(set(v0))
    if n == "cls":
        u = sorted(set(v0))
        i = int(xs[0])
        if not 0 <= i < len(u):
            raise Undefined(n)
        return u[i]
    # opaque operator: a fixed pseudo-random smooth function of its arguments
    from .opaque import opaque_num
    return opaque_num(n, len(bodies), vals, xs)


def _sgn(x):
    return (x > 0) - (x < 0)


_NUM = {"abs": abs, "sign": _sgn, "sqrt": math.sqrt, "exp": math.exp, "tanh": math.tanh, "log10": math.log10,
        "log": math.log, "pow": lambda a, b: float(a) ** float(b) if a > 0 or float(b).is_integer() else math.pow(a, b),
        "trunc": math.trunc, "floor": math.floor, "ceil": math.ceil, "rint": round,
        "mod": lambda a, b: a % b, "fdiv": lambda a, b: a // b}


def evb(b, env):
    k = b.kind
    if k == "true":
        return True
    if k == "false":
        return False
    if k == "eq":
        v = ev(b.args[0], env)
        return abs(v) < 1e-12
    if k == "le":
        return ev(b.args[0], env) <= 1e-12
    if k == "lt":
        return ev(b.args[0], env) < -1e-12
    if k == "not":
        return not evb(b.args[0], env)
    if k == "and":
        return all(evb(x, env) for x in b.args)
    if k == "or":
        return any(evb(x, env) for x in b.args)
    if k == "bvar":
        if b.args[0].startswith("str:") and getattr(env, "strs", None):
            _, nm, op, c = b.args[0].split(":", 3)
            if nm in env.strs:
                return (getattr(env.strs[nm], op)() if op else env.strs[nm]) == c
        key = ("bvar", b.args[0])
        v = env.memo.get(key)
        if v is None:
            v = env.memo[key] = random.Random(str(key) + str(env.rng)).random() < 0.5
        return v
    raise T.TermError(k)


def sample_envs(facts, count, seed=0, tries=400, presets=None):
    """environments (random, small dimensions) in which all facts hold"""
    r = random.Random(seed)
    fv = set()
    for f in facts:
        fv |= f.fv
    out = []
    for t in range(tries):
        env = Env(r.random())
        for nm in sorted(fv):
            a = None
            for isint in (True, False):
                if ("var", nm, (), isint) in T._atoms:
                    env.vals[nm] = (r.choice([0, 1, 1, 2, 2, 3, 4, 5]) if isint else
                                    r.choice([0.0, 1.0, r.uniform(-2, 2), r.uniform(0, 1), r.uniform(0, 3)]))
        if presets:
            env.vals.update(presets)
        try:
            if all(evb(f, env) for f in facts):
                out.append(env)
                if len(out) >= count:
                    break
        except Undefined:
            continue
    return out


def refute_eq(lhs, rhs, facts, seed=0, count=6, extra_vars=()):
    """search a random environment satisfying facts where lhs != rhs; returns env values or None"""
    n = 0
    fs = list(facts)
    # models of the (integer) facts help to reach narrow contexts
    presets = [None]
    h = model_hints(fs) if fs else None
    if h:
        presets.append({k: (int(v) if v.denominator == 1 and ("var", k, (), True) in T._atoms else float(v)) for k, v in h.items()})
    for pre in presets:
        for env in sample_envs(fs, count, seed, presets=pre, tries=400 if pre is None else 20):
            try:
                a, b = ev(P(lhs), env), ev(P(rhs), env)
            except (Undefined, OverflowError, ZeroDivisionError, TypeError):
                continue
            n += 1
            if abs(a - b) > 1e-6 * (1 + abs(a) + abs(b)):
                r = confirm(P(lhs) - P(rhs), fs, env, a - b)
                if r is False:
                    continue
                return {"values": {k: v for k, v in env.vals.items() if "#" not in k}, "lhs": a, "rhs": b}
    return None if n else False


def confirm(p, facts, env, diff):
    """is a difference found with floats real?  Repeated without rounding when the terms are rational, otherwise with
    slightly disturbed samples (False: a rounding effect)"""
    if abs(diff) != abs(diff):
        return False
    e2 = Env(env.rng)
    e2.exact = True
    for k, v in env.vals.items():
        if "#" not in k:
            e2.vals[k] = Fraction(round(v * 32), 32) if isinstance(v, float) else v
    try:
        if all(evb(f, e2) for f in facts):
            v = ev(p, e2)
            if isinstance(v, (int, Fraction)):
                return v != 0
    except (Undefined, OverflowError, ZeroDivisionError, TypeError, ValueError):
        pass
    outs = []
    for wob in (0.0, 1e-11, -1e-11):
        e3 = Env(env.rng, vals={k: v for k, v in env.vals.items() if "#" not in k})
        e3.wobble = wob
        try:
            outs.append(ev(p, e3))
        except (Undefined, OverflowError, ZeroDivisionError, TypeError):
            return None
    m = max(abs(o) for o in outs)
    return max(outs) - min(outs) <= 1e-3 * m
