"""Term language of the verifier.

Scalars are polynomials (with integer, possibly negative, exponents) over hash-consed atoms with rational
coefficients; arrays are scalar terms with formal index variables.  Sums over symbolic ranges are kept in a tensor
normal form: linear, with constant factors pulled out, nested sums flattened, and bound indices renamed canonically.
Division is a negative exponent; the convention is that terms are compared where no denominator vanishes (the
verifier generates a separate obligation for every division).
"""
from fractions import Fraction
from itertools import permutations

ZERO_F = Fraction(0)
ONE_F = Fraction(1)


class TermError(Exception):
    pass


class TooBig(TermError):
    """term grew over the size limit: the verifier gives up on this obligation (undecided)"""


MAXTERMS = 6000

# ---------------------------------------------------------------------------------------------- context of facts
CTX = []            # stack of boolean facts in force
DECIDE = [None]     # hook: decision procedure, set by logic.py


class assuming:
    def __init__(self, *facts):
        self.facts = [f for f in facts if f is not TRUE]

    def __enter__(self):
        self.n = len(CTX)
        CTX.extend(self.facts)

    def __exit__(self, *a):
        del CTX[self.n:]


def decide(b):
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    for f in CTX:
        if f is b:
            return True
    nb = Not(b)
    for f in CTX:
        if f is nb:
            return False
    return DECIDE[0](b) if DECIDE[0] else None


# ---------------------------------------------------------------------------------------------- atoms
_atoms = {}
_polys = {}
_bools = {}
_EMPTY = frozenset()


class Atom:
    __slots__ = ("uid", "kind", "name", "args", "isint", "fv", "syms", "height", "nonneg", "hasden", "size")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.uid < o.uid


def _mk(kind, name, args, isint):
    key = (kind, name, args, isint)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.uid = len(_atoms)
        a.kind, a.name, a.args, a.isint = kind, name, args, isint
        fv, syms, h, hd, sz = set(), set(), 0, False, 1
        for x in _subterms(kind, args):
            fv |= x.fv
            syms |= x.syms
            h = max(h, x.height)
            sz += x.size
        if kind == "var":
            fv.add(name)
        elif kind == "app":
            syms.add(name)
            d = RECS.get(name)
            if d is not None:
                syms |= d.syms
        elif kind == "big":
            dims, bv, bodies, xargs = args
            fv -= {v.name for v in bv}
            for d in dims:          # dims are outside the binder
                fv |= d.fv
            for d in xargs:
                fv |= d.fv
            h += 1
        a.fv, a.syms, a.height = frozenset(fv), frozenset(syms), h
        a.size = sz
        a.nonneg = _nonneg_atom(a)
        _atoms[key] = a
    return a


def _subterms(kind, args):
    if kind == "var":
        return ()
    if kind == "big":
        dims, bv, bodies, xargs = args
        return tuple(dims) + tuple(bodies) + tuple(xargs)
    return args


def _nonneg_atom(a):
    if a.kind == "app":
        return a.name in ("abs", "sqrt", "exp", "rnd_nonneg")
    if a.kind == "big":
        if a.name in ("sum", "max", "min", "prod"):
            return all(nonneg(p) for p in a.args[2])
        if a.name in ("argsort", "ncls"):
            return True
    if a.kind == "ite":
        return nonneg(a.args[1]) and nonneg(a.args[2])
    return False


def nonneg(p):
    """cheap syntactic sufficient condition for p >= 0"""
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and not a.nonneg:
                return False
    return True


# ---------------------------------------------------------------------------------------------- recursive symbols
RECS = {}        # symbol -> RecDef
_rec_keys = {}


class RecDef:
    """sym(0, *f) = init(f);  sym(k+1, *f) = step(k, f);  mutually recursive symbols share a group"""

    def __init__(self, sym, formals, kvar, init, step, isint, group, syms):
        self.sym, self.formals, self.kvar, self.init, self.step, self.isint = sym, tuple(formals), kvar, init, step, isint
        self.group = group
        self.syms = syms            # every symbol the definition mentions, transitively
        self.flag = False
        RECS[sym] = self

    def at0(self, args):
        return subst(self.init, {f.name: a for f, a in zip(self.formals, args)})

    def next(self, k, args):
        mp = {f.name: a for f, a in zip(self.formals, args)}
        mp[self.kvar.name] = k
        return subst(self.step, mp)


KREC = None


def mk_recs(defs, label="h"):
    """defs: list of (tmp symbol, index formals, kvar, init, step, isint): a mutually recursive group.  Returns
    {tmp symbol: function(k, *idx) -> Poly}.  Structurally equal groups share symbols.  A symbol whose step mentions
    neither itself nor another such symbol only remembers a value of the step before: it is written out as that value."""
    defs = list(defs)
    names = [d[0] for d in defs]
    memo = {}
    for d in defs:
        own = d[4].syms & set(names)
        if d[0] not in own and not own & set(memo):
            memo[d[0]] = d
    if memo:
        def lastval(d):
            sym, fs, kvar, init, step, isint = d

            def f(k, *ix):
                k = P(k)
                sub = {a.name: P(b) for a, b in zip(fs, ix)}
                return mk_ite(LE(1, k), subst(step, dict(sub, **{kvar.name: k - 1})), subst(init, sub))
            return f
        rep = {nm: lastval(d) for nm, d in memo.items()}
        rest = [(sym, fs, kvar, init, subst(step, None, rep), isint) for sym, fs, kvar, init, step, isint in defs if sym not in memo]
        if any(init.syms & set(memo) for sym, fs, kvar, init, step, isint in rest):
            rest = None
        if rest is not None:
            out = dict(mk_recs(rest, label)) if rest else {}
            for nm in memo:
                out[nm] = (lambda g: lambda k, *a: subst(g(k, *a), None, {s: out[s] for s in out if s not in memo}))(rep[nm])
            return out
    kv = vatom("@k", True)
    norm = []
    free = set()
    for (sym, fs, kvar, init, step, isint) in defs:
        mp = {f.name: P(vatom("@f%d" % j, f.isint)) for j, f in enumerate(fs)}
        init = subst(init, mp)
        mp[kvar.name] = P(kv)
        step = subst(step, mp)
        free |= (init.fv | step.fv)
        norm.append((sym, tuple(vatom("@f%d" % j, f.isint) for j, f in enumerate(fs)), init, step, isint))
    free = sorted(x for x in free if x != "@k" and not x.startswith("@f"))
    params = tuple(_var_named(x) for x in free)
    # placeholders; their level keeps them apart from placeholders of enclosing groups these definitions mention
    used = set()
    for (sym, fs, init, step, isint) in norm:
        used |= init.syms | step.syms
    lvl = 1 + max([int(x[1:].split(".")[0]) for x in used if x.startswith("?") and x[1:2].isdigit()], default=-1)
    mine = ["?%d.%d" % (lvl, j) for j in range(len(norm))]
    ph = {}
    for j, (sym, fs, init, step, isint) in enumerate(norm):
        ph[sym] = (lambda nm, ii: lambda k, *a: P(_mk("app", nm, (k,) + tuple(a), ii)))(mine[j], isint)
    canon = []
    for (sym, fs, init, step, isint) in norm:
        canon.append((fs, isint, init, subst(step, None, ph)))
    key = (tuple(canon), params)
    names = _rec_keys.get(key)
    if names is None:
        base = len(_rec_keys)
        names = tuple("%s!%d.%d" % (label, base, j) for j in range(len(norm)))
        _rec_keys[key] = names
        alls = set()
        for fs, isint, init, step in canon:
            alls |= init.syms | step.syms
        alls = frozenset((alls - set(mine)) | set(names))
        # forward declare so that atoms of the group carry the transitive symbol set
        for nm, (fs, isint, init, step) in zip(names, canon):
            RecDef(nm, fs + params, kv, None, None, isint, names, alls)
        rep = {}
        for j, (fs, isint, init, step) in enumerate(canon):
            rep[mine[j]] = (lambda nm, ii: lambda k, *a: P(_mk("app", nm, (k,) + tuple(a) + tuple(P(q) for q in params), ii)))(names[j], isint)
        for nm, (fs, isint, init, step) in zip(names, canon):
            RECS[nm].init = init
            RECS[nm].step = subst(step, None, rep)
        # flags: symbols that only take the values 0 and 1
        flags = {nm for nm in names if RECS[nm].isint}
        while True:
            bad = {nm for nm in flags if not (_isflag(RECS[nm].init, flags) and _isflag(RECS[nm].step, flags))}
            if not bad:
                break
            flags -= bad
        for nm in flags:
            RECS[nm].flag = True
    out = {}
    for nm, (sym, fs, init, step, isint) in zip(names, norm):
        out[sym] = (lambda nm, ii: lambda k, *a: P(_mk("app", nm, (P(k),) + tuple(P(x) for x in a) + tuple(P(q) for q in params), ii)))(nm, isint)
    return out


def _isflag(p, own=frozenset()):
    if p.isconst():
        return p.const() in (0, 1)
    a = single(p)
    if a is None:
        return False
    if a.kind == "ite":
        return _isflag(a.args[1], own) and _isflag(a.args[2], own)
    return a.kind == "app" and (a.name in own or (a.name in RECS and RECS[a.name].flag))


def single(p):
    """the atom a polynomial consists of, or None"""
    if len(p.t) == 1:
        m, c = next(iter(p.t.items()))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def _var_named(x):
    for ii in (True, False):
        a = _atoms.get(("var", x, (), ii))
        if a is not None:
            return a
    raise TermError(x)


# ---------------------------------------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ("t", "uid", "fv", "syms", "height", "isint", "size", "_hash")

    def __add__(self, o):
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m, ZERO_F) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return _poly(d)

    __radd__ = __add__

    def __neg__(self):
        return _poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if o is ONE:
            return self
        if self is ONE:
            return o
        if len(self.t) * len(o.t) > MAXTERMS:
            raise TooBig("product too large")
        d = {}
        extra = None
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, special = _mulmono(m1, m2)
                if special:
                    q = _fixmono(m, c1 * c2)
                    extra = q if extra is None else extra + q
                    continue
                v = d.get(m, ZERO_F) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        r = _poly(d)
        return r if extra is None else r + extra

    __rmul__ = __mul__

    def __pow__(self, k):
        if isinstance(k, Poly):
            if not k.isconst():
                return mk_app("pow", self, k)
            k = k.const()
        k = Fraction(k)
        if k.denominator != 1:
            return mk_app("pow", self, P(k))
        k = int(k)
        if k < 0:
            return inv(self) ** (-k)
        if k == 0:
            return ONE
        if len(self.t) == 1:
            (m, c), = self.t.items()
            mm = tuple((a, e * k) for a, e in m)
            if any(_special(a, e) for a, e in mm):
                return _fixmono(mm, c ** k)
            return _poly({mm: c ** k})
        r = self
        for _ in range(k - 1):
            r = r * self
        return r

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def isconst(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        if not self.t:
            return ZERO_F
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def atoms(self):
        s = []
        seen = set()
        for m in self.t:
            for a, e in m:
                if a.uid not in seen:
                    seen.add(a.uid)
                    s.append(a)
        return s

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o


_mono_keys = {}


def _monokey(m):
    return tuple((a.uid, e) for a, e in m)


def _poly(d):
    if not d:
        key = _EMPTY
    else:
        key = frozenset(d.items())
    p = _polys.get(key)
    if p is None:
        if len(d) > MAXTERMS:
            raise TooBig("polynomial too large")
        p = Poly.__new__(Poly)
        p.t = d
        p.uid = len(_polys)
        fv, syms, h, ii, sz = set(), set(), 0, True, 0
        for m, c in d.items():
            if c.denominator != 1:
                ii = False
            sz += 1
            for a, e in m:
                fv |= a.fv
                syms |= a.syms
                sz += a.size
                if a.height > h:
                    h = a.height
                if e < 0 or not a.isint:
                    ii = False
        p.fv, p.syms, p.height, p.isint, p.size = frozenset(fv), frozenset(syms), h, ii, sz
        _polys[key] = p
    return p


def _mulmono(m1, m2):
    """merge two monomials sorted by uid; flags atoms whose power can be simplified"""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    i = j = 0
    out = []
    special = False
    while i < len(m1) and j < len(m2):
        a, e = m1[i]
        b, f = m2[j]
        if a is b:
            g = e + f
            if g:
                out.append((a, g))
                if _special(a, g):
                    special = True
            i += 1
            j += 1
        elif a.uid < b.uid:
            out.append((a, e))
            i += 1
        else:
            out.append((b, f))
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    if not special and (m1 and m2):
        # sign(a)*abs(a) = a
        names = {(a.name, a.args) for a, e in out if a.kind == "app" and a.name in ("sign", "abs") and e > 0}
        for n, ar in names:
            if n == "sign" and ("abs", ar) in names:
                special = True
    return tuple(out), special


def _special(a, e):
    if a.kind == "app":
        if a.name in ("abs", "sqrt") and (e >= 2 or e <= -2):
            return True
        if a.name == "sign" and e >= 3:
            return True
    return a.kind == "ite" and e >= 2


def _fixmono(m, c):
    """rebuild a monomial containing simplifiable powers as a polynomial"""
    rest = []
    r = P(c)
    todo = dict()
    for a, e in m:
        todo[a] = e
    # sign(a)*abs(a) = a
    for a in list(todo):
        if a.kind == "app" and a.name == "sign" and todo.get(a, 0) > 0:
            b = _atoms.get(("app", "abs", a.args, a.isint)) or _atoms.get(("app", "abs", a.args, True)) \
                or _atoms.get(("app", "abs", a.args, False))
            if b is not None and todo.get(b, 0) > 0:
                todo[a] -= 1
                todo[b] -= 1
                r = r * a.args[0]
    for a, e in todo.items():
        if e == 0:
            continue
        if a.kind == "app" and a.name in ("abs", "sqrt") and (e >= 2 or e <= -2):
            base = a.args[0] ** 2 if a.name == "abs" else a.args[0]
            s = 1 if e > 0 else -1
            q, rem = divmod(abs(e), 2)
            r = r * base ** (s * q)
            if rem:
                rest.append((a, s))
        elif a.kind == "app" and a.name == "sign" and e >= 3:
            rest.append((a, 1 if e % 2 else 2))
        elif a.kind == "ite" and e >= 2:
            cnd, p, q = a.args
            r = r * mk_ite(cnd, p ** e, q ** e)
        else:
            rest.append((a, e))
    if rest:
        rest.sort(key=lambda x: x[0].uid)
        r = r * _poly({tuple(rest): ONE_F})
    return r


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return _poly({((x, 1),): ONE_F})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return _poly({(): Fraction(x)}) if x else ZERO
    if isinstance(x, float):
        return P(Fraction(repr(x)))
    raise TypeError("not a scalar term: %r" % (x,))


ZERO = _poly({})
ONE = _poly({(): ONE_F})


def leading(p):
    m = max(p.t, key=_monokey)
    return m, p.t[m]


def _one_plus_exp(q):
    if len(q.t) != 2 or q.t.get(()) != 1:
        return None
    (m, c), = [(m, c) for m, c in q.t.items() if m]
    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and m[0][0].name == "exp":
        return m[0][0].args[0]
    return None


def inv(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return _poly({tuple((a, -e) for a, e in m): 1 / c})
    if not p.t:
        raise ZeroDivisionError("division by the zero term")
    g, q, c = content(p)
    u = _one_plus_exp(q)
    if u is not None:               # 1 / (1 + exp(u)) = (1 - tanh(u / 2)) / 2
        r = (ONE - mk_app("tanh", u * P(Fraction(1, 2)))) * P(1 / (2 * c))
    else:
        den = _mk("den", "", (q,), False)
        r = _poly({((den, -1),): 1 / c})
    if g:
        r = r * _poly({tuple((a, -e) for a, e in g): ONE_F})
    return r


def content(p):
    """p = c * g * q with g a common monomial, q having leading coefficient 1"""
    monos = list(p.t)
    common = dict(monos[0])
    for m in monos[1:]:
        dm = dict(m)
        for a in list(common):
            e = dm.get(a, 0)
            if e == 0 or (e > 0) != (common[a] > 0):
                del common[a]
            else:
                common[a] = min(common[a], e) if e > 0 else max(common[a], e)
        if not common:
            break
    # negative exponents missing in some monomials: pull the most negative out
    neg = {}
    for m in monos:
        for a, e in m:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    for a, e in neg.items():
        common[a] = e
    g = tuple(sorted(((a, e) for a, e in common.items() if e), key=lambda x: x[0].uid))
    if g:
        gi = tuple((a, -e) for a, e in g)
        q = p * _poly({gi: ONE_F})
    else:
        q = p
    if not q.t:
        return (), p, ONE_F
    m, c = leading(q)
    q = _poly({k: v / c for k, v in q.t.items()})
    return g, q, c


def var(name, isint=False):
    return P(_mk("var", name, (), isint))


def vatom(name, isint=False):
    return _mk("var", name, (), isint)


_fresh = [0]


def fresh(prefix="i", isint=True):
    _fresh[0] += 1
    return _mk("var", "%s~%d" % (prefix, _fresh[0]), (), isint)


def freshname(prefix):
    _fresh[0] += 1
    return "%s~%d" % (prefix, _fresh[0])


INT_SYMS = set()


def app(name, *args, isint=False):
    return P(_mk("app", name, tuple(P(a) for a in args), isint))


# ---------------------------------------------------------------------------------------------- booleans
class Bool:
    __slots__ = ("uid", "kind", "args", "fv", "syms", "height", "size")

    def __repr__(self):
        return show_bool(self)

    def __lt__(self, o):
        return self.uid < o.uid


def _mkb(kind, args):
    key = (kind, args)
    b = _bools.get(key)
    if b is None:
        b = Bool()
        b.uid = len(_bools)
        b.kind, b.args = kind, args
        fv, syms, h, sz = set(), set(), 0, 1
        for a in args:
            if isinstance(a, (Poly, Bool)):
                fv |= a.fv
                syms |= a.syms
                h = max(h, a.height)
                sz += a.size
            elif kind == "bvar":
                syms.add(a)
        b.fv, b.syms, b.height, b.size = frozenset(fv), frozenset(syms), h, sz
        _bools[key] = b
    return b


TRUE = _mkb("true", ())
FALSE = _mkb("false", ())


def bvar(name):
    return _mkb("bvar", (name,))


def _posscale(p):
    """divide by a positive rational so that the leading coefficient is +-1 (integers: primitive)"""
    m, c = leading(p)
    if p.isint:
        from math import gcd
        g = 0
        for k, v in p.t.items():
            if k != ():
                g = gcd(g, int(v))
        g = g or 1
        return p, g
    return _poly({k: v / abs(c) for k, v in p.t.items()}), 1


def eq0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    if p.isint:
        p, g = _posscale(p)
        if g > 1:
            k = p.t.get((), ZERO_F)
            if k % g:
                return FALSE
            p = _poly({m: v / g for m, v in p.t.items()})
        m, c = leading(p)
        if c < 0:
            p = -p
    else:
        m, c = leading(p)
        p = _poly({k: v / c for k, v in p.t.items()})
    return _mkb("eq", (p,))


def le0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    p, g = _posscale(p)
    if g > 1:
        k = p.t.get((), ZERO_F)
        d = {m: v / g for m, v in p.t.items() if m != ()}
        kk = -((-k / g).__floor__())          # sum(d)+k/g <= 0  <=>  sum(d) <= floor(-k/g)
        if kk:
            d[()] = Fraction(kk)
        p = _poly(d)
    return _mkb("le", (p,))


def lt0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    if p.isint:
        return le0(p + 1)
    p, g = _posscale(p)
    return _mkb("lt", (p,))


def EQ(a, b):
    return eq0(P(a) - P(b))


def LE(a, b):
    return le0(P(a) - P(b))


def LT(a, b):
    return lt0(P(a) - P(b))


def Not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    k = b.kind
    if k == "not":
        return b.args[0]
    if k == "le":
        return lt0(-b.args[0])
    if k == "lt":
        return le0(-b.args[0])
    if k == "and":
        return Or(*[Not(x) for x in b.args])
    if k == "or":
        return And(*[Not(x) for x in b.args])
    return _mkb("not", (b,))


def And(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.kind == "and":
            out.extend(b.args)
        else:
            out.append(b)
    u = []
    for b in out:
        if b not in u:
            u.append(b)
    for b in u:
        if Not(b) in u:
            return FALSE
    if not u:
        return TRUE
    if len(u) == 1:
        return u[0]
    u.sort(key=lambda b: b.uid)
    return _mkb("and", tuple(u))


def Or(*bs):
    out = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.kind == "or":
            out.extend(b.args)
        else:
            out.append(b)
    u = []
    for b in out:
        if b not in u:
            u.append(b)
    for b in u:
        if b.kind != "and" and Not(b) in u:
            return TRUE
    if not u:
        return FALSE
    if len(u) == 1:
        return u[0]
    u.sort(key=lambda b: b.uid)
    return _mkb("or", tuple(u))


def Implies(a, b):
    return Or(Not(a), b)


def inrange(v, n):
    """0 <= v < n as facts"""
    return [LE(0, v), LT(v, n)]


# ---------------------------------------------------------------------------------------------- if-then-else
def mk_ite(c, p, q):
    p, q = P(p), P(q)
    if p is q:
        return p
    d = decide(c)
    if d is True:
        return p
    if d is False:
        return q
    if c.kind in ("and", "or"):
        drop = c.kind == "and"
        keep = [x for x in c.args if decide(x) is not drop]
        if len(keep) < len(c.args):
            c = And(*keep) if drop else Or(*keep)
    if p.size < 400:
        p = resimp(p, c)
    if q.size < 400:
        q = resimp(q, Not(c))
    if p is q:
        return p
    # one branch covers the other
    if q.size < 400 and resimp(q, c) is p:
        return q
    if p.size < 400 and resimp(p, Not(c)) is q:
        return p
    if c.kind == "eq" and max(p.size, q.size) < 400 and _same_at(c, p, q):
        return q
    if c.kind == "not" and c.args[0].kind == "eq" and max(p.size, q.size) < 400 and _same_at(c.args[0], p, q):
        return p
    if c.kind == "le" and c.args[0].isint and max(p.size, q.size) < 400:
        # a branch for a single value that the other branch covers
        x = c.args[0]
        if decide(le0(-x)) is True and _same_at(EQ(x, ZERO), p, q):
            return q
        if decide(le0(x - 1)) is True and _same_at(EQ(x, ONE), q, p):
            return p
    # canonical orientation
    if c.kind == "not":
        return mk_ite_raw(c.args[0], q, p)
    if c.kind in ("le", "lt"):
        m, k = leading(c.args[0])
        if k < 0:
            c, p, q = Not(c), q, p
    elif c.kind in ("or",):
        c, p, q = Not(c), q, p
    if c.kind in ("le", "lt") and p.t and (p + q) is ZERO:
        # |x| patterns
        x = c.args[0]
        g1, q1, c1 = content(x)
        g2, q2, c2 = content(p)
        if q1 is q2 and g1 == g2:
            s = c1 / c2          # x = s * p ; condition x <= 0
            ab = mk_app("abs", p)
            return -ab if s > 0 else ab
    if c.kind in ("le", "lt") and max(p.size, q.size) < 400:
        # a maximum or minimum: the branches agree where the comparison turns, so strict and non-strict are the same
        x, d = c.args[0], p - q
        m, k = leading(x)
        if d.t and len(d.t) <= len(x.t) + 1:
            f = d.t.get(m)
            if f is not None:
                r = d - x * P(f / k)
                if r is ZERO and c.kind == "lt":
                    c = le0(x)
                elif x.isint and c.kind == "le" and (r + P(f / k)) is ZERO:
                    c = le0(x - 1)
                    r = ZERO
                if r is ZERO and c.kind == "le":
                    if decide(c) is True:
                        return p
                    if decide(le0(-c.args[0])) is True:
                        return q
    return mk_ite_raw(c, p, q)


def _same_at(c, p, q):
    """do p and q agree where the equation c holds?  (by substituting a variable)"""
    x = c.args[0]
    for m, k in x.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var" and abs(k) == 1:
            v = m[0][0]
            if v.name not in p.fv and v.name not in q.fv:
                continue
            t = P(v) - x * P(k)
            if v.name in t.fv or (v.isint and not t.isint):
                continue
            with assuming(c):
                try:
                    if subst(p, {v.name: t}) is subst(q, {v.name: t}):
                        return True
                except ZeroDivisionError:
                    continue
    return False


def mk_ite_raw(c, p, q):
    if p is q:
        return p
    # (x == t) with p, q agreeing after substitution is left to the prover
    if c.kind == "eq" and p is ZERO and q is ONE:
        a = single(c.args[0])
        if a is not None and a.kind == "app" and a.name in RECS and RECS[a.name].flag:
            return P(a)
    return P(_mk("ite", "", (c, p, q), p.isint and q.isint))


def resimp(p, c):
    """re-simplify top-level ite factors of p knowing c"""
    its = [a for a in p.atoms() if a.kind == "ite"]
    if not its:
        return p
    with assuming(c):
        rep = {}
        for a in its:
            d = decide(a.args[0])
            if d is True:
                rep[a] = a.args[1]
            elif d is False:
                rep[a] = a.args[2]
        if not rep:
            return p
        return replace_atoms(p, rep)


def replace_atoms(p, rep):
    r = ZERO
    for m, c in p.t.items():
        if any(a in rep for a, e in m):
            x = P(c)
            for a, e in m:
                x = x * ((rep[a] ** e) if a in rep else _poly({((a, e),): ONE_F}))
            r = r + x
        else:
            r = r + _poly({m: c})
    return r


# ---------------------------------------------------------------------------------------------- named functions
def _split_sign(p):
    g, q, c = content(p)
    return g, q, c


def mk_app(name, *args):
    args = [P(a) for a in args]
    a = args[0] if args else None
    if name in ("?le", "?lt", "?eq"):
        # 0/1 indicator of a <= 0, a < 0, a == 0 (only inside a proof step, see logic.Indic)
        c = a.const()
        if c is not None:
            return ONE if (c <= 0 if name == "?le" else c < 0 if name == "?lt" else c == 0) else ZERO
        m, k = leading(a)
        if name == "?eq":
            return P(_mk("app", name, (a * P(1 / k),), True))
        # the orientation must not depend on the names of variables (sums rename theirs)
        c = a.t.get((), 0)
        if name == "?le" and a.isint:
            if c > 0:
                return ONE - mk_app(name, ONE - a)
        elif (c or sum(a.t.values())) < 0:
            return ONE - mk_app("?lt" if name == "?le" else "?le", -a)
        if not a.isint:
            a = a * P(1 / abs(k))
        return P(_mk("app", name, (a,), True))
    if name == "abs":
        if a.isconst():
            return P(abs(a.const()))
        if nonneg(a):
            return a
        if nonneg(-a):
            return -a
        g, q, c = content(a)
        r = P(abs(c))
        for at, e in g:
            if at.nonneg or e % 2 == 0:
                r = r * _poly({((at, e),): ONE_F})
            elif at.kind == "app" and at.name == "sign":
                r = r * P(at) ** (2 if e > 0 else -2)
            elif at.kind == "ite":
                cc, pp, qq = at.args
                x = mk_ite(cc, mk_app("abs", pp), mk_app("abs", qq))
                r = r * x ** e
            else:
                r = r * P(_mk("app", "abs", (P(at),), at.isint)) ** e
        if q is not ONE:
            its = [t for t in q.atoms() if t.kind == "ite"]
            if len(q.t) == 1 and False:
                pass
            if nonneg(q):
                r = r * q
            elif nonneg(-q):
                r = r * (-q)
            elif len(its) == 1 and len(q.t) <= 4:
                t = its[0]
                r = r * mk_ite(t.args[0], mk_app("abs", replace_atoms(q, {t: t.args[1]})),
                               mk_app("abs", replace_atoms(q, {t: t.args[2]})))
            else:
                r = r * P(_mk("app", "abs", (q,), q.isint))
        return r
    if name == "sign":
        if a.isconst():
            c = a.const()
            return P((c > 0) - (c < 0))
        g, q, c = content(a)
        r = P(1 if c > 0 else -1)
        for at, e in g:
            ee = e if e > 0 else -e
            if at.kind == "app" and at.name == "exp":
                continue
            if at.kind == "app" and at.name == "sign":
                s = P(at)
            elif at.kind == "ite":
                s = mk_ite(at.args[0], mk_app("sign", at.args[1]), mk_app("sign", at.args[2]))
            else:
                s = P(_mk("app", "sign", (P(at),), True))
            r = r * s ** (1 if ee % 2 else 2)
        if q is not ONE:
            r = r * P(_mk("app", "sign", (q,), True))
        return r
    if name == "sqrt":
        if a.isconst():
            c = a.const()
            if c >= 0:
                from math import isqrt
                n, d = isqrt(c.numerator), isqrt(c.denominator)
                if n * n == c.numerator and d * d == c.denominator:
                    return P(Fraction(n, d))
        if len(a.t) == 1:
            (m, c), = a.t.items()
            if m and all(e % 2 == 0 for at, e in m) and c > 0:
                r = mk_app("sqrt", P(c)) if c != 1 else ONE
                for at, e in m:
                    r = r * (mk_app("abs", P(at)) ** (e // 2))
                return r
        return P(_mk("app", "sqrt", (a,), False))
    if name == "exp":
        if a is ZERO:
            return ONE
        return P(_mk("app", "exp", (a,), False))
    if name == "tanh":
        if a is ZERO:
            return ZERO
        m, c = leading(a)
        if c < 0:
            return -mk_app("tanh", -a)
        return P(_mk("app", "tanh", (a,), False))
    if name in ("log10", "log"):
        if a is ONE:
            return ZERO
        if name == "log10" and a.isconst() and a.const() == 10:
            return ONE
        return P(_mk("app", name, (a,), False))
    if name == "pow":
        b, e = args
        if e.isconst():
            k = e.const()
            if k.denominator == 1:
                return b ** int(k)
            if k == Fraction(1, 2):
                return mk_app("sqrt", b)
        if b is ONE:
            return ONE
        return P(_mk("app", "pow", (b, e), False))
    if name in ("trunc", "floor", "ceil", "rint"):
        if a.isint:
            return a
        if a.isconst():
            import math
            return P({"trunc": math.trunc, "floor": math.floor, "ceil": math.ceil, "rint": round}[name](a.const()))
        return P(_mk("app", name, (a,), True))
    if name in ("mod", "fdiv"):
        if args[0].isconst() and args[1].isconst() and args[1].const():
            x, y = args[0].const(), args[1].const()
            return P(x % y if name == "mod" else x // y)
        if name == "fdiv" and args[1] is ONE and args[0].isint:
            return args[0]
        y = single(args[1])
        if y is not None and args[0].isint and args[1].isint and y.kind == "var":
            # q*y + r with 0 <= r < y
            q, r = {}, {}
            for m, c in args[0].t.items():
                e = dict(m).get(y, 0)
                if e >= 1 and c.denominator == 1:
                    q[tuple((a, x - (a is y)) for a, x in m if a is not y or x > 1)] = c
                else:
                    r[m] = c
            q, r = _poly(q), _poly(r)
            if (q.t or name == "mod") and decide(LE(0, r)) is True and decide(LT(r, args[1])) is True:
                return q if name == "fdiv" else r
        return P(_mk("app", name, tuple(args), args[0].isint and args[1].isint))
    return P(_mk("app", name, tuple(args), name in INT_SYMS))


def b2p(b):
    return mk_ite(b, ONE, ZERO)


# ---------------------------------------------------------------------------------------------- binders
def _linear_in(p, v):
    """p = k*v + r with r free of v and k a nonzero constant: (k, r) or None"""
    k = p.t.get(((v, 1),))
    if k is None:
        return None
    r = p - P(v) * P(k)
    if v.name in r.fv:
        return None
    return k, r


def _selections(p, v, out):
    """the nth[...](v) atoms in p"""
    for m in p.t:
        for a, e in m:
            if v.name not in a.fv:
                continue
            if a.kind == "big":
                if a.name == "nth" and a.args[3] == (P(v),) and v.name not in P(_mk("big", "nth", a.args[:3] + ((ZERO,),), True)).fv:
                    out.add(a)
                    continue
                for x in a.args[0] + a.args[2] + a.args[3]:
                    _selections(x, v, out)
            elif a.kind == "ite":
                _selections_b(a.args[0], v, out)
                for x in a.args[1:]:
                    _selections(x, v, out)
            elif a.kind in ("app", "den"):
                for x in a.args:
                    _selections(x, v, out)


def _selections_b(b, v, out):
    for x in b.args:
        if isinstance(x, Poly):
            _selections(x, v, out)
        elif isinstance(x, Bool):
            _selections_b(x, v, out)


def _sum_selected(v, n, body):
    """sum over the selected positions: sum[u < #mask] g(nth[mask](u)) = sum[t < dim] (mask(t) ? g(t) : 0)"""
    a = single(n)
    if a is None or a.kind != "big" or a.name != "sum":
        return None
    sel = set()
    _selections(body, v, sel)
    if len(sel) != 1:
        return None
    sel, = sel
    (dim,), (bv,), (mask,), _ = sel.args
    t = fresh("s")
    with assuming(*inrange(P(t), dim)):
        mt = subst(mask, {bv.name: P(t)})
        if mk_sum(t, dim, mt) is not n:
            return None
        other = fresh("s")

        class Sel(Subst):
            def atom(self, a):
                return P(t) if a is sel else Subst.atom(self, a)
        x = single(mt)
        if x is not None and x.kind == "ite" and x.args[1] is ONE and x.args[2] is ZERO:
            cond = x.args[0]
            with assuming(cond):
                g = Sel({v.name: P(other)}).poly(body)
            g = mk_ite(cond, g, ZERO)
        else:
            g = Sel({v.name: P(other)}).poly(body) * mt
    if other.name in g.fv:
        return None
    return mk_sum(t, dim, g)


def mk_sum(v, n, body):
    """sum of body for v = 0 .. n-1"""
    n, body = P(n), P(body)
    c = n.const()
    if c is not None:
        if c <= 0:
            return ZERO
        if c <= 4:
            r = ZERO
            for i in range(int(c)):
                r = r + subst(body, {v.name: P(i)})
            return r
    if not body.t:
        return ZERO
    if v.name not in body.fv:
        return body * clip0(n)
    r = _sum_selected(v, n, body)
    if r is not None:
        return r
    # split on if-then-else factors whose condition is about v
    for m in body.t:
        for a, e in m:
            if a.kind == "ite" and v.name in a.fv and e > 0:
                r = _split_ite(v, n, body, a)
                if r is not None:
                    return r
                c, x, y = a.args
                if c.kind == "eq" and (y is ZERO and x is not ONE or x is ZERO and y is not ONE):
                    # an indicator times what is summed
                    y = x * mk_ite(c, ONE, ZERO) if y is ZERO else y * mk_ite(c, ZERO, ONE)
                    return mk_sum(v, n, replace_atoms(body, {a: y}))
            if a.kind == "app" and a.name == "?eq" and v.name in a.fv:
                lin = _linear_in(a.args[0], v)
                if lin is not None and (-lin[1] * P(1 / lin[0])).isint:
                    t = -lin[1] * P(1 / lin[0])
                    rest = _poly({k: x for k, x in body.t.items() if k is not m})
                    at = subst(_poly({tuple(z for z in m if z[0] is not a): body.t[m]}), {v.name: t})
                    ok = mk_app("?le", -t) * mk_app("?le", t - n + 1) if decide(And(LE(0, t), LT(t, n))) is not True else ONE
                    return at * ok + mk_sum(v, n, rest)
    r = ZERO
    for m, c in body.t.items():
        r = r + _sum_mono(v, n, m) * P(c)
    return r


def merge_heads(p):
    """c*r*g(-1) + c*r*sum[v<n] g(v)  ->  c*r*sum[v<n+1] g(v-1): sums whose first term was split off become one sum again"""
    for _ in range(12):
        q = _merge_head(p)
        if q is None:
            return p
        p = q
    return p


def _merge_head(p):
    if len(p.t) < 2:
        return None
    for m, c in p.t.items():
        for a, e in m:
            if a.kind != "big" or a.name != "sum" or e != 1 or a.size > 600:
                continue
            dims, bv, bodies, _ = a.args
            rest = _poly({tuple(z for z in m if z[0] is not a): c})
            for j in range(len(dims)):
                vs = [fresh("m") for _ in bv]
                if dims[j].const() is not None or any(v.name in d.fv for v in bv for d in dims):
                    continue
                ren = {x.name: P(v) for x, v in zip(bv, vs)}
                other = [(v, d) for i, (v, d) in enumerate(zip(vs, dims)) if i != j]
                ff = [f for v, d in other for f in inrange(P(v), d)] + [LE(0, dims[j])]
                try:
                    with assuming(*ff):
                        head = subst(bodies[0], dict(ren, **{bv[j].name: P(-1)}))
                except ZeroDivisionError:
                    continue
                with assuming(LE(0, dims[j])):
                    for v, d in reversed(other):
                        head = mk_sum(v, d, head)
                if head is ZERO:
                    continue
                head = head * rest
                if any(p.t.get(mm) != cc for mm, cc in head.t.items()):
                    continue
                ff = [f for i, (v, d) in enumerate(zip(vs, dims)) for f in inrange(P(v), d + 1 if i == j else d)]
                with assuming(*ff):
                    body = subst(bodies[0], dict(ren, **{bv[j].name: P(vs[j]) - 1}))
                whole = body
                with assuming(LE(0, dims[j])):
                    for i in range(len(dims) - 1, -1, -1):
                        whole = mk_sum(vs[i], dims[i] + 1 if i == j else dims[i], whole)
                new = whole * rest
                if len(new.t) != 1:         # split up again
                    continue
                return p - _poly({m: c}) - head + new
    return None


def clip0(n):
    """max(n, 0) -- dimensions are nonnegative; simplified when known"""
    if decide(LE(0, n)) is True:
        return n
    return mk_ite(LE(0, n), n, ZERO)


def _conjuncts(c):
    return list(c.args) if c.kind == "and" else [c]


def _split_ite(v, n, body, a):
    c, p, q = a.args
    neg = False
    if c.kind == "not" and c.args[0].kind == "eq":
        c, p, q = c.args[0], q, p
    if c.kind == "or":
        c, p, q = Not(c), q, p
    conj = _conjuncts(c)
    if len(conj) > 1:
        first = None
        for x in conj:
            if v.name not in x.fv:
                first = x
                break
        if first is None:
            for x in conj:
                if x.kind in ("eq", "le", "lt") and _linear_in(x.args[0], v):
                    first = x
                    break
        if first is None:
            return None
        rest = And(*[x for x in conj if x is not first])
        inner = mk_ite(rest, p, q)
        return _split_on(v, n, body, a, first, inner, q)
    return _split_on(v, n, body, a, c, p, q)


def _split_on(v, n, body, a, c, p, q):
    bp = lambda: replace_atoms(body, {a: p})
    bq = lambda: replace_atoms(body, {a: q})
    if v.name not in c.fv:
        with assuming(c):
            x = mk_sum(v, n, bp())
        with assuming(Not(c)):
            y = mk_sum(v, n, bq())
        return mk_ite(c, x, y)
    if c.kind not in ("eq", "le", "lt"):
        return None
    lin = _linear_in(c.args[0], v)
    if lin is None:
        return None
    k, r = lin
    if c.kind == "eq":
        t = -r * P(1 / k)
        if not t.isint:
            return None
        base = mk_sum(v, n, bq())
        at = subst(bp() - bq(), {v.name: t})
        return base + mk_ite(And(LE(0, t), LT(t, n)), at, ZERO)
    if abs(k) != 1 or not r.isint or c.kind != "le":
        return None
    if k == 1:            # v + r <= 0  <=>  v < 1 - r
        t = ONE - r
        lo, hi = bp, bq
    else:                 # -v + r <= 0 <=>  v >= r
        t = r
        lo, hi = bq, bp
    if decide(LE(t, 0)) is True:
        return mk_sum(v, n, hi())
    if decide(LE(n, t)) is True:
        return mk_sum(v, n, lo())
    if decide(And(LE(0, t), LE(t, n))) is not True:
        return None
    x = mk_sum(v, t, lo())
    w = fresh()
    with assuming(*inrange(P(w), n - t)):
        hb = subst(hi(), {v.name: P(w) + t})
    y = mk_sum(w, n - t, hb)
    return x + y


def _sum_mono(v, n, m):
    indep = [(a, e) for a, e in m if v.name not in a.fv]
    dep = [(a, e) for a, e in m if v.name in a.fv]
    out = _poly({tuple(indep): ONE_F})
    binders = [(v, n)]
    factors = []
    work = list(dep)
    bnames = {v.name}
    while work:
        a, e = work.pop()
        if a.kind == "big" and a.name == "sum" and e > 0 and len(binders) + e <= 6:
            dims, bv, bodies, xargs = a.args
            if not any(d.fv & bnames for d in dims) and not any(v.name in d.fv for d in dims):
                for _ in range(e):
                    new = [fresh() for _ in bv]
                    b = subst(bodies[0], {o.name: P(w) for o, w in zip(bv, new)})
                    if len(b.t) != 1:
                        raise TermError("sum body is not a monomial")
                    (mm, cc), = b.t.items()
                    out = out * P(cc)
                    for w, d in zip(new, dims):
                        binders.append((w, d))
                        bnames.add(w.name)
                    work.extend(mm)
                continue
        factors.append((a, e))
    # merge equal factors
    acc = {}
    for a, e in factors:
        acc[a] = acc.get(a, 0) + e
    factors = [(a, 1 if e > 0 and a.kind == "ite" and all(x is ONE or x is ZERO for x in a.args[1:]) else e) for a, e in acc.items() if e]
    # connected components
    comps = []
    left = list(range(len(binders)))
    fleft = list(range(len(factors)))
    while left:
        i0 = left.pop(0)
        names = {binders[i0][0].name}
        vs = [i0]
        fs = []
        changed = True
        while changed:
            changed = False
            for f in list(fleft):
                fvs = factors[f][0].fv
                if fvs & names:
                    fleft.remove(f)
                    fs.append(f)
                    for j in list(left):
                        if binders[j][0].name in fvs:
                            left.remove(j)
                            vs.append(j)
                            names.add(binders[j][0].name)
                            changed = True
                    changed = True
        comps.append(([binders[j] for j in vs], [factors[f] for f in fs]))
    for f in fleft:
        out = out * _poly({(factors[f],): ONE_F})
    for bs, fs in comps:
        if not fs:
            for b, d in bs:
                out = out * clip0(d)
            continue
        out = out * _canon_sum(bs, fs)
    return out


def _rename_poly(p, mp):
    return subst(p, {o: P(w) for o, w in mp.items()})


def _canon_sum(bs, fs):
    h = max(a.height for a, e in fs)
    k = len(bs)
    if k == 1:
        perms = [(0,)]
    else:
        # order by dimension, then try permutations inside equal dimension groups
        bs = sorted(bs, key=lambda x: x[1].uid)
        perms = _dim_perms([d.uid for _, d in bs])
    best = None
    tail = "#%d." % h
    cb = [vatom(tail + str(j), True) for j in range(k)]
    for pm in perms:
        mp = {bs[pm[j]][0].name: P(cb[j]) for j in range(k)}
        body = ONE
        for a, e in fs:
            body = body * (subst_atom(a, mp) ** e if e > 0 else inv(subst_atom(a, mp)) ** (-e))
        if len(body.t) != 1:
            # simplification happened (e.g. an index equality): re-sum
            return _resum(bs, fs)
        (mm, cc), = body.t.items()
        key = _monokey(mm)
        if best is None or key < best[0]:
            best = (key, mm, cc)
    _, mm, cc = best
    dims = tuple(d for _, d in bs)
    at = _mk("big", "sum", (dims, tuple(cb), (_poly({mm: ONE_F}),), ()), all(a.isint and e > 0 for a, e in mm))
    return P(at) * P(cc)


def _resum(bs, fs):
    body = ONE
    for a, e in fs:
        body = body * (P(a) ** e if e > 0 else inv(P(a)) ** (-e))
    for v, d in reversed(bs):
        body = mk_sum(v, d, body)
    return body


def _dim_perms(keys):
    n = len(keys)
    groups = []
    i = 0
    while i < n:
        j = i
        while j < n and keys[j] == keys[i]:
            j += 1
        groups.append(list(range(i, j)))
        i = j
    if any(len(g) > 5 for g in groups):
        return [tuple(range(n))]
    res = [()]
    for g in groups:
        res = [r + q for r in res for q in permutations(g)]
    return res


def mk_big(op, binders, bodies, xargs=(), isint=False):
    """a canonical binder application op[v1<n1,...](bodies)(xargs)"""
    bodies = tuple(P(b) for b in bodies)
    xargs = tuple(P(x) for x in xargs)
    if op == "sum":
        assert len(bodies) == 1
        r = bodies[0]
        for v, n in reversed(binders):
            r = mk_sum(v, n, r)
        return r
    if op in ("max", "min") and len(binders) == 1:
        v, n = binders[0]
        b = bodies[0]
        if v.name not in b.fv:
            return b
        if P(n).const() == 1:
            return subst(b, {v.name: ZERO})
        if len(b.t) == 1:
            (m, c), = b.t.items()
            out = [(a, e) for a, e in m if v.name not in a.fv and (a.nonneg or e % 2 == 0)]
            if out or abs(c) != 1:
                ins = [(a, e) for a, e in m if (a, e) not in out]
                k = P(abs(c)) * _poly({tuple(out): ONE_F})
                s = 1 if c > 0 else -1
                return k * mk_big(op, binders, (_poly({tuple(ins): ONE_F}) * P(s),), xargs)
            if c < 0:
                return -mk_big("min" if op == "max" else "max", binders, (-b,), xargs)
        elif all(c < 0 for c in b.t.values()):
            return -mk_big("min" if op == "max" else "max", binders, (-b,), xargs)
    if op == "prod" and len(binders) == 1:
        v, n = binders[0]
        b = bodies[0]
        if b is ONE:
            return ONE
        if b is ZERO and decide(LT(0, n)) is True:
            return ZERO
        c = P(n).const()
        if c is not None and c <= 4:
            r = ONE
            for i in range(int(max(c, 0))):
                r = r * subst(b, {v.name: P(i)})
            return r
    if op == "sort":
        # ascending sort of body(v); xargs = (position,)
        v, n = binders[0]
        b = bodies[0]
        m, c = leading(b)
        if v.name not in b.fv:
            return b
        if c < 0:
            return -mk_big("sort", binders, (-b,), (P(n) - 1 - xargs[0],))
    if op == "ndiff":
        # order-th forward difference: linear, and zero on constants
        (v, n), (order, k), b = binders[0], xargs, bodies[0]
        if order is ONE:
            return subst(b, {v.name: k + 1}) - subst(b, {v.name: k})
        flat = decide(LE(1, order)) is True
        r = ZERO
        for m, c in b.t.items():
            ins = [(a, e) for a, e in m if v.name in a.fv]
            if not ins and flat:
                continue
            if ins and (len(b.t) == 1 and c == 1 and len(ins) == len(m)):
                r = None
                break
            r = r + _poly({tuple(z for z in m if z not in ins): c}) * mk_big(op, binders, (_poly({tuple(ins): ONE_F}),), xargs) \
                if ins else r + _poly({m: c}) * mk_ite(LE(1, order), ZERO, ONE)
        if r is not None:
            return r
    if op in ("eigval", "argsort") and all(P(n).const() == 1 for _, n in binders):
        return ZERO if op == "argsort" else subst(bodies[0], {v.name: ZERO for v, _ in binders})     # a single value
    h = max([b.height for b in bodies] + [0])
    cb = [vatom("#%d.%d" % (h, j), True) for j in range(len(binders))]
    mp = {v.name: P(w) for (v, n), w in zip(binders, cb)}
    bodies = tuple(subst(b, mp) for b in bodies)
    return big_at(_mk("big", op, (tuple(P(n) for _, n in binders), tuple(cb), bodies, xargs), isint), xargs)


_symmetric = {}


def big_at(a, xargs):
    """the binder application `a` (canonical dims and bodies) at position xargs"""
    dims, cb, bodies, _ = a.args
    if a.name == "minv" and xargs[0].uid > xargs[1].uid:
        # symmetric matrices have symmetric inverses
        b = bodies[0]
        key = (b,) + tuple(CTX)
        if key not in _symmetric:
            _symmetric[key] = subst(b, {cb[0].name: P(cb[1]), cb[1].name: P(cb[0])}) is b
        if _symmetric[key]:
            xargs = (xargs[1], xargs[0])
    return P(_mk("big", a.name, (dims, cb, bodies, tuple(xargs)), a.isint))


# ---------------------------------------------------------------------------------------------- substitution
class Subst:
    def __init__(self, vars=None, syms=None):
        self.vars = {(k.name if isinstance(k, Atom) else k): P(x) for k, x in (vars or {}).items()}
        self.syms = syms or {}
        self.vk = frozenset(self.vars)
        self.sk = frozenset(self.syms)
        self.mp, self.ma, self.mb = {}, {}, {}

    def touches(self, x):
        return not (x.fv.isdisjoint(self.vk) and x.syms.isdisjoint(self.sk))

    def poly(self, p):
        if not self.touches(p):
            return p
        r = self.mp.get(p)
        if r is not None:
            return r
        acc = {}
        rest = ZERO
        for m, c in p.t.items():
            if not any(self.touches(a) for a, e in m):
                v = acc.get(m, ZERO_F) + c
                if v:
                    acc[m] = v
                else:
                    acc.pop(m, None)
                continue
            x = P(c)
            keep = []
            for a, e in m:
                if not self.touches(a):
                    keep.append((a, e))
                    continue
                y = self.atom(a)
                x = x * (y ** e)
            if keep:
                x = x * _poly({tuple(keep): ONE_F})
            rest = rest + x
        r = _poly(acc) + rest
        self.mp[p] = r
        return r

    def atom(self, a):
        r = self.ma.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == "var":
            r = self.vars.get(a.name)
            if r is None:
                r = P(a)
        elif k == "app":
            args = [self.poly(x) for x in a.args]
            s = self.syms.get(a.name)
            if s is not None:
                r = s(*args)
            elif a.name in RECS and not RECS[a.name].syms.isdisjoint(self.sk):
                r = self.rec(a.name)(args)
            else:
                r = self.rebuild_app(a, args)
        elif k == "ite":
            c = self.bool(a.args[0])
            d = decide(c)
            if d is True:
                r = self.poly(a.args[1])
            elif d is False:
                r = self.poly(a.args[2])
            else:
                r = mk_ite(c, self.poly(a.args[1]), self.poly(a.args[2]))
        elif k == "den":
            r = self.poly(a.args[0])
        elif k == "big":
            dims, bv, bodies, xargs = a.args
            nd = tuple(self.poly(d) for d in dims)
            nx = tuple(self.poly(x) for x in xargs)
            own = {v.name for v in bv}
            if type(self) is Subst and nd == dims and a.name != "sum" and all(b.syms.isdisjoint(self.sk) and (b.fv - own).isdisjoint(self.vk) for b in bodies):
                r = self.ma[a] = big_at(a, nx)          # only the position changes
                return r
            new = [fresh() for _ in bv]
            facts = []
            for w, d in zip(new, nd):
                facts += inrange(P(w), d)
            if a.name == "ndiff":
                facts += [LE(nx[1], P(new[0])), LE(P(new[0]), nx[1] + nx[0])]        # all it reads
            inner = dict(self.vars)
            for o, w in zip(bv, new):
                inner[o.name] = P(w)
            with assuming(*facts):
                s = type(self)(inner, self.syms)
                nb = tuple(s.poly(b) for b in bodies)
            r = mk_big(a.name, list(zip(new, nd)), nb, nx, a.isint)
        else:
            raise TermError(k)
        self.ma[a] = r
        return r

    def rec(self, name):
        """the instance of a recursive symbol under the symbol substitution in force"""
        d = RECS[name]
        cache = self.__dict__.setdefault("mrec", {})
        if name in cache:
            return cache[name]
        defs = []
        tmpn = {}
        nidx = {}
        for nm in d.group:
            tmpn[nm] = "?t" + nm
            nidx[nm] = sum(1 for f in RECS[nm].formals if f.name.startswith("@f"))
        s2 = Subst(None, dict(self.syms))
        for nm in d.group:
            g = RECS[nm]
            # within the group the parameters are always passed through unchanged
            s2.syms[nm] = (lambda t, ii, n: lambda *a: P(_mk("app", t, tuple(a[:n + 1]), ii)))(tmpn[nm], g.isint, nidx[nm])
        s2.sk = frozenset(s2.syms)
        for nm in d.group:
            g = RECS[nm]
            defs.append((tmpn[nm], g.formals[:nidx[nm]], g.kvar, s2.poly(g.init), s2.poly(g.step), g.isint))
        fns = mk_recs(defs)
        for nm in d.group:
            g = RECS[nm]
            n = nidx[nm]
            base = fns[tmpn[nm]](P(g.kvar), *[P(f) for f in g.formals[:n]])
            names = [g.kvar.name] + [f.name for f in g.formals]
            cache[nm] = (lambda b, ns: lambda args: subst(b, dict(zip(ns, args))))(base, names)
        return cache[name]

    def rebuild_app(self, a, args):
        if a.name in BUILTIN_APPS:
            return mk_app(a.name, *args)
        return P(_mk("app", a.name, tuple(args), a.isint))

    def bool(self, b):
        if not self.touches(b):
            return b
        r = self.mb.get(b)
        if r is not None:
            return r
        k = b.kind
        if k == "eq":
            r = eq0(self.poly(b.args[0]))
        elif k == "le":
            r = le0(self.poly(b.args[0]))
        elif k == "lt":
            r = lt0(self.poly(b.args[0]))
        elif k == "not":
            r = Not(self.bool(b.args[0]))
        elif k == "and":
            r = And(*[self.bool(x) for x in b.args])
        elif k == "or":
            r = Or(*[self.bool(x) for x in b.args])
        elif k == "bvar":
            s = self.syms.get(b.args[0])
            r = s() if s is not None else b
        else:
            r = b
        self.mb[b] = r
        return r


BUILTIN_APPS = {"abs", "sign", "sqrt", "exp", "tanh", "log10", "log", "pow", "trunc", "floor", "ceil", "rint", "mod", "fdiv", "?le", "?lt", "?eq"}


def subst(p, vars=None, syms=None):
    return Subst(vars, syms).poly(p)


def subst_b(b, vars=None, syms=None):
    return Subst(vars, syms).bool(b)


def subst_atom(a, mp):
    s = Subst(mp)
    return s.atom(a) if s.touches(a) else P(a)


# ---------------------------------------------------------------------------------------------- printing
def show(p, depth=0):
    if not p.t:
        return "0"
    parts = []
    for m, c in sorted(p.t.items(), key=lambda x: _monokey(x[0])):
        num, den = [], []
        for a, e in m:
            s = show_atom(a)
            if e < 0:
                den.append(s if e == -1 else "%s^%d" % (s, -e))
            else:
                num.append(s if e == 1 else "%s^%d" % (s, e))
        body = "*".join(num) or "1"
        if den:
            body += "/" + "/".join(den)
        if c == 1:
            parts.append(body)
        elif c == -1:
            parts.append("-" + body)
        else:
            parts.append("%s*%s" % (c, body))
    return " + ".join(parts)


def show_atom(a):
    if a.kind == "var":
        return a.name
    if a.kind == "app":
        return "%s(%s)" % (a.name, ", ".join(show(x) for x in a.args))
    if a.kind == "ite":
        return "(%s ? %s : %s)" % (show_bool(a.args[0]), show(a.args[1]), show(a.args[2]))
    if a.kind == "den":
        return "(%s)" % show(a.args[0])
    dims, bv, bodies, xargs = a.args
    r = "%s[%s](%s)" % (a.name, ",".join("%s<%s" % (v.name, show(d)) for v, d in zip(bv, dims)),
                        "; ".join(show(b) for b in bodies))
    if xargs:
        r += "(%s)" % ",".join(show(x) for x in xargs)
    return r


def show_bool(b):
    if b.kind in ("eq", "le", "lt"):
        return "%s %s 0" % (show(b.args[0]), {"eq": "=", "le": "<=", "lt": "<"}[b.kind])
    if b.kind == "not":
        return "!(%s)" % show_bool(b.args[0])
    if b.kind in ("and", "or"):
        return "(" + (" & " if b.kind == "and" else " | ").join(show_bool(x) for x in b.args) + ")"
    if b.kind == "bvar":
        return b.args[0]
    return b.kind
