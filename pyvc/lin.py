"""Fast path for linear integer facts: difference bounds, then Fourier-Motzkin on small systems."""
from fractions import Fraction

_parse_memo = {}
OPAQUE_OK = None


def parse(b):
    """list of constraints ({atom: coef}, const) meaning sum + const <= 0, or None when b is not a linear conjunction"""
    r = _parse_memo.get(b, 0)
    if r == 0:
        r = _parse(b)
        _parse_memo[b] = r
    return r


def _lin(p):
    if not p.isint:
        return None
    d, k = {}, 0
    for m, c in p.t.items():
        if m == ():
            k = c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        a = m[0][0]
        if a.kind == "var" or (a.kind == "app" and a.name not in ("abs", "sign", "trunc", "floor", "ceil", "rint", "mod",
                                                                   "fdiv", "perm")):
            d[a] = c
        else:
            return None
    return d, k


def _parse(b):
    if b.kind == "and":
        out = []
        for x in b.args:
            r = parse(x)
            if r is None:
                return None
            out += r
        return out
    if b.kind == "le":
        r = _lin(b.args[0])
        return None if r is None else [r]
    if b.kind == "eq":
        r = _lin(b.args[0])
        if r is None:
            return None
        d, k = r
        return [(d, k), ({a: -c for a, c in d.items()}, -k)]
    return None


_dbm_cache = {}
INF = None


class DBM:
    def __init__(self, cons):
        nodes = {None: 0}
        for d, k in cons:
            for a in d:
                nodes.setdefault(a, len(nodes))
        n = len(nodes)
        M = [[INF] * n for _ in range(n)]
        for i in range(n):
            M[i][i] = 0
        for d, k in cons:
            u, v, w = self.edge(d, k)
            i, j = nodes[u], nodes[v]
            if M[i][j] is INF or w < M[i][j]:
                M[i][j] = w
        for c in range(n):
            Mc = M[c]
            for i in range(n):
                x = M[i][c]
                if x is INF:
                    continue
                Mi = M[i]
                for j in range(n):
                    y = Mc[j]
                    if y is not INF:
                        z = x + y
                        if Mi[j] is INF or z < Mi[j]:
                            Mi[j] = z
        self.nodes, self.M = nodes, M
        self.bad = any(M[i][i] < 0 for i in range(n))

    @staticmethod
    def edge(d, k):
        """u - v <= w"""
        u = v = None
        for a, c in d.items():
            if c == 1:
                u = a
            else:
                v = a
        return u, v, -k

    def entails(self, d, k):
        if self.bad:
            return True
        u, v, w = self.edge(d, k)
        i, j = self.nodes.get(u), self.nodes.get(v)
        if i is None or j is None:
            return False
        x = self.M[i][j]
        return x is not INF and x <= w


def isdiff(c):
    d = c[0]
    if len(d) == 1:
        return abs(next(iter(d.values()))) == 1
    if len(d) == 2:
        x, y = d.values()
        return x + y == 0 and abs(x) == 1
    return not d


def fm_infeasible(cons, limit=80):
    """True / False (rationally feasible) / None (too big)"""
    cons = [(dict(d), Fraction(k)) for d, k in cons]
    while True:
        vs = {}
        for d, k in cons:
            if not d:
                if k > 0:
                    return True
                continue
            for a, c in d.items():
                e = vs.setdefault(a, [0, 0])
                e[0 if c > 0 else 1] += 1
        if not vs:
            return False
        a = min(vs, key=lambda x: vs[x][0] * vs[x][1] - vs[x][0] - vs[x][1])
        pos = [c for c in cons if c[0].get(a, 0) > 0]
        neg = [c for c in cons if c[0].get(a, 0) < 0]
        rest = [c for c in cons if not c[0].get(a, 0)]
        new = {}
        for d, k in rest:
            key = frozenset(d.items())
            if key not in new or new[key] < k:
                new[key] = k
        for d1, k1 in pos:
            for d2, k2 in neg:
                f1, f2 = Fraction(1) / d1[a], Fraction(-1) / d2[a]
                d = {}
                for x, c in d1.items():
                    d[x] = c * f1
                for x, c in d2.items():
                    v = d.get(x, 0) + c * f2
                    if v:
                        d[x] = v
                    else:
                        d.pop(x, None)
                d.pop(a, None)
                k = k1 * f1 + k2 * f2
                if not d:
                    if k > 0:
                        return True
                    continue
                # scale
                s = abs(next(iter(d.values())))
                if s != 1:
                    d = {x: c / s for x, c in d.items()}
                    k = k / s
                key = frozenset(d.items())
                if key not in new or new[key] < k:
                    new[key] = k
        cons = [(dict(d), k) for d, k in new.items()]
        if len(cons) > limit:
            return None


def entails(facts, goal):
    """True, None (not entailed), or '?' (outside this fragment)"""
    cons = []
    pure = True
    for f in facts:
        r = parse(f)
        if r is None:
            pure = False
        else:
            cons += r
    if goal.kind == "le":
        g = parse(goal)
        if g is None:
            return "?"
        goals = [g]
    elif goal.kind == "eq":
        g = parse(goal)
        if g is None:
            return "?"
        goals = [g]
    elif goal.kind == "not" and goal.args[0].kind == "eq":
        g = parse(goal.args[0])
        if g is None:
            return "?"
        # infeasible together with equality
        r = _infeasible(cons + g, facts, goal)
        return True if r is True else ("?" if r is None or not pure else None)
    else:
        return "?"
    for c in goals[0]:
        diffs = all(isdiff(x) for x in cons) and isdiff(c)
        if diffs:
            key = frozenset(facts)
            m = _dbm_cache.get(key)
            if m is None:
                m = _dbm_cache[key] = DBM(cons)
            if not m.entails(*c):
                return None if pure else "?"
        else:
            d, k = c
            r = _infeasible(cons + [({a: -x for a, x in d.items()}, -k + 1)], facts, goal)
            if r is True:
                continue
            if r is None or not pure:
                return "?"
            if any(abs(x) != 1 for q in cons + [c] for x in q[0].values()):
                return "?"
            return None
    return True


def _infeasible(cons, facts, goal):
    if all(isdiff(x) for x in cons):
        return DBM(cons).bad
    return fm_infeasible(cons)
