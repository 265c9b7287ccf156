"""numeric interpretation of opaque operators (shared by the term evaluator and native replay)"""
import math
import random


def opaque_num(name, nb, vals, xs):
    h = random.Random(name + str(nb))
    s = h.uniform(-1, 1)
    for v in vals:
        for q in v:
            s = math.sin(1.3 * s + h.uniform(0.3, 1.7) * float(q) + 0.1)
    for q in xs:
        s = math.sin(1.1 * s + h.uniform(0.3, 1.7) * float(q) + 0.2)
    return s


def stream(kind, p):
    """variate p of numpy's global random stream as the checks see it (multiples of 2^-10, exact in both worlds)"""
    h = random.Random("%s%d" % (kind, int(p)))
    v = h.gauss(0, 1) if kind == "gauss#" else h.random()
    return round(v * 1024) / 1024


def permutation(c, n):
    q = list(range(n))
    random.Random("perm%d" % c).shuffle(q)
    return q


def seed_position(s):
    return 10 ** 6 * (int(s) + 1)


class Stream:
    """stands in for numpy.random's global functions during native runs"""
    def __init__(self):
        self.pos = 0

    def draw(self, kind, size):
        import numpy as np
        if size is None:
            self.pos += 1
            return stream(kind, self.pos - 1)
        n = int(np.prod(np.array(size, dtype=int)))
        a = np.array([stream(kind, self.pos + i) for i in range(n)], dtype="float64")
        self.pos += n
        return a.reshape(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.draw("gauss#", size)

    def standard_normal(self, size=None):
        return self.draw("gauss#", size)

    def randn(self, *shape):
        return self.draw("gauss#", shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.draw("unif#", size)

    def random(self, size=None):
        return self.draw("unif#", size)

    def rand(self, *shape):
        return self.draw("unif#", shape if shape else None)

    def seed(self, s=None):
        self.pos = seed_position(s)

    def shuffle(self, a):
        import numpy as np
        q = permutation(self.pos, len(a))
        self.pos += 1
        if isinstance(a, np.ndarray):
            a[...] = a[q]
        else:
            a[:] = [a[i] for i in q]

    def permutation(self, a):
        import numpy as np
        r = np.arange(a) if np.ndim(a) == 0 else np.array(a)
        self.shuffle(r)
        return r

    def install(self, np):
        for nm in ("normal", "standard_normal", "randn", "uniform", "random", "rand", "seed", "shuffle", "permutation"):
            setattr(np.random, nm, getattr(self, nm))
        np.random.random_sample = self.random
