"""shared by the filter properties: the 15 filter classes, their parameters and their update rules as recursions"""
from pyvc.dsl import *

N, M, n = ivar("N"), ivar("M"), ivar("n")
d, x, w0 = fn("d"), fn("x"), fn("w0")
mu, eps, ro, lam, alpha, a_, ifc = (var(s) for s in ("mu", "eps", "ro", "lambd", "alpha", "a", "ifc"))
BASE = "padasip/filters/base_filter.py"

PARAMS = {
    "LMS": ["mu"], "NLMS": ["mu", "eps"], "LMF": ["mu"], "NLMF": ["mu", "eps"], "SSLMS": ["mu"], "NSSLMS": ["mu", "eps"],
    "Llncosh": ["mu", "lambd"], "GMCC": ["mu", "lambd", "alpha"], "GNGD": ["mu", "eps", "ro"], "VSLMS_Ang": ["mu", "ro", "a"],
    "VSLMS_Benveniste": ["mu", "ro"], "VSLMS_Mathews": ["mu", "ro"], "RLS": ["mu", "eps"], "AP": ["mu", "order", "ifc"],
    "OCNLMS": ["mu", "eps", "mem"],
}
ALL = list(PARAMS)
FILES = {k: ["padasip/filters/%s.py" % k.lower(), BASE] for k in ALL}
MEMORYLESS = ["LMS", "NLMS", "LMF", "NLMF", "SSLMS", "NSSLMS", "Llncosh", "GMCC"]

# ranges used for native runs only (the proofs hold for all values allowed by the preconditions)
BOUNDS = {"mu": (0.05, 1.0), "eps": (0.1, 2.0), "ro": (0.0, 0.3), "a": (0.0, 1.0), "lambd": (0.05, 1.0), "alpha": (1.0, 3.0),
          "ifc": (0.05, 1.0), "order": (1, 4), "mem": (2, 5), "N": (1, 5), "M": (1, 4), "n": (1, 4)}
POS = {"eps": [LT(0, eps)], "alpha": [LE(1, alpha)], "order": [LE(1, ivar("order"))], "mem": [LE(2, ivar("mem"))],
       "ifc": [LT(0, ifc)]}


def kwargs(f):
    return ", ".join("%s=%s" % (p, p) for p in PARAMS[f])


def params(f):
    return ", ".join(PARAMS[f])


def pin(f):
    """inputs for the parameters of filter f"""
    return {p: (Z() if p in ("order", "mem") else R()) for p in PARAMS[f]}


def requires(f, extra=()):
    out = pos(N, n) + list(extra)
    for p in PARAMS[f]:
        out += POS.get(p, [])
    if f == "RLS":
        out += [LT(0, mu)]
    return out


def dot(f, g):
    return SUM(n, lambda i: f(i) * g(i))


def increment(f, e, X):
    """documented increment of a memoryless filter for error e and input X (function of the index)"""
    n2 = SUM(n, lambda i: X(i) ** 2)
    return {
        "LMS": lambda i: mu * e * X(i),
        "NLMS": lambda i: mu * e * X(i) / (eps + n2),
        "LMF": lambda i: mu * e ** 3 * X(i),
        "NLMF": lambda i: mu * e ** 3 * X(i) / (eps + n2),
        "SSLMS": lambda i: mu * sign(e) * sign(X(i)),
        "NSSLMS": lambda i: mu * sign(e) * sign(X(i)) / (eps + n2),
        "Llncosh": lambda i: mu * tanh(lam * e) * X(i),
        "GMCC": lambda i: mu * lam * alpha * exp(-lam * power(abs_(e), alpha)) * power(abs_(e), alpha - 1) * sign(e) * X(i),
    }[f]
