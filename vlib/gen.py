"""Common generators. A spec is JSON-able; mk_*() turns it into numpy arrays deterministically."""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2**20)


def rng(*k):
    return np.random.RandomState([int(x) % (2**31) for x in k])


def sizes(lo=1, hi=10, big=None, p_big=0.1):
    """lo..hi, sometimes up to big."""
    if big is None:
        return st.integers(lo, hi)
    k = max(1, int(round(1 / p_big)) - 1)
    return st.one_of(*([st.integers(lo, hi)] * k), st.integers(hi, big))


# ------------------------------------------------------------------ weights
@st.composite
def w_spec(draw, n, zeros=True, skew=True):
    kinds = ["unif", "rand", "int"] + (["zero", "one"] if zeros and n > 1 else []) + (["skew"] if skew else [])
    k = draw(st.sampled_from(kinds))
    if k == "unif":
        return ["unif", n]
    if k == "int":
        if n <= 8:
            v = draw(st.lists(st.integers(0 if zeros else 1, 6), min_size=n, max_size=n))
            if sum(v) == 0:
                v[0] = 1
            return ["int", v]
        return ["rint", n, draw(seeds), 0 if zeros else 1]
    if k == "one":  # a single atom carries everything
        return ["one", n, draw(st.integers(0, n - 1))]
    return [k, n, draw(seeds)]


def mk_w(s, mass=1.0):
    k = s[0]
    if k == "unif":
        w = np.ones(s[1])
    elif k == "int":
        w = np.array(s[1], dtype=float)
    elif k == "rint":
        w = rng(s[2], 1).randint(s[3], 6, s[1]).astype(float)
        if w.sum() == 0:
            w[0] = 1
    elif k == "one":
        w = np.zeros(s[1])
        w[s[2]] = 1
    else:
        r = rng(s[2], 2)
        w = r.rand(s[1]) + 0.05
        if k == "zero":
            keep = r.rand(s[1]) < 0.6
            keep[r.randint(s[1])] = True
            w = w * keep
        elif k == "skew":
            w = np.exp(3 * r.randn(s[1])).clip(1e-4, 1e4)
            w = w / w.max()
            w = np.maximum(w, 1e-5)
    return mass * w / w.sum()


# ------------------------------------------------------------------ costs
@st.composite
def m_spec(draw, n, m, neg=True, scale=True):
    k = draw(st.sampled_from(["int", "gauss" if neg else "abs", "sq", "unif", "const", "rank1"] + (["big", "tiny"] if scale else []) + (["mixed", "allneg"] if neg and scale else [])
                             + (["list"] if n * m <= 12 else [])))
    if k == "list":
        v = draw(st.lists(st.integers(-4 if neg else 0, 4), min_size=n * m, max_size=n * m))
        return ["list", n, m, v]
    if k == "const":
        return ["const", n, m, draw(st.integers(0, 3))]
    return [k, n, m, draw(seeds)]


def mk_m(s):
    k, n, m, x = s
    if k == "list":
        return np.array(x, dtype=float).reshape(n, m)
    if k == "const":
        return np.full((n, m), float(x))
    r = rng(x, 3)
    if k == "int":
        return r.randint(0, 5, (n, m)).astype(float)
    if k == "gauss":
        return r.randn(n, m)
    if k == "abs":
        return np.abs(r.randn(n, m))
    if k == "unif":
        return r.rand(n, m)
    if k == "sq":
        d = 1 + r.randint(3)
        X, Y = r.randn(n, d), r.randn(m, d) + r.randn(d)
        return ((X[:, None] - Y[None]) ** 2).sum(-1)
    if k == "rank1":
        return r.rand(n)[:, None] + r.rand(m)[None, :]
    if k == "big":
        return 1e6 * r.rand(n, m)
    if k == "mixed":  # entries of very different sizes and signs
        return r.randn(n, m) * 10.0 ** r.randint(-1, 4, (n, m))
    if k == "allneg":
        return -1 - 100 * r.rand(n, m)
    if k == "tiny":
        return 1e-6 * r.rand(n, m)
    raise ValueError(k)


# ------------------------------------------------------------------ points
@st.composite
def x_spec(draw, n, d, kinds=("gauss", "grid", "dup", "shift")):
    k = draw(st.sampled_from(list(kinds)))
    return [k, n, d, draw(seeds)]


def mk_x(s):
    k, n, d, x = s
    r = rng(x, 4)
    if k == "gauss":
        return r.randn(n, d)
    if k == "grid":  # many exact ties
        return r.randint(-2, 3, (n, d)).astype(float)
    if k == "dup":
        X = r.randn(n, d)
        return X[r.randint(0, n, n)]
    if k == "shift":
        return r.randn(n, d) * (0.2 + r.rand(d)) + 2 * r.randn(d)
    if k == "unif":
        return r.rand(n, d)
    if k == "pos":
        return r.rand(n, d) + 0.1
    if k == "far":
        return 30 * r.randn(n, d)
    raise ValueError(k)


# ------------------------------------------------------------------ structure matrices (GW)
@st.composite
def c_spec(draw, n, kinds=("eucl", "sq", "graph", "sym", "asym", "int")):
    return [draw(st.sampled_from(list(kinds))), n, draw(seeds)]


def mk_c(s):
    k, n, x = s
    r = rng(x, 5)
    if k in ("eucl", "sq"):
        X = r.randn(n, 2)
        D2 = ((X[:, None] - X[None]) ** 2).sum(-1)
        return np.sqrt(D2) if k == "eucl" else D2
    if k == "graph":
        A = (r.rand(n, n) < 0.5).astype(float)
        A = np.triu(A, 1)
        return A + A.T
    if k == "sym":
        A = r.rand(n, n)
        return (A + A.T) / 2
    if k == "asym":
        return r.rand(n, n)
    if k == "int":
        A = r.randint(0, 4, (n, n)).astype(float)
        A = np.triu(A, 1)
        return A + A.T
    if k == "pos":
        A = r.rand(n, n) + 0.2
        return (A + A.T) / 2
    if k == "posasym":
        return r.rand(n, n) + 0.2
    raise ValueError(k)


@st.composite
def record(draw, **fields):
    """A dict of independent strategies."""
    return {k: draw(v) for k, v in fields.items()}


# ------------------------------------------------------------------ parameters
def around(fixed, lo, hi):
    """Mostly the given values, sometimes anything in [lo, hi] (rounded to 3 digits)."""
    f = st.sampled_from(list(fixed))
    return st.one_of(f, f, st.floats(lo, hi).map(lambda x: round(x, 3)))
