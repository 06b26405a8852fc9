"""C05: OT on the circle is exact and rotation invariant."""
import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from core import arr, close, ensure, facet, num

META = {
    "rule": "non-trivial when both sides have >=2 distinct atoms",
    "assumptions": ["weights sum to one", "binary search stops at eps=1e-6: values compared at 1e-5 (p>1)", "oracle: HiGHS LP with geodesic^p cost"],
}


@st.composite
def pts(draw, n):
    k = draw(st.sampled_from(["unif", "grid", "cluster", "equi", "wide"]))
    return [k, n, draw(g.seeds)]


def mk(s):
    k, n, x = s
    r = g.rng(x, 11)
    if k == "unif":
        return r.rand(n)
    if k == "grid":
        return r.randint(0, 8, n) / 8.0
    if k == "cluster":
        return (r.rand() + 0.1 * r.randn(n)) % 1
    if k == "equi":
        return (np.arange(n) / n + r.rand()) % 1
    return 3 * r.randn(n)  # any real number, taken modulo 1


@st.composite
def case(draw, hi=7, ps=(1, 1.5, 2, 3)):
    n, m = draw(g.sizes(1, hi, 25, 0.1)), draw(g.sizes(1, hi, 25, 0.1))
    return dict(x=draw(pts(n)), y=draw(pts(m)), a=draw(st.one_of(st.none(), g.w_spec(n))), b=draw(st.one_of(st.none(), g.w_spec(m))),
                p=draw(g.around(ps, 1, 4) if max(ps) > 2 else st.sampled_from(list(ps))), k=draw(g.seeds), rot=draw(st.sampled_from([0.1, 0.25, 0.5, 0.9, 1.7, -0.3])))


def unpack(c):
    x, y = mk(c["x"]), mk(c["y"])
    a = None if c["a"] is None else g.mk_w(c["a"])
    b = None if c["b"] is None else g.mk_w(c["b"])
    return x, y, a, b, (np.ones(len(x)) / len(x) if a is None else a), (np.ones(len(y)) / len(y) if b is None else b)


def geo(x, y, p):
    d = np.abs((x[:, None] - y[None]) % 1)
    return np.minimum(d, 1 - d) ** p


@facet(case(), 500, 15000, weight=5)
def exact(c, rec):
    """wasserstein_circle / binary_search_circle = LP optimum for geodesic^p; rotation, order and swap invariant."""
    x, y, a, b, A, B = unpack(c)
    p = c["p"]
    rec.nontrivial(len(set(x)) > 1 and len(set(y)) > 1)
    rec.label("p:%s" % p)
    v = ref.lp_ot(A, B, geo(x, y, p))[0]
    tol = 2e-5
    out = arr(ot.wasserstein_circle(x, y, a, b, p=p), (1,))
    close(out, [v], tol, "wasserstein_circle")
    close(arr(ot.binary_search_circle(x, y, a, b, p=p), (1,)), [v], tol, "binary_search_circle")
    close(arr(ot.wasserstein_circle(y, x, b, a, p=p), (1,)), [v], tol, "swapped")
    close(arr(ot.wasserstein_circle((x + c["rot"]) % 1, (y + c["rot"]) % 1, a, b, p=p), (1,)), [v], tol, "rotated")
    q = g.rng(c["k"]).permutation(len(x))
    close(arr(ot.wasserstein_circle(x[q], y, None if a is None else a[q], b, p=p), (1,)), [v], tol, "reordered")
    close(arr(ot.wasserstein_circle(x, x[q], a, None if a is None else a[q], p=p), (1,)), [0], tol, "distance to itself")


@facet(case(ps=(1,)), 800, 20000)
def w1_level_median(c, rec):
    """wasserstein1_circle (level median) = LP optimum for the geodesic distance."""
    x, y, a, b, A, B = unpack(c)
    rec.nontrivial(len(set(x)) > 1 and len(set(y)) > 1)
    v = ref.lp_ot(A, B, geo(x, y, 1))[0]
    close(arr(ot.lp.solver_circle.wasserstein1_circle(x, y, a, b), (1,)), [v], 1e-9, "wasserstein1_circle")
    q = g.rng(c["k"]).permutation(len(x))
    close(arr(ot.lp.solver_circle.wasserstein1_circle((x[q] + c["rot"]), y + c["rot"], None if a is None else a[q], b), (1,)), [v], 1e-9, "rotated and reordered")


def lifted_quantile(x, a, q):
    """F^{-1}(q) for sorted x in [0,1), extended by F^{-1}(q+1)=F^{-1}(q)+1."""
    cdf = np.cumsum(a)
    k = np.floor(q)
    f = q - k
    i = np.clip(np.searchsorted(cdf, f), 0, len(x) - 1)
    return x[i] + k


@facet(case(), 800, 20000)
def semidiscrete_uniform(c, rec):
    """W2^2 to the uniform measure: closed form = variance of F^{-1}(q)-q; invariant to order and rotation."""
    x, _, a, _, A, _ = unpack(c)
    rec.nontrivial(len(set(x)) > 1)
    i = np.argsort(x % 1)
    xs, w = (x % 1)[i], A[i]
    hi = np.cumsum(w)
    lo = hi - w
    # int (x_i - q)^2 dq over [lo, hi]
    m2 = np.sum(((xs - lo) ** 3 - (xs - hi) ** 3) / 3)
    m1 = np.sum(xs * w) - 0.5
    v = m2 - m1 ** 2
    f = ot.semidiscrete_wasserstein2_unif_circle
    close(arr(f(x, a), (1,)), [v], 1e-9, "semidiscrete_wasserstein2_unif_circle")
    q = g.rng(c["k"]).permutation(len(x))
    close(arr(f(x[q], None if a is None else a[q]), (1,)), [v], 1e-9, "reordered")
    close(arr(f(x + c["rot"], a), (1,)), [v], 1e-9, "rotated")


@facet(case(), 600, 15000)
def linear_circular(c, rec):
    """Linear circular OT: embedding and distance equal their definition on the documented grid."""
    x, y, a, b, A, B = unpack(c)
    rec.nontrivial(len(set(x)) > 1)
    t = np.linspace(0, 1, 101)[:-1]

    def emb(x, w, pad):
        i = np.argsort(x % 1)
        xs, w = (x % 1)[i], w[i]
        q = t - np.sum(xs * w) + 0.5
        cdf = np.concatenate([[0], np.cumsum(w)])
        gap = np.abs((q[:, None] - cdf[None] + 0.5) % 1 - 0.5).min()
        if pad:  # the known off-by-one: each quantile is that of the next sample
            return xs[np.clip(np.searchsorted(cdf, q % 1), 0, len(xs) - 1)] - t, gap
        return (lifted_quantile(xs, w, q) - t), gap

    def same(E, e):
        d = np.abs((E - e) % 1)
        return np.minimum(d, 1 - d).max() <= 1e-9

    e, g1 = emb(x, A, False)
    f, g2 = emb(y, B, False)
    if min(g1, g2) < 1e-9:
        rec.skip("evaluation point on a jump")
        return
    E = arr(ot.lp.solver_circle.linear_circular_embedding(t, x, a), (100, 1))[:, 0]
    if not same(E, e):
        ensure(same(E, emb(x, A, True)[0]), "embedding differs from its definition F^{-1}(x - mean + 1/2) - x")
        rec.known("linear_circular_embedding-next-sample", "embedding uses the quantile of the next sample")
    F = arr(ot.lp.solver_circle.linear_circular_embedding(t, y, b), (100, 1))[:, 0]
    ensure(same(F, f) or same(F, emb(y, B, True)[0]), "embedding of the second measure differs from its definition")
    geo2 = lambda u: np.minimum(u % 1, 1 - u % 1) ** 2
    close(arr(ot.linear_circular_ot(x, y, a, b), (1,)), [geo2(E - F).mean()], 1e-9, "linear_circular_ot is not the mean squared geodesic distance of the embeddings")
    close(arr(ot.linear_circular_ot(x, None, a), (1,)), [geo2(E).mean()], 1e-9, "linear_circular_ot to the uniform measure")


@st.composite
def batch(draw):
    n, m, k = draw(st.integers(1, 6)), draw(st.integers(1, 6)), draw(st.integers(1, 4))
    own = draw(st.sampled_from(["none", "shared", "own"]))
    return dict(x=[draw(pts(n)) for _ in range(k)], y=[draw(pts(m)) for _ in range(k)], own=own,
                a=[draw(g.w_spec(n)) for _ in range(k)], b=[draw(g.w_spec(m)) for _ in range(k)], p=draw(g.around([1, 2, 1.5], 1, 3)))


@facet(batch(), 250, 8000, weight=5)
def batched(c, rec):
    """Every column of a batched circle call has the value it gets alone."""
    X, Y = np.stack([mk(s) for s in c["x"]], 1), np.stack([mk(s) for s in c["y"]], 1)
    K = X.shape[1]
    a, b = np.stack([g.mk_w(s) for s in c["a"]], 1), np.stack([g.mk_w(s) for s in c["b"]], 1)
    rec.nontrivial(K > 1 and len(X) > 1)
    if c["own"] == "none":
        wa = wb = None
        col = lambda w, k: None
    elif c["own"] == "shared":
        wa, wb = a[:, 0], b[:, 0]
        col = lambda w, k: w
    else:
        wa, wb = a, b
        col = lambda w, k: w[:, k]
    S = ot.lp.solver_circle
    p = c["p"]
    for name, fn in [("wasserstein_circle", lambda x, y, u, v: ot.wasserstein_circle(x, y, u, v, p=p)), ("wasserstein1_circle", S.wasserstein1_circle),
                     ("linear_circular_ot", ot.linear_circular_ot), ("semidiscrete", lambda x, y, u, v: ot.semidiscrete_wasserstein2_unif_circle(x, u))]:
        out = arr(fn(X, Y, wa, wb), (K,), what=name)
        for k in range(K):
            one = arr(fn(X[:, k], Y[:, k], col(wa, k), col(wb, k)), (1,))
            close(out[k], one[0], 2e-5 if name == "wasserstein_circle" else 1e-9, f"{name}: column {k} differs from its own value")
