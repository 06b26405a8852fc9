"""C30: ground costs, projections and utilities equal their definitions."""
import contextlib
import io
import itertools
import warnings

import numpy as np
import ot
from hypothesis import strategies as st
from ot import utils as U

import gen as g
from core import FACETS, arr, close, ensure, facet, leq, raises
from checks.c23 import quiet

FACETS.clear()
META = {
    "backends": ["torch"],
    "rule": "non-trivial when the arrays hold more than one row and one column (or, for scalars and encodings, when the answer is not constant)",
    "assumptions": ["'cosine' and 'correlation' are checked away from vectors of zero norm", "Euclidean distances are accurate to the square root of the machine precision near zero"],
}
LIB = st.sampled_from(["numpy", "numpy", "torch"])


def T(lib, *xs):
    if lib == "torch":
        import torch

        out = [None if x is None else torch.tensor(x) for x in xs]
    else:
        out = [None if x is None else np.array(x) for x in xs]
    return out[0] if len(out) == 1 else out


def tonp(x):
    return x.detach().numpy() if hasattr(x, "detach") else np.asarray(x)


def cloud(r, n, d, kind):
    if kind == "grid":
        return r.randint(-2, 3, (n, d)).astype(float)
    x = r.randn(n, d)
    if kind == "dup":
        x[r.randint(n)] = x[0]
    if kind == "big":
        x *= 100
    return x


KIND = st.sampled_from(["gauss", "grid", "dup", "big"])


# ---------------------------------------------------------------- ground costs
def ref_dist(x, y, metric, p, w):
    n, m, d = len(x), len(y), x.shape[1]
    M = np.zeros((n, m))
    for i in range(n):
        for j in range(m):
            u, v = x[i], y[j]
            t = np.abs(u - v)
            if metric == "sqeuclidean":
                M[i, j] = (t**2).sum()
            elif metric == "euclidean":
                M[i, j] = np.sqrt((t**2).sum())
            elif metric == "cityblock":
                M[i, j] = t.sum()
            elif metric == "chebyshev":
                M[i, j] = t.max()
            elif metric == "hamming":
                M[i, j] = (t > 0).mean()
            elif metric == "canberra":
                s = np.abs(u) + np.abs(v)
                M[i, j] = (t[s > 0] / s[s > 0]).sum()
            elif metric == "minkowski":
                M[i, j] = ((1 if w is None else w) * t**p).sum() ** (1 / p)
            else:
                if metric == "correlation":
                    u, v = u - u.mean(), v - v.mean()
                M[i, j] = 1 - u @ v / np.sqrt((u @ u) * (v @ v))
    return M


METRICS = ["sqeuclidean", "euclidean", "cityblock", "minkowski", "cosine", "correlation"]


@facet(
    g.record(lib=LIB, metric=st.sampled_from(METRICS + ["chebyshev", "canberra", "hamming", "callable"]), n=st.integers(1, 9), m=st.integers(1, 9), d=st.integers(1, 5), kx=KIND, ky=KIND, second=st.sampled_from(["other", "none", "same", "copy"]), p=st.sampled_from([1, 2, 3, 1.5, 2.7, 0.5]), w=st.sampled_from([None, None, "pos", "zero"]), tensor=st.booleans(), scipy=st.booleans(), nx=st.booleans(), k=g.seeds),
    1500,
    40000,
)
def ground_cost(c, rec):
    """ot.dist equals the textbook formula of its metric, entry by entry"""
    r = g.rng(c["k"], 30)
    x = cloud(r, c["n"], c["d"], c["kx"])
    second = c["second"]
    y = cloud(r, c["m"], c["d"], c["ky"]) if second == "other" else x
    metric, p = c["metric"], c["p"]
    w = None
    if metric == "minkowski" and c["w"]:
        w = r.rand(c["d"]) + 0.1
        if c["w"] == "zero":
            w[r.randint(c["d"])] = 0
        p = max(p, 1)
    if metric in ("cosine", "correlation"):
        def deg(z):
            z = z - z.mean(1, keepdims=True) if metric == "correlation" else z
            return (z**2).sum(1).min() < 1e-3
        if deg(x) or deg(y):
            return rec.skip("a vector has zero norm")
    lib = c["lib"]
    scipy = c["scipy"]
    if metric in ("chebyshev", "canberra", "hamming", "callable"):
        lib = "numpy" if not scipy else lib
    if scipy and metric == "minkowski":
        p = max(p, 1)
    if scipy and second in ("none", "same") and metric in ("cosine", "correlation"):
        pass
    tx, tw = T(lib, x, w)
    ty = {"other": None, "none": None, "same": tx, "copy": None}[second]
    if second in ("other", "copy"):
        ty = T(lib, y)
    fm = metric if metric != "callable" else (lambda u, v: float(np.abs(u - v).max() + (u[0] - v[0]) ** 2))
    kw = {}
    if c["nx"]:
        kw["nx"] = ot.backend.get_backend(tx)
    if scipy:
        kw["backend"] = "scipy"
    if w is not None:
        kw["w"] = tw if not scipy else w
    M = ot.dist(tx, ty, metric=fm, p=p, use_tensor=c["tensor"], **kw)
    ensure(type(M) is type(tx), "%s returns %s for %s input", metric, type(M), type(tx))
    M = arr(tonp(M), (len(x), len(y)))
    if metric == "callable":
        R = np.array([[fm(u, v) for v in y] for u in x])
    else:
        R = ref_dist(x, y, metric, p, w)
    rec.label(metric, second, lib, "scipy" if scipy else "auto")
    rec.nontrivial(len(x) > 1 and len(y) > 1 and R.std() > 1e-6)
    sc = 1 + (x**2).sum(1).max() + (y**2).sum(1).max()
    tol = 1e-11 * sc
    if metric == "euclidean":  # accurate to sqrt(eps) near zero
        close(M**2, R**2, tol, "squared Euclidean cost")
    else:
        close(M, R, tol if metric == "sqeuclidean" else 1e-9, "%s cost (p=%s)" % (metric, p), rtol=1e-9)
    if metric in ("sqeuclidean", "euclidean"):
        ensure(M.min() >= 0, "negative %s cost", metric)
        if second in ("none", "same"):
            ensure((np.diag(M) == 0).all(), "cost of a point to itself is not zero")


@facet(g.record(lib=LIB, metric=st.sampled_from(["sqeuclidean", "euclidean", "cityblock", "minkowski"]), n=st.integers(1, 8), m=st.integers(1, 8), d=st.integers(1, 4), nnz=st.integers(1, 25), p=st.sampled_from([1, 2, 3, 1.5]), w=st.booleans(), batch=st.sampled_from([None, 1, 2, 3, 7, 100]), k=g.seeds), 300, 8000)
def sparse_cost(c, rec):
    """sparse_ot_dist sums the weighted costs of the listed pairs, whatever the batch size"""
    r = g.rng(c["k"], 31)
    x, y = r.randn(c["n"], c["d"]), r.randn(c["m"], c["d"])
    i, j = r.randint(0, c["n"], c["nnz"]), r.randint(0, c["m"], c["nnz"])
    w = r.rand(c["nnz"]) if c["w"] else None
    tx, ty, ti, tj, tw = T(c["lib"], x, y, i, j, w)
    v = float(ot.utils.sparse_ot_dist(tx, ty, ti, tj, tw, metric=c["metric"], p=c["p"], batch_size=c["batch"]))
    R = ref_dist(x, y, c["metric"], c["p"], None)[i, j]
    rec.nontrivial(c["nnz"] > 1)
    rec.label(c["metric"], "batch" if c["batch"] else "whole")
    close(v, (R * w).sum() if c["w"] else R.mean(), 1e-9, "weighted sum of the costs")


# ---------------------------------------------------------------- projections
def ref_simplex(v, z):
    """projection of v onto {w >= 0, sum w = z} by bisection on the threshold"""
    lo, hi = v.min() - z, v.max()
    for _ in range(200):
        t = (lo + hi) / 2
        if np.maximum(v - t, 0).sum() > z:
            lo = t
        else:
            hi = t
    return np.maximum(v - (lo + hi) / 2, 0)


def vec(r, n, kind):
    if kind == "ties":
        return r.randint(-2, 3, n).astype(float)
    if kind == "in":
        return r.dirichlet(np.ones(n))
    v = r.randn(n)
    return v * (50 if kind == "big" else 1) - (3 if kind == "neg" else 0)


VK = st.sampled_from(["gauss", "ties", "in", "big", "neg"])


@facet(g.record(lib=LIB, n=st.integers(1, 12), d=st.sampled_from([None, 1, 2, 5]), z=st.sampled_from([1, 1.0, 0.3, 2, 7.5]), kind=VK, k=g.seeds), 500, 15000)
def simplex(c, rec):
    """proj_simplex returns the nearest point of the simplex, column by column, and is idempotent"""
    r = g.rng(c["k"], 32)
    n, d, z = c["n"], c["d"], c["z"]
    V = vec(r, n, c["kind"]) if d is None else np.stack([vec(r, n, c["kind"]) for _ in range(d)], 1)
    W = arr(tonp(ot.utils.proj_simplex(T(c["lib"], V), z)), V.shape)
    sc = 1 + np.abs(V).max() + z
    rec.nontrivial(n > 1)
    rec.label(c["kind"], c["lib"])
    for j in range(d or 1):
        v, w = (V, W) if d is None else (V[:, j], W[:, j])
        leq(0, w.min(), 0, "projection has a negative entry")
        close(w.sum(), z, 1e-12 * sc * n, "projection does not sum to z")
        close(w, ref_simplex(v, z), 1e-11 * sc, "not the nearest point of the simplex")
    W2 = tonp(ot.utils.proj_simplex(T(c["lib"], W), z))
    close(W2, W, 1e-12 * sc * n, "projection is not idempotent")


@facet(g.record(lib=LIB, n=st.integers(1, 6), d=st.sampled_from([None, 1, 2, 4]), z=st.sampled_from([1, 0.4, 3.0, "array"]), axis=st.sampled_from([None, 0, 1]), nz=st.integers(1, 8), kind=VK, k=g.seeds), 500, 10000)
def sparse_simplex(c, rec):
    """projection_sparse_simplex reaches the smallest distance over all supports of the allowed size"""
    r = g.rng(c["k"], 33)
    n, d, axis = c["n"], c["d"], c["axis"]
    V = vec(r, n, c["kind"]) if d is None else np.stack([vec(r, n, c["kind"]) for _ in range(d)], 1)
    rows = [V] if d is None else [V.ravel()] if axis is None else list(V) if axis == 1 else list(V.T)
    if len(rows[0]) > 10:
        rows = [rows[0][:10]]
        V = rows[0]
        d = None
    z = c["z"]
    if z == "array":
        z = r.rand(len(rows)) + 0.2
        tz = T(c["lib"], z)
    else:
        tz = z
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        W = tonp(ot.utils.projection_sparse_simplex(T(c["lib"], V), c["nz"], tz, axis=axis))
    ensure(not buf.getvalue(), "projection prints %r", buf.getvalue())
    if d is not None and axis is not None:
        W = arr(W, V.shape)
        out = list(W) if axis == 1 else list(W.T)
    else:
        out = [arr(W, (V.size,))]
    rec.nontrivial(len(rows[0]) > 1)
    rec.label("axis=%s" % axis, "nz>=n" if c["nz"] >= len(rows[0]) else "nz<n")
    for i, (v, w) in enumerate(zip(rows, out)):
        zi = z if np.isscalar(z) else z[i]
        sc = 1 + np.abs(v).max() + zi
        leq(0, w.min(), 0, "projection has a negative entry")
        close(w.sum(), zi, 1e-12 * sc * len(v), "projection does not sum to z")
        ensure((w != 0).sum() <= c["nz"], "%d non-zero entries instead of at most %d", (w != 0).sum(), c["nz"])
        best = np.inf
        q = min(c["nz"], len(v))
        for S in itertools.combinations(range(len(v)), q):
            u = np.zeros(len(v))
            u[list(S)] = ref_simplex(v[list(S)], zi)
            best = min(best, ((u - v) ** 2).sum())
        close(((w - v) ** 2).sum(), best, 1e-10 * sc**2, "distance to the sparse projection is not the smallest")


@facet(g.record(lib=LIB, n=st.integers(1, 6), stack=st.sampled_from([None, 1, 3]), vmin=st.sampled_from([0.0, 0.0, 0.1, 1.0]), kind=st.sampled_from(["sym", "psd", "low", "diag"]), k=g.seeds), 300, 8000)
def sdp(c, rec):
    """proj_SDP returns the nearest matrix with eigenvalues >= vmin (variational inequality) and is idempotent; exp_bures and laplacian equal their formulas"""
    r = g.rng(c["k"], 34)
    n = c["n"]

    def one():
        A = r.randn(n, n)
        if c["kind"] == "psd":
            return A @ A.T
        if c["kind"] == "low":
            return np.outer(A[0], A[0]) - np.outer(A[-1], A[-1])
        if c["kind"] == "diag":
            return np.diag(r.randint(-2, 3, n).astype(float))
        return A + A.T

    S = one() if c["stack"] is None else np.stack([one() for _ in range(c["stack"])])
    P = arr(tonp(ot.utils.proj_SDP(T(c["lib"], S), vmin=c["vmin"])), S.shape)
    rec.nontrivial(n > 1)
    rec.label(c["kind"], c["lib"])
    for s, p in zip(S.reshape(-1, n, n), P.reshape(-1, n, n)):
        sc = 1 + np.abs(s).max() + c["vmin"]
        close(p, p.T, 1e-11 * sc, "projection is not symmetric")
        w = np.linalg.eigvalsh(p)
        leq(c["vmin"], w.min(), 1e-10 * sc * n, "eigenvalue below vmin")
        # <s - p, q - p> <= 0 for q feasible; the supremum over the cone is governed by the normal cone conditions
        D = p - s
        leq(0, np.linalg.eigvalsh(D).min(), 1e-10 * sc * n, "not the nearest matrix (correction not PSD)")
        close((D * (p - c["vmin"] * np.eye(n))).sum(), 0, 1e-9 * sc**2 * n, "not the nearest matrix (complementary slackness)")
    P2 = tonp(ot.utils.proj_SDP(T(c["lib"], P), vmin=c["vmin"]))
    close(P2, P, 1e-9 * (1 + np.abs(P).max()), "projection is not idempotent")
    A = r.randn(n, n)
    Sg, X = A @ A.T, one()
    close(tonp(ot.utils.exp_bures(*T(c["lib"], Sg, X))), (np.eye(n) + X) @ Sg @ (np.eye(n) + X), 1e-9 * (1 + np.abs(X).max()) ** 2 * (1 + np.abs(Sg).max()) * n, "exponential map")
    G = np.abs(A + A.T)
    L = tonp(ot.utils.laplacian(T(c["lib"], G)))
    close(L, np.diag(G.sum(0)) - G, 1e-12 * n, "Laplacian")
    f = r.randn(n)
    close(f @ L @ f, 0.5 * (G * (f[:, None] - f[None]) ** 2).sum(), 1e-9 * n * n, "Laplacian quadratic form")


# ---------------------------------------------------------------- small utilities
@facet(g.record(lib=LIB, n=st.integers(1, 9), m=st.integers(1, 7), start=st.integers(-3, 4), lab=st.sampled_from(["int", "float", "sparse"]), sigma=st.sampled_from([0.3, 1, 2.5]), k=g.seeds), 400, 10000)
def small(c, rec):
    """kernels, histograms, label encodings, circle coordinates, list conversion, matrix chains, parameter pairs"""
    r = g.rng(c["k"], 35)
    lib, n, m = c["lib"], c["n"], c["m"]
    x, y = r.randn(n, 2), r.randn(m, 2)
    rec.nontrivial(n > 1)
    K = tonp(U.kernel(*T(lib, x, y), method=["gaussian", "gauss", "RBF"][c["k"] % 3], sigma=c["sigma"]))
    close(K, np.exp(-ref_dist(x, y, "sqeuclidean", 2, None) / (2 * c["sigma"] ** 2)), 1e-12, "Gaussian kernel")
    for dt in (np.float64, np.float32):
        u = ot.unif(n, type_as=T(lib, np.zeros(2, dt)))
        ensure(tonp(u).dtype == dt and tonp(u).shape == (n,), "unif returns %s", u)
        close(tonp(u), np.full(n, 1 / n), 1e-6 if dt is np.float32 else 1e-15, "uniform histogram")
    close(ot.unif(n), np.full(n, 1 / n), 1e-15, "uniform histogram")
    close(U.dist0(n), (np.arange(n)[:, None] - np.arange(n)[None]) ** 2.0, 1e-9 * n * n, "dist0")
    # labels
    lab = r.randint(0, 4, n) if c["lab"] != "sparse" else r.choice([-7, 0, 3, 100], n)
    if c["lab"] == "float":
        lab = lab.astype(float)
    tl = T(lib, lab)
    z = tonp(U.label_normalization(tl, c["start"]))
    close(z, lab - lab.min() + c["start"], 0, "label normalisation")
    masks = arr(tonp(U.labels_to_masks(tl, type_as=T(lib, np.zeros(1)))), (n, len(set(lab.tolist()))))
    for i, l in enumerate(sorted(set(lab.tolist()))):
        close(masks[:, i], (lab == l).astype(float), 0, "label mask")
    # circle
    th = r.rand(n)
    if c["k"] % 5 == 0:
        th[0] = 0.0
    t = tonp(U.get_coordinate_circle(T(lib, np.stack([np.cos(2 * np.pi * th), np.sin(2 * np.pi * th)], 1) * (1 + r.rand(n, 1)))))
    dlt = np.abs(t - th)
    leq(np.minimum(dlt, 1 - dlt).max(), 0, 1e-12, "circle coordinate")
    leq(0, t.min(), 0, "circle coordinate below 0")
    leq(t.max(), 1, 0, "circle coordinate above 1")
    # clean zeros
    a, b, M = r.rand(n) * (r.rand(n) < 0.6), r.rand(m) * (r.rand(m) < 0.6), r.rand(n, m)
    a2, b2, M2 = U.clean_zeros(a, b, M)
    ia, ib = np.flatnonzero(a), np.flatnonzero(b)
    close(a2, a[ia], 0, "clean_zeros a")
    close(b2, b[ib], 0, "clean_zeros b")
    close(arr(M2, (len(ia), len(ib))), M[np.ix_(ia, ib)], 0, "clean_zeros M")
    # chains, finiteness, lists
    A, B, C = r.randn(n, m), r.randn(m, 3), r.randn(3, 2)
    close(tonp(U.dots(*T(lib, A, B, C))), A @ B @ C, 1e-10, "matrix chain")
    ensure(U.is_all_finite(*T(lib, A, B)), "finite arrays reported as not finite")
    A[r.randint(n), r.randint(m)] = [np.nan, np.inf, -np.inf][c["k"] % 3]
    ensure(not U.is_all_finite(*T(lib, B, A)), "array with nan/inf reported as finite")
    l1, arr1 = U.list_to_array([1.0, 2.0], T(lib, B))
    ensure(type(l1) is type(T(lib, B)), "list converted to %s", type(l1))
    close(tonp(l1), [1, 2], 0, "list conversion")
    e = U.list_to_array([])
    ensure(len(e) == 0, "empty list")
    # pairs
    v = float(r.rand())
    ensure(tuple(U.get_parameter_pair(v)) == (v, v) and tuple(U.get_parameter_pair(3)) == (3, 3), "pair of a scalar")
    ensure(tuple(U.get_parameter_pair((v,))) == (v, v) and tuple(U.get_parameter_pair([v, 2.0])) == (v, 2.0), "pair of a tuple")
    raises(lambda: U.get_parameter_pair([1.0, 2.0, 3.0]), "three parameters accepted", ValueError)
    # random states
    s = int(r.randint(1000))
    ensure((U.check_random_state(s).rand(3) == np.random.RandomState(s).rand(3)).all(), "seed")
    R = np.random.RandomState(s)
    ensure(U.check_random_state(R) is R and U.check_random_state(None) is np.random.mtrand._rand, "random state")
    raises(lambda: U.check_random_state("a"), "string seed accepted", ValueError)
    ensure(U.parmap(lambda q: q + 1, range(n)) == list(range(1, n + 1)), "parmap")
    with contextlib.redirect_stdout(io.StringIO()):
        ensure(U.check_params(a=1, b=0) is True and U.check_params(a=None, b=1) is False, "check_params")
    f = U.fun_to_numpy((lambda q: q * 2 + 1) if lib == "numpy" else _torch_only, T(lib, B), ot.backend.get_backend(T(lib, B)), warn=False)
    close(f(B), B * 2 + 1, 1e-12, "fun_to_numpy")


def _torch_only(q):
    import torch

    if not isinstance(q, torch.Tensor):
        raise TypeError("torch only")
    return q * 2 + 1


@facet(g.record(lib=LIB, n=st.integers(1, 9), m=st.integers(1, 9), norm=st.sampled_from([None, "median", "max", "log", "loglog"]), value=st.sampled_from([None, None, 2.5]), ret=st.booleans(), f32=st.booleans(), k=g.seeds), 200, 5000)
def cost_norm(c, rec):
    """cost_normalization equals its formula and returns the value it used"""
    r = g.rng(c["k"], 36)
    M = r.rand(c["n"], c["m"]) * 10 + 0.01
    if c["f32"]:
        M = M.astype(np.float32)
    out = U.cost_normalization(T(c["lib"], M), c["norm"], return_value=c["ret"], value=c["value"])
    C, v = out if c["ret"] else (out, None)
    C = arr(tonp(C), M.shape)
    ensure(C.dtype == M.dtype, "dtype %s becomes %s", M.dtype, C.dtype)
    R = M.astype(float)
    tol = 1e-5 if c["f32"] else 1e-12
    ref = {"max": R.max(), "median": np.median(R)}.get(c["norm"], 1.0)
    if c["norm"] in ("max", "median"):
        if c["value"] is not None:
            ref = c["value"]
        if c["ret"]:
            close(float(v), ref, tol * 10, "normalisation value")
        R = R / ref
    elif c["norm"] == "log":
        R = np.log(1 + R)
    elif c["norm"] == "loglog":
        R = np.log(1 + np.log(1 + R))
    rec.label(str(c["norm"]), c["lib"])
    rec.nontrivial(R.size > 1)
    close(C, R, tol * (1 + R.max()), "normalised cost (%s)" % c["norm"])
    raises(lambda: U.cost_normalization(T(c["lib"], M), "medain"), "unknown norm accepted", ValueError)


@facet(g.record(lib=LIB, norm=st.sampled_from(["standard", "minmax", "l2"]), n=st.integers(1, 8), m=st.integers(1, 8), d=st.integers(1, 4), mode=st.sampled_from(["one", "list", "fit_transform", "apply", "other"]), const=st.sampled_from([None, 0.1, 3.0, 0.0, 1e6 + 0.1]), k=g.seeds), 400, 10000)
def scaler(c, rec):
    """DataScaler: statistics of the concatenated arrays, constant features and zero rows untouched in scale"""
    r = g.rng(c["k"], 37)
    X, Y = r.randn(c["n"], c["d"]) * 3 + 1, r.randn(c["m"], c["d"])
    j = r.randint(c["d"])
    if c["const"] is not None:
        if c["norm"] == "l2":
            X[r.randint(c["n"])] = 0
        else:
            X[:, j] = Y[:, j] = c["const"]
    lib, norm, mode = c["lib"], c["norm"], c["mode"]
    tx, ty = T(lib, X, Y)
    s = U.DataScaler(norm)
    fitdata = [X, Y] if mode in ("list", "apply") else [X]
    if mode == "fit_transform":
        (ox), _ = quiet(s.fit_transform, tx)
        outs, ins = [ox], [X]
    elif mode == "apply":
        quiet(s.fit, (tx, ty))
        (o, _) = quiet(U.apply_scaler, tx, ty, s)
        outs, ins = list(o), [X, Y]
    elif mode == "list":
        o, _ = quiet(s.fit_transform, [tx, ty])
        ensure(isinstance(o, list) and len(o) == 2, "a list is returned for a list")
        outs, ins = o, [X, Y]
    else:
        quiet(s.fit, tx)
        z = ty if mode == "other" else tx
        o, _ = quiet(s.transform, z)
        outs, ins = [o], [Y if mode == "other" else X]
    F = np.concatenate(fitdata)
    rec.nontrivial(len(F) > 1)
    rec.label(norm, mode, lib, "constant" if c["const"] is not None else "varying")
    ddof = 1 if lib == "torch" else 0
    for o, z in zip(outs, ins):
        o = tonp(o)
        ensure(o.shape == z.shape, "shape %s becomes %s", z.shape, o.shape)
        if norm == "l2":
            nr = np.linalg.norm(z, axis=1, keepdims=True)
            close(o, z / np.where(nr == 0, 1, nr), 1e-10, "row normalisation")
            continue
        for q in range(z.shape[1]):
            f = F[:, q]
            if f.max() == f.min():
                close(o[:, q], z[:, q] - f[0], 1e-9 * (1 + abs(f[0])), "constant feature is only centred")
            elif norm == "minmax":
                close(o[:, q], (z[:, q] - f.min()) / (f.max() - f.min()), 1e-9 / (f.max() - f.min()), "min-max scaling")
            else:
                e = [(z[:, q] - f.mean()) / f.std(ddof=dd) for dd in (0, ddof)]
                ensure(min(np.abs(o[:, q] - t).max() for t in e) <= 1e-8 * (1 + np.abs(e[0]).max()) / min(1, f.std()), "standard scaling of feature %d: %s instead of %s", q, o[:, q], e[0])


# ---------------------------------------------------------------- lazy arrays
KEY = st.one_of(st.integers(-9, 9), st.tuples(st.one_of(st.none(), st.integers(-9, 9)), st.one_of(st.none(), st.integers(-9, 9)), st.sampled_from([None, 1, 2, -1])).map(list))


def mkkey(k, n, lib):
    if isinstance(k, list):
        step = k[2] if lib == "numpy" else (None if k[2] == -1 else k[2])
        return slice(k[0], k[1], step)
    return k % n


@facet(g.record(lib=LIB, n=st.integers(1, 9), m=st.integers(1, 9), rank=st.integers(1, 4), d=st.booleans(), k1=KEY, k2=KEY, form=st.sampled_from(["one", "pair", "single"]), axis=st.sampled_from([None, 0, 1]), bs=st.sampled_from([1, 2, 3, 5, 100]), func=st.sampled_from(["sum", "logsumexp", "max"]), k=g.seeds), 500, 12000)
def lazy(c, rec):
    """indexing and batched reductions of LazyTensor and low-rank LazyTensor equal those of the dense matrix"""
    r = g.rng(c["k"], 38)
    n, m, lib = c["n"], c["m"], c["lib"]
    Q, R, d = r.randn(n, c["rank"]), r.randn(m, c["rank"]), r.rand(c["rank"]) if c["d"] else None
    tQ, tR, td = T(lib, Q, R, d)
    L = U.get_lowrank_lazytensor(tQ, tR, td)
    D = (Q * (1 if d is None else d)) @ R.T
    ensure(tuple(L.shape) == (n, m) and L.ndim == 2, "shape %s", L.shape)
    close(tonp(L[:]), D, 1e-11, "dense content")
    i, j = mkkey(c["k1"], n, lib), mkkey(c["k2"], m, lib)
    key = {"one": i, "pair": (i, j), "single": (i,)}[c["form"]]
    got, want = tonp(L[key]), D[key]
    ensure(got.shape == want.shape, "T[%s] has shape %s instead of %s", key, got.shape, want.shape)
    close(got, want, 1e-11, "T[%s]" % (key,))
    A = r.randn(n, m, 2)
    tA = T(lib, A)
    L3 = U.LazyTensor((n, m, 2), lambda a, b, e, A: A[a, b, e] if not isinstance(a, int) else A[a][b, e] if not isinstance(b, int) else A[a, b, e], A=tA)
    ensure(L3.A is tA and L3.ndim == 3, "attributes of the lazy array")
    close(tonp(L3[key]), A[key], 1e-12, "third-order lazy array")
    raises(lambda: L["a"], "string key accepted", NotImplementedError)
    # reductions
    nx = ot.backend.get_backend(tQ)
    axis, bs, fn = c["axis"], c["bs"], c["func"]
    rec.nontrivial(n > 1 and m > 1 and bs < max(n, m))
    rec.label("axis=%s" % axis, fn, "batched" if bs < max(n, m) else "whole")
    f = {"sum": nx.sum, "logsumexp": nx.logsumexp, "max": nx.max}[fn]
    if axis is None:
        v = U.reduce_lazytensor(L, nx.sum, axis=None, batch_size=bs)
        return close(float(v), D.sum(), 1e-10, "global sum")
    from scipy.special import logsumexp
    ref = {"sum": np.sum, "logsumexp": logsumexp, "max": np.max}[fn](D, axis=axis)
    ff = f if fn != "max" or lib == "numpy" else (lambda z, axis: nx.max(z, axis=axis))
    v = tonp(U.reduce_lazytensor(L, ff, axis=axis, batch_size=bs, nx=nx if c["k"] % 2 else None))
    ensure(v.shape == ref.shape, "shape %s instead of %s", v.shape, ref.shape)
    close(v, ref, 1e-10, "%s along axis %d" % (fn, axis))
    v3 = tonp(U.reduce_lazytensor(L3, nx.sum, axis=axis, batch_size=bs))
    close(v3, A.sum(axis), 1e-10, "sum of a third-order lazy array along axis %d" % axis)


# ---------------------------------------------------------------- datasets and parameters
@facet(g.record(name=st.sampled_from(["3gauss", "3gauss2", "gaussrot", "2gauss_prop", "3GAUSS"]), n=st.integers(3, 60), nz=st.sampled_from([0.0, 0.0, 0.5]), theta=st.sampled_from([0, 0.5, 2.0]), p=st.sampled_from([0.5, 0.2, 0.3, 0.77]), seed=g.seeds, dep=st.booleans()), 300, 6000)
def datasets(c, rec):
    """data sets: documented sizes, class means (exact without noise), reproducible from the seed; 1-D Gaussian histograms"""
    n, nz = c["n"], c["nz"]
    name = c["name"]
    kw = {"random_state": c["seed"]}
    f = ot.datasets.make_data_classif
    if c["dep"]:
        f = ot.datasets.get_data_classif
    if name == "2gauss_prop":
        kw["p"] = c["p"]
    (X, y), _ = quiet(f, name, n, nz=nz, theta=c["theta"], **kw)
    (X2, y2), _ = quiet(f, name, n, nz=nz, theta=c["theta"], **kw)
    rec.nontrivial(True)
    rec.label(name.lower(), "exact" if nz == 0 else "noisy")
    arr(X, (n, 2)), arr(y.astype(float), (n,))
    ensure((X == X2).all() and (y == y2).all(), "same seed, different data")
    key = name.lower()
    if key == "2gauss_prop":
        ensure(set(y) <= {0, 1} and abs((y == 1).sum() - c["p"] * n) < 1 + 1e-9, "class proportions")
        means = {1: [0, -1], 0: [0, 1]}
        means = {l: np.array(v) + [0, 2] for l, v in means.items()}
    elif key == "gaussrot":
        t = c["theta"]
        R = np.array([[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]])
        means = {1: np.array([-1, 1]) @ R, 2: np.array([1, -1]) @ R}
    else:
        s = 1 if key == "3gauss" else 2
        means = {1: np.array([-s, -s]), 2: np.array([-s, s]), 3: np.array([s, 0])}
    ensure(set(y.tolist()) <= set(means), "labels %s", set(y.tolist()))
    if key != "2gauss_prop":
        cnt = np.array([(y == l).sum() for l in means])
        ensure(cnt.max() - cnt.min() <= 1, "unbalanced classes %s", cnt)
    for l, mu in means.items():
        if nz == 0 and (y == l).any():
            close(X[y == l], np.tile(mu, ((y == l).sum(), 1)), 1e-12, "mean of class %d" % l)
    m, s = 0.37 * n, 0.1 * n + 0.3
    h = ot.datasets.make_1D_gauss(n, m, s)
    x = np.arange(n)
    e = np.exp(-((x - m) ** 2) / (2 * s * s))
    close(h, e / e.sum(), 1e-12, "1-D Gaussian histogram")
    r = g.rng(c["seed"], 39)
    A = r.randn(2, 2)
    S = A @ A.T + 0.1 * np.eye(2)
    mu = r.randn(2)
    fn = ot.datasets.get_2D_samples_gauss if c["dep"] else ot.datasets.make_2D_samples_gauss
    Z, _ = quiet(fn, n, mu, S, random_state=c["seed"])
    from scipy.linalg import sqrtm
    close(Z, np.random.RandomState(c["seed"]).randn(n, 2) @ np.real(sqrtm(S)) + mu, 1e-9, "2-D Gaussian samples")
    Z1, _ = quiet(fn, n, mu, 4.0, random_state=c["seed"])
    close(Z1, 2 * np.random.RandomState(c["seed"]).randn(n, 2) + mu, 1e-9, "isotropic Gaussian samples")


EST = ["EMDTransport", "SinkhornTransport", "SinkhornLpl1Transport", "SinkhornL1l2Transport", "EMDLaplaceTransport", "UnbalancedSinkhornTransport", "MappingTransport", "LinearTransport", "JCPOTTransport", "NearestBrenierPotential", "LinearGWTransport"]


@facet(g.record(name=st.sampled_from(EST), k=g.seeds), 100, 1500)
def parameters(c, rec):
    """estimators: get_params returns what the constructor or set_params was given, unknown names are rejected"""
    import inspect

    cls = getattr(ot.da, c["name"])
    e = cls()
    names = [p for p in inspect.signature(cls.__init__).parameters if p != "self"]
    P = e.get_params()
    ensure(sorted(P) == sorted(names), "%s parameters %s instead of %s", c["name"], sorted(P), sorted(names))
    r = g.rng(c["k"], 40)
    pick = [q for q in names if r.rand() < 0.5]
    new = {q: ("v", i, q) for i, q in enumerate(pick)}
    ensure(e.set_params(**new) is e, "set_params returns another object")
    after = e.get_params()
    rec.nontrivial(bool(pick))
    for q in names:
        want = new.get(q, P[q])
        ensure(after[q] is want or after[q] == want, "parameter %s is %s instead of %s", q, after[q], want)
        ensure(getattr(e, q) is want or getattr(e, q) == want, "attribute %s", q)
    raises(lambda: e.set_params(not_a_parameter=1), "unknown parameter accepted", ValueError)
