"""C19: Gaussian optimal transport (Bures-Wasserstein distances, maps, barycenters, Gaussian Gromov-Wasserstein)."""
import contextlib
import io

import numpy as np
import ot
import ot.gaussian as og
from hypothesis import strategies as st

import gen as g
from core import arr, close, ensure, facet, leq, num

META = {
    "backends": [],
    "rule": "non-trivial when the dimension is at least 2 and the covariances do not commute (or, for Gromov-Wasserstein, dimensions differ or are at least 2)",
    "assumptions": ["positive-definite covariances with condition number at most about 1e4", "barycenter weights sum to one"],
}


def root(C):
    w, V = np.linalg.eigh(C)
    return (V * np.sqrt(np.maximum(w, 0))) @ V.T


def bw2(A, B):
    """Squared Bures distance through the nuclear norm of A^1/2 B^1/2."""
    return np.trace(A) + np.trace(B) - 2 * np.linalg.svd(root(A) @ root(B), compute_uv=False).sum()


kinds = st.sampled_from(["wishart", "wishart", "diag", "scaled", "ill", "near"])


def mk(kind, d, r, base=None):
    Q = np.linalg.qr(r.randn(d, d))[0]
    if kind == "diag":
        return np.diag(r.rand(d) * 3 + 0.1)
    if kind == "scaled":
        return np.eye(d) * (r.rand() * 2 + 0.2)
    if kind == "ill":
        return (Q * np.logspace(-2, 2, d)) @ Q.T if d > 1 else np.eye(1) * 0.01
    if kind == "near" and base is not None:
        B = r.randn(d, d) * 1e-3
        return base + B @ B.T
    A = r.randn(d, d + 2)
    return A @ A.T / (d + 2) + 0.05 * np.eye(d)


@st.composite
def gauss(draw):
    n, m, d = draw(st.sampled_from([2, 1, 3, 4])), draw(st.sampled_from([2, 3, 1, 4])), draw(st.sampled_from([2, 3, 1, 4, 5]))
    return dict(n=n, m=m, d=d, ks=[draw(kinds) for _ in range(n)], kt=[draw(kinds) for _ in range(m)], k=draw(g.seeds), s=draw(st.sampled_from([1.0, 1.0, 1e-2, 1e2])))


def draw_gauss(c):
    r, d = g.rng(c["k"], 111), c["d"]
    Cs = [mk(k, d, r) for k in c["ks"]]
    Ct = [mk(k, d, r, Cs[i % len(Cs)]) for i, k in enumerate(c["kt"])]
    s = c["s"]
    return r.randn(c["n"], d) * s, r.randn(c["m"], d) * s, np.stack(Cs) * s * s, np.stack(Ct) * s * s, r


def noncommuting(A, B):
    return np.abs(A @ B - B @ A).max() > 1e-3 * np.abs(A).max() * np.abs(B).max()


@facet(gauss(), 1200, 40000)
def distance(c, rec):
    """bures_distance / bures_wasserstein_distance: closed form, batched = paired = single calls, symmetry, zero on itself, triangle inequality."""
    ms, mt, Cs, Ct, r = draw_gauss(c)
    n, m = c["n"], c["m"]
    sc = max(np.trace(Cs, axis1=1, axis2=2).max(), np.trace(Ct, axis1=1, axis2=2).max())
    rec.nontrivial(c["d"] > 1 and noncommuting(Cs[0], Ct[0]))
    rec.label("d=%d" % c["d"], c["ks"][0] + "/" + c["kt"][0])
    R = np.array([[bw2(A, B) for B in Ct] for A in Cs])
    D = ((ms[:, None] - mt[None]) ** 2).sum(-1)
    sc2 = sc + D.max()
    tol = 1e-9
    B = arr(og.bures_distance(Cs, Ct), (n, m))
    W = arr(og.bures_wasserstein_distance(ms, mt, Cs, Ct), (n, m))
    leq(-B, 0, 0, "negative Bures distance")
    leq(-W, 0, 0, "negative distance")
    close(B ** 2, R, tol * sc, "batched Bures distance")
    close(W ** 2, D + R, tol * sc2, "batched Bures-Wasserstein distance")
    B1, lb = og.bures_distance(Cs, Ct, log=True)
    close(B1, B, 1e-12 * np.sqrt(sc), "Bures distance depends on log")
    close(lb["Cs12"] @ lb["Cs12"], Cs, 1e-9 * sc, "recorded square roots")
    W1, lw = og.bures_wasserstein_distance(ms, mt, Cs, Ct, log=True)
    close(W1, W, 1e-12 * np.sqrt(sc2), "distance depends on log")
    close(lw["Cs12"] @ lw["Cs12"], Cs, 1e-9 * sc, "recorded square roots")
    close(arr(og.bures_wasserstein_distance(mt, ms, Ct, Cs), (m, n)).T ** 2, W ** 2, tol * sc2, "asymmetric")
    close(arr(og.bures_wasserstein_distance(ms, ms, Cs, Cs, paired=True), (n,)) ** 2, 0, tol * sc2, "distance to itself")
    k = min(n, m)
    close(arr(og.bures_distance(Cs[:k], Ct[:k], paired=True), (k,)) ** 2, np.diag(R[:k, :k]), tol * sc, "paired Bures distance")
    close(arr(og.bures_wasserstein_distance(ms[:k], mt[:k], Cs[:k], Ct[:k], paired=True), (k,)) ** 2, np.diag((D + R)[:k, :k]), tol * sc2, "paired distance")
    i, j = r.randint(n), r.randint(m)
    close(num(og.bures_distance(Cs[i], Ct[j])) ** 2, R[i, j], tol * sc, "single Bures distance")
    w1 = num(og.bures_wasserstein_distance(ms[i], mt[j], Cs[i], Ct[j]))
    close(w1 ** 2, D[i, j] + R[i, j], tol * sc2, "single distance")
    close(num(og.bures_wasserstein_distance(ms[i], mt[j], Cs[i], Ct[j], log=True)[0]), w1, 1e-12 * np.sqrt(sc2), "single distance depends on log")
    if n > 1:
        ww = num(og.bures_wasserstein_distance(ms[0], ms[1], Cs[0], Cs[1]))
        leq(W[0, 0], ww + W[1, 0], 1e-6 * np.sqrt(sc2), "triangle inequality")
    # congruence with a rotation, translation, scaling
    Q = np.linalg.qr(r.randn(c["d"], c["d"]))[0]
    t = r.randn(c["d"])
    close(num(og.bures_wasserstein_distance(2 * ms[i] @ Q + t, 2 * mt[j] @ Q + t, 4 * Q.T @ Cs[i] @ Q, 4 * Q.T @ Ct[j] @ Q)) ** 2, 4 * w1 ** 2, 1e-8 * sc2, "similarity")
    if num(R[i, j]) > 1e-3 * sc:
        ensure(w1 > 0, "distinct Gaussians at distance zero")


@facet(gauss(), 900, 30000)
def mapping(c, rec):
    """bures_wasserstein_mapping: symmetric positive map, mean to mean, covariance to covariance, cost equal to the squared distance, inverse of the backward map."""
    ms, mt, Cs, Ct, r = draw_gauss(c)
    m0, m1, C0, C1 = ms[:1], mt[:1], Cs[0], Ct[0]
    rec.nontrivial(c["d"] > 1 and noncommuting(C0, C1))
    rec.label("d=%d" % c["d"], c["ks"][0] + "/" + c["kt"][0])
    flat = c["k"] % 2
    x0, x1 = (m0[0], m1[0]) if flat else (m0, m1)
    A, b = og.bures_wasserstein_mapping(x0, x1, C0, C1)
    A, b = arr(A, C0.shape), arr(b, np.shape(x1))
    A1, b1, lg = og.bures_wasserstein_mapping(x0, x1, C0, C1, log=True)
    close(A1, A, 0, "map depends on log")
    close(b1, b, 0, "offset depends on log")
    close(lg["Cs12"] @ lg["Cs12"], C0, 1e-9 * np.abs(C0).max(), "recorded root")
    close(lg["Cs12"] @ lg["Cs12inv"], np.eye(c["d"]), 1e-6, "recorded inverse root")
    cond = np.linalg.cond(C0)
    t = 1e-11 * cond
    close(A, A.T, t * np.abs(A).max(), "map is not symmetric")
    ensure(np.linalg.eigvalsh((A + A.T) / 2).min() > 0, "map is not positive definite")
    close(A.T @ C0 @ A, C1, 10 * t * np.abs(C1).max() * c["d"], "image of the source covariance")
    close(m0 @ A + b, m1, 1e-9 * (np.abs(m1).max() + np.abs(m0).max() * np.abs(A).max() * c["d"]), "image of the source mean")
    cost = ((m0 - m1) ** 2).sum() + np.trace(C0 + C1 - 2 * C0 @ A)
    close(cost, num(og.bures_wasserstein_distance(m0[0], m1[0], C0, C1)) ** 2, (10 * t + 1e-9) * (np.trace(C0) + np.trace(C1) + cost), "cost of the map")
    Bk = og.bures_wasserstein_mapping(x1, x0, C1, C0)[0]
    close(A @ Bk, np.eye(c["d"]), 1e-9 * cond * np.linalg.cond(C1), "maps are not inverse to each other")


@st.composite
def samples(draw, same=True):
    d = draw(st.sampled_from([2, 3, 1, 4]))
    d2 = d if same else draw(st.sampled_from([3, 2, 1, 4]))
    n, m = draw(st.integers(d + 2, 12)), draw(st.integers(d2 + 2, 12))
    return dict(d=d, d2=d2, n=n, m=m, k=draw(g.seeds), w=draw(st.sampled_from(["none", "src", "both", "both", "scaled"])), reg=draw(st.sampled_from([1e-6, 0.1, 0.01, 0, 1.0])), bias=draw(st.sampled_from([True, True, False])))


def moments(X, w, bias=True, reg=0.0):
    w = w[:, 0] / w.sum()
    mu = w @ X if bias else np.zeros(X.shape[1])
    Z = X - mu
    return mu, Z.T @ np.diag(w) @ Z + reg * np.eye(X.shape[1])


def mk_s(c, tag=112):
    r = g.rng(c["k"], tag)
    X, Y = r.randn(c["n"], c["d"]) @ (np.eye(c["d"]) + 0.3 * r.randn(c["d"], c["d"])) + r.randn(c["d"]), r.randn(c["m"], c["d2"]) * 2 + 1
    ws = r.rand(c["n"], 1) + 0.1 if c["w"] != "none" else None
    wt = r.rand(c["m"], 1) + 0.1 if c["w"] in ("both", "scaled") else None
    if c["w"] in ("src", "both"):
        ws = ws / ws.sum()
        wt = wt / wt.sum() if wt is not None else None
    return X, Y, ws, wt, r


@facet(samples(), 700, 20000)
def empirical(c, rec):
    """empirical mapping / distance / barycenter (and LinearTransport-style use) equal the parametric ones at the weighted moments."""
    X, Y, ws, wt, r = mk_s(c)
    kw = dict(reg=c["reg"], bias=c["bias"])
    if ws is not None:
        kw["ws"] = ws.copy()
    if wt is not None:
        kw["wt"] = wt.copy()
    us, ut = ws if ws is not None else np.ones((c["n"], 1)), wt if wt is not None else np.ones((c["m"], 1))
    m0, C0 = moments(X, us, c["bias"], c["reg"])
    m1, C1 = moments(Y, ut, c["bias"], c["reg"])
    cond = max(np.linalg.cond(C0), np.linalg.cond(C1))
    rec.nontrivial(c["d"] > 1 and noncommuting(C0, C1))
    rec.label("weights " + c["w"], "bias %s" % c["bias"], "reg %g" % c["reg"])
    if cond > 1e5:
        rec.skip("ill-conditioned sample covariance")
        return
    sc = np.trace(C0) + np.trace(C1)
    f = og.empirical_bures_wasserstein_mapping
    A, b, lg = f(X.copy(), Y.copy(), log=True, **kw)
    A, b = arr(A, C0.shape), arr(b, (1, c["d"]))
    close(lg["Cs"], C0, 1e-9 * sc, "recorded source covariance")
    close(lg["Ct"], C1, 1e-9 * sc, "recorded target covariance")
    R0 = np.linalg.inv(root(C0))
    Aref = R0 @ root(root(C0) @ C1 @ root(C0)) @ R0
    close(A, Aref, 1e-10 * cond * np.abs(Aref).max(), "map from samples")
    close(b, (m1 - m0 @ Aref)[None], 1e-9 * cond * (np.abs(m1).max() + np.abs(m0).max() * np.abs(Aref).max() * c["d"] + 1e-3), "offset from samples")
    Z = f(X.copy(), Y.copy(), **kw)
    close(Z[0], A, 0, "map depends on log")
    close(Z[1], b, 0, "offset depends on log")
    h = og.empirical_bures_wasserstein_distance
    W, lw = h(X.copy(), Y.copy(), log=True, **kw)
    close(num(W) ** 2, ((m0 - m1) ** 2).sum() + bw2(C0, C1), 1e-9 * (sc + ((m0 - m1) ** 2).sum()), "distance from samples")
    close(lw["Cs"], C0, 1e-9 * sc, "recorded source covariance")
    close(lw["Ct"], C1, 1e-9 * sc, "recorded target covariance")
    close(num(h(X.copy(), Y.copy(), **kw)), num(W), 0, "distance depends on log")
    # integer weights = repeated points
    rep = r.randint(1, 3, c["n"])
    kk = dict(reg=c["reg"], bias=c["bias"])
    close(num(h(np.repeat(X, rep, 0), Y, **kk)), num(h(X, Y, ws=rep[:, None].astype(float), **kk)), 1e-7 * np.sqrt(sc + 1), "repeated points = weights")
    Bs = [X, Y, X[::-1] * 0.5 + 1]
    wb = [us / us.sum(), ut / ut.sum(), us[::-1] / us.sum()]
    p = r.rand(3) + 0.1
    p /= p.sum()
    wp = None if c["k"] % 3 == 0 else p
    with contextlib.redirect_stdout(io.StringIO()):
        args = dict(reg=max(c["reg"], 1e-3), bias=c["bias"], weights=None if wp is None else wp.copy(), w=None if c["w"] == "none" else [w.copy() for w in wb])
        mb, Cb = og.empirical_bures_wasserstein_barycenter([x.copy() for x in Bs], **args)
        mb2, Cb2, _ = og.empirical_bures_wasserstein_barycenter([x.copy() for x in Bs], log=True, **args)
    mom = [moments(x, np.ones((len(x), 1)) if c["w"] == "none" else w, c["bias"], args["reg"]) for x, w in zip(Bs, wb)]
    with contextlib.redirect_stdout(io.StringIO()):
        mr, Cr = og.bures_wasserstein_barycenter(np.stack([m for m, _ in mom]), np.stack([C for _, C in mom]), weights=wp)
    close(mb, mr, 1e-9 * (1 + np.abs(mr).max()), "barycenter mean from samples")
    close(Cb, Cr, 1e-8 * np.abs(Cr).max(), "barycenter covariance from samples")
    close(mb2, mb, 0, "barycenter mean depends on log")
    close(Cb2, Cb, 0, "barycenter covariance depends on log")


@st.composite
def bary(draw):
    k, d = draw(st.sampled_from([3, 2, 4, 1])), draw(st.sampled_from([2, 1, 3, 4]))
    return dict(n=k, m=1, d=d, ks=[draw(st.sampled_from(["wishart", "wishart", "wishart", "diag", "scaled"])) for _ in range(k)], kt=["wishart"], k=draw(g.seeds), s=1.0, w=draw(st.sampled_from(["none", "rand", "rand", "onehot"])),
                method=draw(st.sampled_from(["fixed_point", "fixed_point", "gradient_descent", "gradient_descent", "stochastic_gradient_descent", "averaged_stochastic_gradient_descent"])), same=draw(st.sampled_from([False, False, False, True])), batch=draw(st.sampled_from([None, 1, 2, 5])))


@facet(bary(), 350, 10000)
def barycenter(c, rec):
    """bures_wasserstein_barycenter: weighted mean, fixed-point equation, no better neighbour, permutation invariance, special cases; stochastic methods return valid covariances and keep a common covariance."""
    ms, mt, Cs, Ct, r = draw_gauss(c)
    k, d = c["n"], c["d"]
    if c["same"]:
        Cs = np.stack([Cs[0]] * k)
    w = np.ones(k) / k
    if c["w"] == "rand":
        w = r.rand(k) + 0.05
        w /= w.sum()
    elif c["w"] == "onehot":
        w = np.eye(k)[r.randint(k)]
    sto = "stochastic" in c["method"]
    kw = dict(method=c["method"], num_iter=60 if sto else 1000, eps=1e-9)
    if sto:
        kw["batch_size"] = c["batch"]
    if c["w"] != "none":
        kw["weights"] = w.copy()
    f = og.bures_wasserstein_barycenter
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        np.random.seed(c["k"] % 1000)
        mb, Cb, lg = f(ms.copy(), Cs.copy(), log=True, **kw)
        np.random.seed(c["k"] % 1000)
        Z = f(ms.copy(), Cs.copy(), **kw)
    mb, Cb = arr(mb, (d,)), arr(Cb, (d, d))
    close(Z[0], mb, 0, "mean depends on log")
    close(Z[1], Cb, 0, "covariance depends on log")
    sc = np.abs(Cs).max()
    rec.label(c["method"], "weights " + c["w"], "k=%d" % k)
    rec.nontrivial(k > 1 and d > 1 and not c["same"] and noncommuting(Cs[0], Cs[1]))
    close(mb, w @ ms, 1e-12 * (1 + np.abs(ms).max()), "mean is not the weighted mean")
    close(Cb, Cb.T, 1e-9 * sc, "covariance is not symmetric")
    ensure(np.linalg.eigvalsh(Cb).min() > 0, "covariance is not positive definite")
    ensure(1 <= lg["num_iter"] + 1 <= kw["num_iter"], "number of iterations")
    obj = lambda C: sum(wi * bw2(Ci, C) for wi, Ci in zip(w, Cs))
    if sto:
        if c["same"] or (k == 1):
            close(Cb, Cs[0], 1e-3 * sc, "common covariance is not kept")
        lo, hi = np.linalg.eigvalsh(Cs).min(), np.linalg.eigvalsh(Cs).max()
        ev = np.linalg.eigvalsh(Cb)
        leq(ev.max(), hi, 1e-6 * hi, "covariance exceeds all inputs")
        return
    if c["method"] == "fixed_point" and "not converge" in out.getvalue():
        ensure(num(lg["final_diff"]) > 1e-9, "reports non-convergence although converged")
    ensure(num(lg["final_diff"]) <= 1e-7 * sc, "no convergence in 1000 iterations on well-conditioned covariances")
    R = root(Cb)
    F = sum(wi * root(R @ Ci @ R) for wi, Ci in zip(w, Cs))
    close(F, Cb, 1e-5 * sc, "fixed-point equation")
    v = obj(Cb)
    for e in (0.3, 0.01):
        E = np.eye(d) + e * r.randn(d, d)
        leq(v, obj(E @ Cb @ E.T), 1e-8 * sc * d, "a neighbour is a better barycenter")
    if c["w"] == "onehot" or k == 1 or c["same"]:
        close(Cb, Cs[int(np.argmax(w))], 1e-5 * sc, "barycenter of one covariance")
    if d == 1:
        close(Cb[0, 0], (w @ np.sqrt(Cs[:, 0, 0])) ** 2, 1e-6 * sc, "closed form in dimension one")
    p = r.permutation(k)
    k2 = dict(kw, **({"weights": w[p]} if c["w"] != "none" else {}))
    with contextlib.redirect_stdout(io.StringIO()):
        Y = f(ms[p], Cs[p], **k2)
    close(Y[1], Cb, 1e-5 * sc, "depends on the order of the inputs")
    close(Y[0], mb, 1e-12 * (1 + np.abs(ms).max()), "mean depends on the order of the inputs")


@facet(samples(same=False), 900, 30000)
def gromov(c, rec):
    """Gaussian Gromov-Wasserstein distance and map: closed form, symmetry, rotation invariance, image moments, sign choices, empirical = parametric."""
    X, Y, ws, wt, r = mk_s(c, 113)
    d, e = c["d"], c["d2"]
    kw = {}
    if ws is not None:
        kw["ws"] = ws.copy()
    if wt is not None:
        kw["wt"] = wt.copy()
    m0, C0 = moments(X, ws if ws is not None else np.ones((c["n"], 1)))
    m1, C1 = moments(Y, wt if wt is not None else np.ones((c["m"], 1)))
    l0, l1 = np.sort(np.linalg.eigvalsh(C0))[::-1], np.sort(np.linalg.eigvalsh(C1))[::-1]
    n = max(d, e)
    p0, p1 = np.pad(l0, (0, n - d)), np.pad(l1, (0, n - e))
    sc = (l0.sum() + l1.sum()) ** 2
    want = 4 * (l0.sum() - l1.sum()) ** 2 + 8 * ((p0 - p1) ** 2).sum()
    rec.label("d %s d'" % ("<" if d < e else "=" if d == e else ">"), "weights " + c["w"])
    rec.nontrivial(max(d, e) > 1)
    G = num(og.gaussian_gromov_wasserstein_distance(C0, C1))
    close(G ** 2, want, 1e-9 * sc, "closed form")
    G1, lg = og.gaussian_gromov_wasserstein_distance(C0, C1, log=True)
    close(num(G1), G, 0, "distance depends on log")
    close(num(og.gaussian_gromov_wasserstein_distance(C1, C0)) ** 2, want, 1e-9 * sc, "asymmetric")
    Q = np.linalg.qr(r.randn(d, d))[0]
    C2 = Q @ C0 @ Q.T
    C2 = (C2 + C2.T) / 2
    close(num(og.gaussian_gromov_wasserstein_distance(C2, C1)) ** 2, want, 1e-8 * sc, "not invariant to rotations")
    close(num(og.gaussian_gromov_wasserstein_distance(C2, C0)) ** 2, 0, 1e-12 * sc, "distance to a rotated copy")
    E, le = og.empirical_gaussian_gromov_wasserstein_distance(X.copy(), Y.copy(), log=True, **kw)
    close(num(E) ** 2, want, 1e-9 * sc, "distance from samples")
    close(num(og.empirical_gaussian_gromov_wasserstein_distance(X.copy(), Y.copy(), **kw)), num(E), 0, "distance from samples depends on log")
    close(le["Cov_s"], C0, 1e-9 * sc ** 0.5, "recorded source covariance")
    close(le["Cov_t"], C1, 1e-9 * sc ** 0.5, "recorded target covariance")
    if l0.min() < 1e-6 * l0.max() or l1.min() < 1e-6 * l1.max():
        rec.skip("singular sample covariance")
        return
    k = min(d, e)
    sg = {0: None, 1: r.choice([-1.0, 1.0], k), 2: "skewness"}[c["k"] % 3]
    for name in ("param", "empirical"):
        if name == "param":
            s_ = None if isinstance(sg, str) else sg
            A, b = og.gaussian_gromov_wasserstein_mapping(m0[None], m1[None], C0, C1, sign_eigs=s_)
            A2, b2, lm = og.gaussian_gromov_wasserstein_mapping(m0[None], m1[None], C0, C1, sign_eigs=s_, log=True)
        else:
            A, b = og.empirical_gaussian_gromov_wasserstein_mapping(X.copy(), Y.copy(), sign_eigs=sg, **kw)
            A2, b2, lm = og.empirical_gaussian_gromov_wasserstein_mapping(X.copy(), Y.copy(), sign_eigs=sg, log=True, **kw)
            close(lm["Cov_s"], C0, 1e-9 * sc ** 0.5, "recorded source covariance")
            close(lm["Cov_t"], C1, 1e-9 * sc ** 0.5, "recorded target covariance")
        A, b = arr(A, (d, e)), arr(b, (1, e))
        close(A2, A, 0, name + " map depends on log")
        close(b2, b, 0, name + " offset depends on log")
        close(lm["d_s"], l0, 1e-9 * l0.max(), "recorded source eigenvalues")
        close(lm["d_t"], l1, 1e-9 * l1.max(), "recorded target eigenvalues")
        close(m0[None] @ A + b, m1[None], 1e-9 * (np.abs(m1).max() + np.abs(A).max() * np.abs(m0).max() * d + 1), name + ": image of the source mean")
        u, V = np.linalg.eigh(C1)
        if e > k:
            u = np.where(np.arange(e) >= e - k, u, 0)
        gapok = e <= k or l1[k - 1] - l1[k] > 1e-6 * l1.max()
        if gapok:
            close(A.T @ C0 @ A, (V * u) @ V.T, 1e-7 * l1.max(), name + ": image of the source covariance")
        else:
            close(np.sort(np.linalg.eigvalsh(A.T @ C0 @ A))[::-1], np.where(np.arange(e) < k, l1, 0), 1e-7 * l1.max(), name + ": spectrum of the image covariance")
        U0, U1 = lm["U_s"], lm["U_t"]
        S = np.diag(U0[:, :k].T @ A @ U1[:, :k])
        close(np.abs(S), np.sqrt(l1[:k] / l0[:k]), 1e-7 * np.sqrt(l1.max() / l0.min()), name + ": singular values of the map")
        if sg is None:
            leq(-S, 0, 0, "default signs")
        elif isinstance(sg, np.ndarray):
            close(np.sign(S), sg, 0, name + ": requested signs")
        elif name == "empirical":
            w0 = (ws if ws is not None else np.ones((c["n"], 1)) / c["n"])[:, 0]
            w1 = (wt if wt is not None else np.ones((c["m"], 1)) / c["m"])[:, 0]
            a0, a1 = w0 @ ((X - m0) @ U0[:, :k]) ** 3, w1 @ ((Y - m1) @ U1[:, :k]) ** 3
            ok = (np.abs(a0) > 1e-8) & (np.abs(a1) > 1e-8)
            close(np.sign(S)[ok], np.sign(a0 * a1)[ok], 0, "signs do not match the skewness")
            im = w0 @ ((X @ A + b - m1) @ U1[:, :k]) ** 3
            leq(-(im * a1)[ok], 0, 1e-12 + 1e-9 * np.abs(im * a1).max(), "image and target are skewed in opposite directions")
