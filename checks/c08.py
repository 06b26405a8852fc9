"""C08: sample-based and low-rank Sinkhorn agree with the matrix version."""
import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from checks.c07 import run
from core import FACETS, arr, close, coupling, ensure, facet, leq, num

FACETS.clear()
META = {
    "backends": ["torch"],
    "rule": "non-trivial when the solver converged, both sides have >=2 distinct samples",
    "assumptions": ["regularisation >= 0.05 times the cost range", "geomloss (annealed) compared at 2% of the cost scale", "low-rank solver: cost not identically zero, compared with itself (factors/value/plan), not with the global optimum (non-convex)"],
}


@st.composite
def case(draw, metrics=("sqeuclidean", "euclidean", "cityblock")):
    n, m, d = draw(g.sizes(1, 8, 25, 0.1)), draw(g.sizes(1, 8, 25, 0.1)), draw(st.integers(1, 3))
    return dict(x=draw(g.x_spec(n, d)), y=draw(g.x_spec(m, d)), a=draw(st.one_of(st.none(), g.w_spec(n, zeros=False))), b=draw(st.one_of(st.none(), g.w_spec(m, zeros=False))),
                rel=draw(st.sampled_from([0.05, 0.2, 0.5, 2.0])), metric=draw(st.sampled_from(list(metrics))), bs=draw(st.sampled_from([1, 2, 3, 7, 100])), bt=draw(st.sampled_from([None, 1, 2, 5, 100])),
                method=draw(st.sampled_from(["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"])), k=draw(g.seeds), warm=draw(st.booleans()), anch=draw(st.integers(2, 14)), rank=draw(st.integers(1, 6)))


def unpack(c):
    X, Y = g.mk_x(c["x"]), g.mk_x(c["y"])
    a = None if c["a"] is None else g.mk_w(c["a"])
    b = None if c["b"] is None else g.mk_w(c["b"])
    A, B = (np.ones(len(X)) / len(X) if a is None else a), (np.ones(len(Y)) / len(Y) if b is None else b)
    M = ref.cost_matrix(X, Y, c["metric"])
    return X, Y, a, b, A, B, M, c["rel"] * max(M.max(), 1e-3)


def nontriv(rec, X, Y):
    rec.nontrivial(len(np.unique(X, axis=0)) > 1 and len(np.unique(Y, axis=0)) > 1)


@facet(case(), 300, 12000, weight=5)
def empirical(c, rec):
    """empirical_sinkhorn(2), dense and lazy with any block size: plan/potentials/value of the explicit-matrix problem."""
    X, Y, a, b, A, B, M, reg = unpack(c)
    rec.label(c["metric"], c["method"])
    P0, f0, g0, err = ref.gibbs_ot(A, B, M, reg)
    if err > 1e-9:
        rec.skip("reference not converged")
        return
    nontriv(rec, X, Y)
    s = max(M.max(), 1e-6)
    kw = dict(metric=c["metric"], numIterMax=5000, stopThr=1e-11)
    (P, lg), bad = run(ot.bregman.empirical_sinkhorn, X, Y, reg, a, b, log=True, method=c["method"], **kw)
    if not bad:
        close(arr(P, M.shape), P0, 1e-6 + (1e-7 / reg if c["metric"] == "euclidean" else 0), "empirical_sinkhorn differs from the matrix problem")
        (v), _ = run(ot.bregman.empirical_sinkhorn2, X, Y, reg, a, b, method=c["method"], **kw)
        close(num(v), (P0 * M).sum(), 1e-6 * s, "empirical_sinkhorn2 is not <P, M>")
        (vl), _ = run(ot.bregman.empirical_sinkhorn2, X, Y, reg, a, b, method=c["method"], log=True, **kw)
        close(num(vl[0]), num(v), 1e-12, "log=True changes the value")
    if M.size > 100 and c["rel"] < 0.2:
        return  # thousands of blockwise iterations
    e = 1e-9 if c["metric"] != "euclidean" else 1e-9 + 1e-7 / reg  # coincident points: distance 0 up to 1e-8
    bs = c["bs"] if c["bt"] is None else (c["bs"], c["bt"])
    ws = (g.rng(c["k"], 3).randn(len(X)), g.rng(c["k"], 4).randn(len(Y))) if c["warm"] else None
    (f, h, ll), bad = run(ot.bregman.empirical_sinkhorn, X, Y, reg, a, b, isLazy=True, batchSize=bs, log=True, warmstart=ws, **kw)
    if bad:
        rec.skip("lazy not converged")
        return
    f, h = arr(f, (len(X),)), arr(h, (len(Y),))
    Q = np.exp(f[:, None] + h[None] - M / reg)
    close(Q, P0, 1e-6 + e, "lazy potentials do not give the entropic plan")
    close(Q.sum(0), B, e, "lazy: target marginal")
    close(Q.sum(1), A, e, "lazy: source marginal")
    T = ll["lazy_plan"]
    close(arr(T[:]), Q, e, "lazy_plan differs from exp(f+g-C/reg)")
    i, j = g.rng(c["k"], 5).randint(len(X)), g.rng(c["k"], 6).randint(len(Y))
    close(np.squeeze(arr(T[i])), np.squeeze(Q[i]), e, "lazy_plan row")
    close(np.squeeze(arr(T[i:, :j + 1])), np.squeeze(Q[i:, :j + 1]), e, "lazy_plan block")
    close(num(T[i, j]), Q[i, j], e, "lazy_plan entry")
    o, _ = run(ot.bregman.empirical_sinkhorn, X, Y, reg, a, b, isLazy=True, batchSize=100, warmstart=ws, **kw)
    close(o[0], f, 10 * e * max(1, np.abs(f).max()), "block size changes the potentials")
    v, _ = run(ot.bregman.empirical_sinkhorn2, X, Y, reg, a, b, isLazy=True, batchSize=bs, **kw)
    close(num(v), (P0 * M).sum(), 1e-6 * s, "lazy empirical_sinkhorn2 is not <P, M>")


@facet(case(), 180, 6000, weight=6)
def divergence(c, rec):
    """empirical_sinkhorn_divergence = max(0, <P,M> - (<Pa,Ma>+<Pb,Mb>)/2), symmetric, zero on itself, logged parts right."""
    X, Y, a, b, A, B, M, reg = unpack(c)
    Ma, Mb = ref.cost_matrix(X, X, c["metric"]), ref.cost_matrix(Y, Y, c["metric"])
    reg = max(reg, max(Ma.max(), Mb.max()) / 20)
    R = [ref.gibbs_ot(A, B, M, reg, 3000), ref.gibbs_ot(A, A, Ma, reg, 3000), ref.gibbs_ot(B, B, Mb, reg, 3000)]
    if max(r[3] for r in R) > 1e-9:
        rec.skip("reference not converged")
        return
    nontriv(rec, X, Y)
    parts = [float((r[0] * K).sum()) for r, K in zip(R, (M, Ma, Mb))]
    s = max(M.max(), Ma.max(), Mb.max(), 1e-6)
    kw = dict(metric=c["metric"], numIterMax=2000, stopThr=1e-10, method=c["method"])
    D = ot.bregman.empirical_sinkhorn_divergence
    ws = (g.rng(c["k"], 3).randn(len(X)) * 0.1, g.rng(c["k"], 4).randn(len(Y)) * 0.1) if c["warm"] else None
    if ws is not None and c["method"] == "sinkhorn_stabilized":
        ws = (ws[0] * reg, ws[1] * reg)
    (v, lg), bad = run(D, X, Y, reg, a, b, log=True, warmstart=ws, **kw)
    if bad:
        rec.skip("not converged")
        return
    for k, p in zip(("ab", "a", "b"), parts):
        close(num(lg["sinkhorn_loss_" + k]), p, 2e-6 * s, f"loss_{k}")
    close(num(v), max(0, parts[0] - (parts[1] + parts[2]) / 2), 1e-5 * s, "divergence is not the debiased combination")
    ensure(num(v) >= 0, "negative divergence")
    (w), _ = run(D, X, Y, reg, a, b, **kw)
    close(num(w), num(v), 1e-5 * s, "log/warm start changes the value")
    (w), _ = run(D, Y, X, reg, b, a, **kw)
    close(num(w), num(v), 1e-5 * s, "divergence is not symmetric")
    q = g.rng(c["k"], 8).permutation(len(X))
    (w), _ = run(D, X, X[q], reg, a, None if a is None else a[q], **kw)
    close(num(w), 0, 1e-5 * s, "divergence between identical measures")


@facet(case(metrics=("sqeuclidean",)), 400, 15000)
def nystroem(c, rec):
    """Nystroem factors reproduce the kernel on the anchors (everywhere with enough anchors); low-rank Sinkhorn plan = diag(u) K1 K2' diag(v) with the right marginals; nystroem2 = <P, M>."""
    X, Y, a, b, A, B, M, reg = unpack(c)
    n, m = M.shape
    K = np.exp(-M / reg)
    full = c["anch"] >= 10
    anch = 2 * max(n, m) if full else c["anch"]
    anch = max(2, anch)
    L, R = ot.lowrank.kernel_nystroem(X, Y, anchors=anch, sigma=np.sqrt(reg / 2), random_state=c["k"])
    ns, nt = min(n, anch // 2), min(m, anch // 2)
    Kh = arr(L, (n, ns + nt)) @ arr(R, (m, ns + nt)).T
    D = np.abs(Kh - K)
    tol = 1e-5
    Z = np.concatenate([X, Y])
    cond = np.linalg.eigvalsh(np.exp(-ref.cost_matrix(Z, Z) / reg)).min() > 1e-7
    rec.label("well-conditioned" if cond else "ill-conditioned")
    ensure(not cond or (D.max(1) < tol).sum() >= ns, "fewer than %d source rows are reproduced", ns)
    ensure(not cond or (D.max(0) < tol).sum() >= nt, "fewer than %d target columns are reproduced", nt)
    if full:
        rec.label("full anchors")
    L2, _ = ot.lowrank.kernel_nystroem(X, Y, anchors=anch, sigma=np.sqrt(reg / 2), random_state=c["k"])
    close(L2, L, 0, "not a function of the seed")
    if Kh.min() <= 1e-8:
        rec.skip("approximate kernel not positive")
        return
    ws = (0.1 * g.rng(c["k"], 3).randn(n), 0.1 * g.rng(c["k"], 4).randn(m)) if c["warm"] else None
    (P, lg), bad = run(ot.bregman.empirical_sinkhorn_nystroem, X, Y, reg, anch, a, b, numItermax=5000, stopThr=1e-10, log=True, random_state=c["k"], warmstart=ws)
    if bad:
        rec.skip("not converged")
        return
    nontriv(rec, X, Y)
    u, v = arr(lg["u"], (n,)), arr(lg["v"], (m,))
    P = arr(P[:], (n, m))
    Q = u[:, None] * (lg["left_factor"] @ lg["right_factor"].T) * v[None]
    close(P, Q, 1e-9, "lazy plan differs from diag(u) K1 K2' diag(v)")
    close(lg["left_factor"], L, 0, "left factor")
    close(P.sum(1), A, 1e-8, "source marginal")
    close(P.sum(0), B, 1e-8, "target marginal")
    (w, l2), _ = run(ot.bregman.empirical_sinkhorn_nystroem2, X, Y, reg, anch, a, b, numItermax=5000, stopThr=1e-10, log=True, random_state=c["k"], warmstart=ws)
    close(num(w), (P * M).sum(), 1e-7 * max(1, (X ** 2).sum(1).max(), (Y ** 2).sum(1).max()), "nystroem2 is not <P, M>")
    (w2), _ = run(ot.bregman.empirical_sinkhorn_nystroem2, X, Y, reg, anch, a, b, numItermax=5000, stopThr=1e-10, random_state=c["k"], warmstart=ws)
    close(num(w2), num(w), 1e-12, "log=True changes the value", rtol=1e-12)
    if full and cond:
        P0, _, _, err = ref.gibbs_ot(A, B, M, reg)
        if err < 1e-9:
            close(P, P0, 1e-4, "full anchors differ from Sinkhorn")
    # generic factors
    r = g.rng(c["k"], 9)
    K1, K2 = r.rand(n, c["rank"]) + 0.1, r.rand(m, c["rank"]) + 0.1
    (u, v, lg), bad = run(ot.lowrank.sinkhorn_low_rank_kernel, K1, K2, a, b, log=True, stopThr=1e-11, numItermax=5000)
    ensure(not bad, "low-rank kernel Sinkhorn reports no convergence for a positive kernel")
    P = u[:, None] * (K1 @ K2.T) * v[None]
    close(P.sum(1), A, 1e-9, "low-rank kernel: source marginal")
    close(P.sum(0), B, 1e-9, "low-rank kernel: target marginal")
    close(arr(lg["lazy_plan"][:]), P, 1e-9, "low-rank kernel: lazy plan")


@facet(case(metrics=("sqeuclidean",)), 120, 4000, weight=12)
def lowrank(c, rec):
    """lowrank_sinkhorn: Q, R, g non-negative with marginals (a, g), (b, g); lazy plan = Q diag(1/g) R' with marginals a, b; value_linear = <plan, cost>; value adds the entropies."""
    X, Y, a, b, A, B, M, _ = unpack(c)
    n, m = M.shape
    r = min(c["rank"], n, m)
    reg = c["rel"] if c["warm"] else 0.0
    resc = bool(c["bs"] % 2)
    init = ["random", "deterministic", "kmeans"][c["anch"] % 3]
    if init == "kmeans" and (len(np.unique(X, axis=0)) < r or len(np.unique(Y, axis=0)) < r or M.max() < 1e-9):
        init = "random"
    rec.label(init, "rank:%d" % r)
    if M.max() < 1e-6:
        rec.skip("all costs zero: the step size 10/|cost|^2 is undefined")
        return
    (Q, R, gg, lg), bad = run(ot.lowrank.lowrank_sinkhorn, X, Y, a, b, reg=reg, rank=c["rank"], rescale_cost=resc, init=init, log=True, seed_init=c["k"])
    if bad:
        rec.skip("not converged")
        return
    Q, R, gg = arr(Q, (n, r)), arr(R, (m, r)), arr(gg, (r,))
    nontriv(rec, X, Y)
    ensure(Q.min() >= 0 and R.min() >= 0 and gg.min() >= 0, "negative factor")
    tol = 1e-6
    close(Q.sum(1), A, tol, "Q 1 = a")
    close(R.sum(1), B, tol, "R 1 = b")
    close(Q.sum(0), gg, tol, "Q' 1 = g")
    close(R.sum(0), gg, tol, "R' 1 = g")
    P = Q @ np.diag(1 / gg) @ R.T
    close(arr(lg["lazy_plan"][:]), P, 1e-9, "lazy plan differs from Q diag(1/g) R'")
    s1, s2 = 1.0, 1.0
    if resc:
        s1 = np.sqrt(max((X ** 2).sum(1).max(), 1.0, (-2 * X).max()))
        s2 = np.sqrt(max((Y ** 2).sum(1).max(), 1.0, Y.max()))
    C = M / (s1 * s2)
    s = max(1.0, (X ** 2).sum(1).max(), (Y ** 2).sum(1).max()) / (s1 * s2)
    close(num(lg["value_linear"]), (P * C).sum(), 1e-6 * s, "value_linear is not the cost of the returned plan")
    ent = sum(ref.entropy(Z) for Z in (Q, R, gg))
    close(num(lg["value"]), num(lg["value_linear"]) + reg * ent, 1e-6 * s + 1e-9, "value is not value_linear + reg * entropies")
    if r == 1:
        close(P, np.outer(A, B), 1e-6, "rank one plan is the product")


@facet(case(metrics=("sqeuclidean", "euclidean")), 40, 600, weight=20)
def geomloss(c, rec):
    """geomloss wrapper: value = entropic objective (KL form), plan from its potentials = the entropic plan (annealing tolerance); debiased value = divergence."""
    X, Y, a, b, A, B, M, _ = unpack(c)
    D = np.concatenate([X, Y])
    if np.ptp(D, axis=0).max() < 1e-3:
        rec.skip("all points equal (geomloss needs a positive diameter)")
        return
    scale = max(((D[:, None] - D[None]) ** 2).sum(-1).max() if c["metric"] == "sqeuclidean" else np.sqrt(((D[:, None] - D[None]) ** 2).sum(-1)).max(), 1e-2)
    reg = max(c["rel"], 0.2) * scale
    E = lambda p, q, K: (lambda P: (P * K).sum() + reg * ref.kl(P, np.outer(p, q)))(ref.gibbs_ot(p, q, K, reg)[0])
    out, lg = ot.bregman.empirical_sinkhorn2_geomloss(X, Y, reg, A, B, metric=c["metric"], scaling=0.99, log=True, backend="tensorized")
    nontriv(rec, X, Y)
    P = arr(lg["lazy_plan"][:]).reshape(M.shape)
    P0 = ref.gibbs_ot(A, B, M, reg)[0]
    close(P, P0, 2e-2, "plan")
    v = E(A, B, M)
    close(num(out), v, 2e-2 * scale, "value")
    d = ot.bregman.empirical_sinkhorn2_geomloss(X, Y, reg, A, B, metric=c["metric"], debias=True, scaling=0.99, backend="tensorized")
    w = v - 0.5 * E(A, A, ref.cost_matrix(X, X, c["metric"])) - 0.5 * E(B, B, ref.cost_matrix(Y, Y, c["metric"]))
    close(num(d), w, 2e-2 * scale, "debiased value")


def kl_project(e1, e2, e3, A, B, iters=20000):
    """own KL projection of (e1, e2, e3) on the low-rank couplings (bound on g inactive), by cyclic Bregman projections"""
    Q, R, gg = e1.copy(), e2.copy(), e3.copy()
    for i in range(iters):
        Q *= (A / Q.sum(1))[:, None]
        R *= (B / R.sum(1))[:, None]
        q, r = Q.sum(0), R.sum(0)
        gg = (q * r * gg) ** (1 / 3)
        Q, R = Q * (gg / q), R * (gg / r)
        if max(np.abs(Q.sum(1) - A).max(), np.abs(R.sum(1) - B).max()) < 1e-14:
            return Q, R, gg
    return None


@facet(st.fixed_dictionaries(dict(n=st.integers(2, 6), m=st.integers(2, 6), d=st.integers(1, 3), k=g.seeds, init=st.sampled_from(["random", "deterministic"]), reg=st.sampled_from([0.0, 0.1, 1.0]), scale=st.sampled_from([0.3, 1.0]), frac=st.sampled_from([0.5, 0.9]))), 60, 1500, weight=6)
def lowrank_steps(c, rec):
    """with the step size of the theory, lowrank_sinkhorn is a hundred documented mirror-descent steps (recomputed with an own projection) from its start."""
    r = g.rng(c["k"], 81)
    n, m = c["n"], c["m"]
    k = min(n, m, 2 + c["k"] % 2)
    X, Y = r.randn(n, c["d"]) * c["scale"], r.randn(m, c["d"]) * c["scale"] + 0.3
    A, B = r.dirichlet(np.ones(n) * 3) + 0.02, r.dirichlet(np.ones(m) * 3) + 0.02
    A, B = A / A.sum(), B / B.sum()
    nx = ot.backend.NumpyBackend()
    Q, R, gg = ot.lowrank._init_lr_sinkhorn(X, Y, A, B, k, c["init"], 0.1, c["k"], nx=nx)
    alpha = min(c["frac"] * gg.min(), 0.99 / k)
    M1, M2 = ot.lowrank.compute_lr_sqeuclidean_matrix(X, Y, False, nx)
    C = ot.dist(X, Y)
    close(M1 @ M2.T, C, 1e-9 * (1 + C.max()), "low-rank cost")
    nC = np.linalg.norm(M1) * np.linalg.norm(M2)
    gam = 0.5 / np.sqrt(6 / alpha ** 4 * nC ** 2 + (c["reg"] + 2 / alpha ** 3 * nC) ** 2)
    (q, s, h), bad = run(ot.lowrank.lowrank_sinkhorn, X, Y, A, B, reg=c["reg"], rank=k, alpha=alpha, rescale_cost=False, init=c["init"], seed_init=c["k"], gamma_init="theory", stopThr=1e-13, numItermax=20000)
    if bad:
        rec.skip("not converged")
        return
    Q0, R0, g0 = Q.copy(), R.copy(), gg.copy()
    for i in range(100):
        w = np.diag(Q.T @ C @ R)
        out = kl_project(np.exp(-gam * (C @ R) / gg) * Q ** (1 - gam * c["reg"]), np.exp(-gam * (C.T @ Q) / gg) * R ** (1 - gam * c["reg"]), np.exp(gam * w / gg ** 2) * gg ** (1 - gam * c["reg"]), A, B)
        if out is None or out[2].min() < alpha * 1.0001:
            rec.skip("the lower bound of the weights is active")
            return
        Q, R, gg = out
    d = max(np.abs(Q - Q0).max(), np.abs(R - R0).max(), np.abs(gg - g0).max())
    rec.nontrivial(d > 1e-5)
    for x, y, nm in ((q, Q, "Q"), (s, R, "R"), (h, gg, "g")):
        close(x, y, 1e-7 + 1e-3 * d, f"low-rank Sinkhorn: {nm} after its steps")
