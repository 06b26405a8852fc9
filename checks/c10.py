"""C10: free-support barycenters are fixed points that improve the objective."""
import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from checks.c07 import run
from core import FACETS, arr, close, coupling, ensure, facet, leq, num

FACETS.clear()
META = {
    "backends": ["torch"],
    "rule": "non-trivial when at least two input measures differ, at least one has >=2 distinct atoms and the support moved",
    "assumptions": ["positive barycenter weights b", "measure weights on the simplex", "monotonicity claimed for squared (generalised) Euclidean costs with the exact ground barycenter; heuristic ground barycenters are only checked for consistency"],
}


@st.composite
def simplex(draw, k):
    if draw(st.booleans()):
        return None
    v = draw(st.lists(st.integers(0, 5), min_size=k, max_size=k))
    if sum(v) == 0:
        v[0] = 1
    return [x / sum(v) for x in v]


@st.composite
def problem(draw, kinds=("gauss", "grid", "dup", "shift"), dmax=3):
    K, n, d = draw(st.integers(1, 4)), draw(st.integers(1, 6)), draw(st.integers(1, dmax))
    ms = [draw(st.integers(1, 7)) for _ in range(K)]
    return dict(Y=[draw(g.x_spec(m, d, kinds)) for m in ms], W=[draw(g.w_spec(m)) for m in ms], X=draw(g.x_spec(n, d, kinds)), b=draw(st.one_of(st.none(), g.w_spec(n, zeros=False))),
                w=draw(simplex(K)), it=draw(st.sampled_from([1, 2, 3, 100])), log=draw(st.booleans()), k=draw(g.seeds), thr=draw(st.sampled_from([1e-7, 1e-12])))


def unpack(c):
    Y, W, X = [g.mk_x(s) for s in c["Y"]], [g.mk_w(s) for s in c["W"]], g.mk_x(c["X"])
    b = None if c["b"] is None else g.mk_w(c["b"])
    B = np.ones(len(X)) / len(X) if b is None else b
    w = np.ones(len(Y)) / len(Y) if c["w"] is None else np.array(c["w"])
    return Y, W, X, b, B, w


def energy(Y, W, X, B, w):
    return sum(w[i] * ref.lp_ot(B, W[i], ref.cost_matrix(X, Y[i]))[0] for i in range(len(Y)) if w[i] > 0)


def scale(Y, X):
    return max(1.0, max(np.abs(y).max() for y in Y) ** 2, np.abs(X).max() ** 2)


def nontriv(rec, Y, X, X2):
    same = all(y.shape == Y[0].shape and np.array_equal(y, Y[0]) for y in Y[1:])
    rec.nontrivial(len(Y) > 1 and not same and any(len(np.unique(y, axis=0)) > 1 for y in Y) and np.abs(X - X2).max() > 1e-9)


@facet(problem(), 500, 15000)
def euclidean(c, rec):
    """free_support_barycenter: shape, exact mean, objective never above that of the start nor of fewer iterations; each step is the weighted barycentric image under the optimal plans; translation equivariance."""
    Y, W, X, b, B, w = unpack(c)
    kw = dict(b=b, weights=c["w"] and w, stopThr=c["thr"])
    out = ot.lp.free_support_barycenter(Y, W, X, numItermax=c["it"], log=c["log"], **kw)
    X2 = arr(out[0] if c["log"] else out, X.shape)
    s = scale(Y, X)
    nontriv(rec, Y, X, X2)
    close(B @ X2, sum(w[i] * W[i] @ Y[i] for i in range(len(Y))), 1e-9 * np.sqrt(s), "mean of the barycenter is not the mean of the means")
    F0, F2 = energy(Y, W, X, B, w), energy(Y, W, X2, B, w)
    leq(F2, F0, 1e-9 * s, "barycenter worse than the initialisation")
    if c["it"] > 1:
        X1 = arr(ot.lp.free_support_barycenter(Y, W, X, numItermax=c["it"] - 1, **kw), X.shape)
        leq(F2, energy(Y, W, X1, B, w), 1e-9 * s, "one more iteration worsens the objective")
    if c["log"]:
        dd = np.array([num(v) for v in out[1]["displacement_square_norms"]])
        ensure(len(dd) <= c["it"] and (len(dd) == c["it"] or dd[-1] <= c["thr"]) and np.all(dd[:-1] > c["thr"]), "displacement log inconsistent with the stopping rule")
        if len(dd) > 1 and dd[-1] <= c["thr"]:
            rec.label("converged")
    # one reference step
    generic = all(k[0] in ("gauss", "shift") for k in c["Y"]) and c["X"][0] in ("gauss", "shift")
    if generic:
        rec.label("reference steps")
        Z, dist = X, []
        for _ in range(c["it"]):
            Z2 = sum(w[i] * ref.lp_ot(B, W[i], ref.cost_matrix(Z, Y[i]))[1] @ Y[i] for i in range(len(Y)) if w[i] > 0) / B[:, None]
            dist.append(np.sum((Z - Z2) ** 2))
            Z = Z2
            if dist[-1] <= c["thr"]:
                break
        # the plan is unique unless two couplings tie; allow that only through an equal objective
        if np.abs(Z - X2).max() > 1e-6 * np.sqrt(s):
            f = energy(Y, W, Z, B, w)
            if c["it"] == 1 or abs(f - F2) > 1e-6 * s:
                u = [tied(B, W[i], ref.cost_matrix(X, Y[i])) for i in range(len(Y))]
                if not any(u) and c["it"] == 1:
                    ensure(False, "one step is not the weighted combination of the barycentric images")
    t = g.rng(c["k"], 41).randn(X.shape[1])
    if generic and c["it"] <= 3:
        X3 = arr(ot.lp.free_support_barycenter([y + t for y in Y], W, X + t, numItermax=c["it"], **kw), X.shape)
        close(energy([y + t for y in Y], W, X3, B, w), F2, 1e-7 * s, "translation changes the barycenter objective")


def tied(a, b, M):
    """Could the optimal plan be non-unique (value unchanged under two tiny random cost perturbations but different plans)?"""
    r = np.random.RandomState(0)
    P1 = ref.lp_ot(a, b, M + 1e-7 * r.rand(*M.shape))[1]
    P2 = ref.lp_ot(a, b, M - 1e-7 * r.rand(*M.shape))[1]
    return np.abs(P1 - P2).max() > 1e-7


@st.composite
def sink(draw):
    c = draw(problem(kinds=("gauss", "shift", "unif"), dmax=2))
    c["W"] = [draw(g.w_spec(s[1], zeros=False, skew=False)) for s in c["Y"]]
    c["b"] = draw(st.one_of(st.none(), g.w_spec(c["X"][1], zeros=False, skew=False)))
    c["rel"] = draw(st.sampled_from([0.3, 1.0]))
    c["method"] = draw(st.sampled_from(["sinkhorn", "sinkhorn_log"]))
    return c


@facet(sink(), 200, 5000)
def entropic(c, rec):
    """free_support_sinkhorn_barycenter: each iterate is the weighted combination of barycentric images under the (unique) entropic plans of the previous one."""
    Y, W, X, b, B, w = unpack(c)
    reg = c["rel"] * max(max(ref.cost_matrix(np.vstack([X] + Y), np.vstack([X] + Y)).max(), 1e-3), 1e-3)
    it = min(c["it"], 3)
    out, bad = run(ot.bregman.free_support_sinkhorn_barycenter, Y, W, X, reg, b=b, weights=c["w"] and w, numItermax=it, stopThr=c["thr"], log=c["log"], method=c["method"], numInnerItermax=5000)
    if bad:
        rec.skip("not converged")
        return
    X2 = arr(out[0] if c["log"] else out, X.shape)
    nontriv(rec, Y, X, X2)
    Z = X
    for _ in range(it):
        Z2 = 0
        for i in range(len(Y)):
            P, _, _, err = ref.gibbs_ot(B, W[i], ref.cost_matrix(Z, Y[i]), reg)
            if err > 1e-9:
                return
            Z2 = Z2 + w[i] * P @ Y[i] / B[:, None]
        dd = np.sum((Z - Z2) ** 2)
        Z = Z2
        if dd <= c["thr"]:
            break
    close(X2, Z, 1e-5 * np.sqrt(scale(Y, X)), "not the barycentric images under the entropic plans")


@st.composite
def gen_(draw):
    K, d, n = draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 5))
    ds = [draw(st.integers(1, 3)) for _ in range(K)]
    ms = [draw(st.integers(1, 6)) for _ in range(K)]
    return dict(d=d, ds=ds, Y=[draw(g.x_spec(m, e, ("gauss", "shift"))) for m, e in zip(ms, ds)], W=[draw(g.w_spec(m)) for m in ms], n=n, b=draw(st.one_of(st.none(), g.w_spec(n, zeros=False))),
                w=draw(simplex(K)), it=draw(st.sampled_from([1, 3, 50])), log=draw(st.booleans()), k=draw(g.seeds), eps=draw(st.sampled_from([0.0, 0.5])))


def proj_energy(Y, W, P, X, B, w):
    return sum(w[i] * ref.lp_ot(B, W[i], ref.cost_matrix(X @ P[i].T, Y[i]))[0] for i in range(len(Y)) if w[i] > 0)


@facet(gen_(), 300, 8000)
def generalized(c, rec):
    """generalized_free_support_barycenter improves sum_i w_i W2^2(x_i, P_i # y) and, at convergence, is stationary for it (normal equations with the optimal plans)."""
    r = g.rng(c["k"], 42)
    Y, W = [g.mk_x(s) for s in c["Y"]], [g.mk_w(s) for s in c["W"]]
    K, d, n = len(Y), c["d"], c["n"]
    P = [r.randn(e, d) for e in c["ds"]]
    w = np.ones(K) / K if c["w"] is None else np.array(c["w"])
    A = sum(w[i] * P[i].T @ P[i] for i in range(K))
    if np.linalg.eigvalsh(A).min() < 1e-2 and c["eps"] == 0:
        rec.skip("singular normal matrix")
        return
    b = None if c["b"] is None else g.mk_w(c["b"])
    B = np.ones(n) / n if b is None else b
    Y0 = r.randn(n, d)
    kw = dict(Y_init=Y0.copy(), b=b, weights=c["w"] and w, numItermax=c["it"], stopThr=1e-14, eps=c["eps"])
    X, lg = ot.lp.generalized_free_support_barycenter(Y, W, P, n, log=True, **kw)
    X = arr(X, (n, d))
    X1 = arr(ot.lp.generalized_free_support_barycenter(Y, W, P, n, **kw), (n, d))
    close(X1, X, 1e-12, "log changes the result")
    # exact: A mean(X) = sum_i w_i P_i^T mean(x_i)
    Ae = A + c["eps"] * np.eye(d)
    s = 1 + sum(np.abs(y).max() ** 2 for y in Y) + np.linalg.norm(np.linalg.inv(Ae), 2) * 10
    m = sum(w[i] * P[i].T @ (W[i] @ Y[i]) for i in range(K))
    close(Ae @ (B @ X), m, 1e-8 * s, "mean of the generalised barycenter")
    rec.nontrivial(K > 1 and n > 1)
    dd = [num(v) for v in lg["displacement_square_norms"]]
    if c["eps"] == 0:
        # the iteration from Y_init (coordinates A^(1/2) y) never worsens the objective
        from scipy.linalg import sqrtm
        start = Y0 @ np.linalg.inv(np.real(sqrtm(A))).T
        leq(proj_energy(Y, W, P, X, B, w), proj_energy(Y, W, P, start, B, w), 1e-7 * s, "generalised barycenter worse than its initialisation")
        if dd[-1] <= 1e-14:
            rec.label("converged")
            T = [ref.lp_ot(B, W[i], ref.cost_matrix(X @ P[i].T, Y[i]))[1] for i in range(K)]
            if not any(tied(B, W[i], ref.cost_matrix(X @ P[i].T, Y[i])) for i in range(K)):
                rhs = sum(w[i] * (T[i] @ Y[i]) @ P[i] for i in range(K)) / B[:, None]
                close(X @ A, rhs, 1e-5 * s / B.min(), "not a fixed point of the generalised barycenter map")


@st.composite
def gc(draw):
    K, d, n = draw(st.integers(1, 3)), draw(st.integers(1, 2)), draw(st.integers(1, 5))
    same = draw(st.booleans())
    ds = [d if same else draw(st.integers(1, 3)) for _ in range(K)]
    ms = [draw(st.integers(1, 5)) for _ in range(K)]
    return dict(d=d, same=same, ds=ds, Y=[draw(g.x_spec(m, e, ("gauss", "shift", "dup"))) for m, e in zip(ms, ds)], W=[draw(g.w_spec(m, zeros=False)) for m in ms], n=n, b=draw(st.one_of(st.none(), g.w_spec(n, zeros=False))),
                it=draw(st.sampled_from([1, 2, 4])), k=draw(g.seeds), method=draw(st.sampled_from(["L2_barycentric_proj", "true_fixed_point"])), clean=draw(st.booleans()), thr=draw(st.sampled_from([1e-5, -1.0])))


@facet(gc(), 350, 8000)
def generic_costs(c, rec):
    """free_support_barycenter_generic_costs with quadratic costs |P_k x - y|^2 and the exact ground barycenter: energies reported are the sum of exact OT costs of the iterates and decrease; outputs form a probability measure of ground barycenters."""
    r = g.rng(c["k"], 43)
    Y, W = [g.mk_x(s) for s in c["Y"]], [g.mk_w(s) for s in c["W"]]
    K, d, n = len(Y), c["d"], c["n"]
    P = [np.eye(d) if c["same"] else r.randn(e, d) for e in c["ds"]]
    A = sum(p.T @ p for p in P)
    if np.linalg.eigvalsh(A).min() < 1e-2:
        rec.skip("singular normal matrix")
        return
    Ai = np.linalg.inv(A)
    b = None if c["b"] is None else g.mk_w(c["b"])
    B = np.ones(n) / n if b is None else b
    X0 = r.randn(n, d)
    costs = [(lambda x, y, p=p: ref.cost_matrix(x @ p.T, y)) for p in P]
    if c["same"] and c["k"] % 2:
        costs = lambda x, y: ref.cost_matrix(x, y)
    bary = lambda ys: sum(ys[k] @ P[k] for k in range(K)) @ Ai.T
    me = c["method"]
    rec.label(me)
    kw = dict(ground_bary=bary, a=b, numItermax=c["it"], method=me, stopThr=c["thr"], clean_measure=c["clean"])
    out = ot.lp.free_support_barycenter_generic_costs(Y, W, X0, costs, log=True, **kw)
    out2 = ot.lp.free_support_barycenter_generic_costs(Y, W, X0, costs, **kw)
    fixed = me == "L2_barycentric_proj"
    X, lg = out[0], out[-1]
    X = arr(X)
    a = B if fixed else arr(out[1], (len(X),))
    ensure(X.ndim == 2 and X.shape[1] == d and (not fixed or len(X) == n), "support has shape %s", X.shape)
    if fixed:
        close(arr(out2), X, 1e-12, "log changes the result")
    else:
        close(arr(out2[0]), X, 1e-12, "log changes the support")
        close(arr(out2[1]), a, 1e-12, "log changes the weights")
        ensure(a.min() > 0, "non-positive weight")
        close(a.sum(), 1, 1e-9, "total mass")
        it = len(lg["V_list"]) - 1
        ensure(len(X) <= n + it * (sum(len(y) for y in Y) - K), "support larger than the documented bound: %d", len(X))
    s = 1 + sum(np.abs(y).max() ** 2 for y in Y) + np.abs(X0).max() ** 2 * sum(np.abs(p).max() ** 2 for p in P) + np.abs(X).max() ** 2 * sum(np.abs(p).max() ** 2 for p in P)
    V = np.array([num(v) for v in lg["V_list"]])
    e = lambda Z, z: proj_energy(Y, W, P, Z, z / z.sum(), np.ones(K))
    close(V[0], e(X0, B), 1e-8 * s, "initial energy is not the sum of OT costs")
    close(V[-1], e(X, a), 1e-8 * s, "final energy is not the sum of OT costs")
    close(num(ot.lp.ot_barycenter_energy(Y, W, X, a / a.sum(), costs)), V[-1], 1e-8 * s, "ot_barycenter_energy")
    leq(np.diff(V), 0, 1e-8 * s, "energy increases")
    close([num(x) for x in lg["diff_list"]], -np.diff(V), 1e-9 * s, "diff_list")
    ensure(len(lg["X_list"]) == len(V), "X_list has %d entries for %d energies", len(lg["X_list"]), len(V))
    stopped = -np.diff(V)[-1] < c["thr"]
    ensure((lg["exit_status"] == "Stationary Point") == bool(stopped) and (stopped or len(V) == c["it"] + 1), "exit status %s", lg["exit_status"])
    rec.nontrivial(K > 1 and n > 1)
    if not fixed:  # every atom is a ground barycenter of one atom per measure
        import itertools
        allb = np.array([bary([Y[k][[j[k]]] for k in range(K)])[0] for j in itertools.product(*[range(len(y)) for y in Y])])
        D = np.abs(X[:, None] - allb[None]).max(-1).min(1)
        close(D, 0, 1e-8 * s, "atom that is not a ground barycenter of one atom per measure")
        if c["clean"] and len(X) > 1:
            q = ((X[:, None] - X[None]) ** 2).sum(-1) + np.eye(len(X))
            ensure(q.min() > 1e-11, "duplicate atoms after cleaning")
        if c["it"] == 1 or len(V) == 2:
            close(a @ X @ A.T, sum((W[k] @ Y[k]) @ P[k] for k in range(K)), 1e-8 * s, "mean of the fixed-point iterate")
    elif len(V) > 1:
        close(B @ X @ A.T, sum((W[k] @ Y[k]) @ P[k] for k in range(K)), 1e-8 * s, "mean of the barycentric projection iterate")


@st.composite
def ad(draw):
    K, d, n = draw(st.integers(1, 3)), draw(st.integers(1, 2)), draw(st.integers(1, 4))
    ms = [draw(st.integers(1, 4)) for _ in range(K)]
    return dict(K=K, d=d, n=n, ms=ms, k=draw(g.seeds), solver=draw(st.sampled_from(["SGD", "Adam"])), it=draw(st.integers(1, 3)))


@facet(ad(), 25, 400, weight=8)
def automatic_ground(c, rec):
    """ground_bary=None (torch): energies are consistent and gradient descent on the cost never worsens the objective."""
    import torch
    r = g.rng(c["k"], 44)
    Y = [torch.tensor(r.randn(m, c["d"])) for m in c["ms"]]
    W = [torch.ones(m, dtype=torch.float64) / m for m in c["ms"]]
    X0 = torch.tensor(r.randn(c["n"], c["d"]) + 1)
    cost = lambda x, y: torch.sum((x[:, None] - y[None]) ** 2, -1)
    X, lg = ot.lp.free_support_barycenter_generic_costs(Y, W, X0, cost, numItermax=c["it"], log=True, ground_bary_solver=c["solver"], ground_bary_lr=1e-2, stopThr=-1.0)
    Xn = arr(X.detach().numpy(), (c["n"], c["d"]))
    B = np.ones(c["n"]) / c["n"]
    Yn, Wn = [y.numpy() for y in Y], [w.numpy() for w in W]
    V = np.array([float(v) for v in lg["V_list"]])
    close(V[-1], energy(Yn, Wn, Xn, B, np.ones(c["K"])), 1e-8, "final energy is not the sum of OT costs", rtol=1e-8)
    close(V[0], energy(Yn, Wn, X0.numpy(), B, np.ones(c["K"])), 1e-8, "initial energy is not the sum of OT costs", rtol=1e-8)
    rec.nontrivial(c["K"] > 1)
    if c["solver"] == "SGD":
        leq(np.diff(V), 0, 1e-6, "gradient descent worsens the objective")


@st.composite
def gl(draw):
    n, K = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    ms = [draw(st.integers(1, 4)) for _ in range(K)]
    return dict(n=n, a=draw(g.w_spec(n)), ms=ms, W=[draw(g.w_spec(m)) for m in ms], M=[draw(g.m_spec(n, m, scale=False)) for m in ms], kind=draw(st.sampled_from(["emd", "outer"])), log=draw(st.booleans()), pass_a=draw(st.booleans()))


@facet(gl(), 500, 15000)
def gluing(c, rec):
    """NorthWestMMGluing: a joint coupling with the given pairwise marginals; (J, w) is its marginal over the atoms."""
    a = g.mk_w(c["a"])
    Ws = [g.mk_w(s) for s in c["W"]]
    Ms = [g.mk_m(s) for s in c["M"]]
    pis = [ot.emd(a, w, M) if c["kind"] == "emd" else np.outer(a, w) for w, M in zip(Ws, Ms)]
    K = len(pis)
    kw = dict(a=a) if c["pass_a"] else {}
    J, w, lg = ot.lp.NorthWestMMGluing([p.copy() for p in pis], log=True, **kw)
    J2, w2 = ot.lp.NorthWestMMGluing(pis, **kw)
    J, w = np.asarray(J), arr(w)
    ensure(J.shape == (len(w), K) and J.dtype.kind == "i", "multi-indices have shape %s for %d weights", J.shape, len(w))
    close(np.asarray(J2), J, 0, "log changes the indices")
    close(w2, w, 0, "log changes the weights")
    G = arr(lg["gamma"], (c["n"], *c["ms"]))
    ensure(G.min() >= 0 and w.min() > 0, "non-positive mass")
    close(w.sum(), a.sum(), 1e-12, "total mass")
    for k in range(K):
        ax = tuple(j for j in range(1, K + 1) if j != k + 1)
        close(G.sum(ax), pis[k], 1e-12, f"pairwise marginal {k}")
    H = np.zeros(c["ms"])
    ensure(len({tuple(j) for j in J}) == len(J), "repeated multi-index")
    for j, x in zip(J, w):
        H[tuple(j)] += x
    close(H, G.sum(0), 1e-12, "(J, w) is not the marginal of gamma")
    rec.nontrivial(K > 1 and np.sum(G > 0) > 1)
