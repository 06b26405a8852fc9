"""C23: domain-adaptation estimators."""
import contextlib
import copy
import io
import warnings

import numpy as np
import ot
import ot.da as da
from hypothesis import strategies as st
from scipy.special import logsumexp

import gen as g
import ref
from core import FACETS, arr, close, coupling, ensure, facet, leq, num, settle

FACETS.clear()
META = {
    "backends": [],
    "rule": "non-trivial when both domains have at least three samples and (where labels matter) two classes",
    "assumptions": ["nearest-neighbour out-of-sample rule: ties between training samples are not judged", "group-lasso and Laplacian solvers judged by a duality gap once their loop has converged"],
}
METRICS = ["sqeuclidean", "euclidean", "cityblock"]
NORMS = [None, None, "median", "max", "log", "loglog"]


def weights2(X):
    """A non-uniform distribution estimate that depends on the samples."""
    w = 1.0 + np.abs(np.sin(np.arange(1, X.shape[0] + 1))) * 2
    return w / w.sum()


@st.composite
def data(draw, kind="gauss"):
    return dict(ns=draw(st.integers(3, 8)), nt=draw(st.integers(3, 8)), d=draw(st.integers(1, 3)), k=draw(g.seeds), shift=draw(st.sampled_from([0.0, 1.0, 5.0])), scale=draw(st.sampled_from([1.0, 1.0, 1e-2, 1e2])),
                nc=draw(st.integers(1, 3)), miss=draw(st.integers(0, 3)), base=draw(st.integers(0, 2)))


def mk(c, tag=151):
    r = g.rng(c["k"], tag)
    Xs = r.randn(c["ns"], c["d"]) * c["scale"]
    Xt = (r.randn(c["nt"], c["d"]) + c["shift"]) * c["scale"]
    ys = np.concatenate([np.arange(c["nc"]), r.randint(0, c["nc"], c["ns"] - c["nc"])])[r.permutation(c["ns"])] + c["base"]
    yt = np.concatenate([np.arange(c["nc"]), r.randint(0, c["nc"], c["nt"] - c["nc"])])[r.permutation(c["nt"])] + c["base"]
    return Xs, ys, Xt, yt, r


def normed(M, norm):
    if norm == "median":
        return M / np.median(M)
    if norm == "max":
        return M / M.max()
    if norm == "log":
        return np.log(1 + M)
    if norm == "loglog":
        return np.log(1 + np.log(1 + M))
    return M


KINDS = ["emd", "sink-f", "sink-c", "lpl1", "l1l2", "laplace", "unb"]


@st.composite
def est(draw):
    return dict(kind=draw(st.sampled_from(KINDS)), metric=draw(st.sampled_from(METRICS)), norm=draw(st.sampled_from(NORMS)), w=draw(st.booleans()), reg=draw(g.around([1.0, 0.5], 0.3, 4)), eta=draw(g.around([0.1, 1.0], 0.02, 2)),
                log=draw(st.booleans()), pos=draw(st.sampled_from(["pos", "disp"])), al=draw(g.around([0.5, 0.0, 1.0], 0, 1)), sim=draw(st.sampled_from(["knn", "gauss"])), it=draw(st.sampled_from([3, 10, 30])), limit=draw(st.sampled_from([10, np.inf, 3.0])))


def build(e, sc):
    """the estimator and the functional call it stands for"""
    common = dict(metric=e["metric"], norm=e["norm"], log=e["log"], distribution_estimation=weights2 if e["w"] else da.distribution_estimation_uniform)
    k, reg, eta = e["kind"], e["reg"] * sc, e["eta"] * sc
    if k == "emd":
        return da.EMDTransport(limit_max=e["limit"], **common), lambda a, b, M, D: ot.emd(a, b, M)
    if k in ("sink-f", "sink-c"):
        o = "ferradans" if k == "sink-f" else "continuous"
        return da.SinkhornTransport(reg_e=reg, max_iter=20000, tol=1e-12, out_of_sample_map=o, limit_max=e["limit"], **common), lambda a, b, M, D: ref.gibbs_ot(a, b, M, reg)[0]
    if k == "lpl1":
        return (da.SinkhornLpl1Transport(reg_e=reg, reg_cl=eta, max_iter=e["it"], max_inner_iter=5000, tol=1e-12, limit_max=e["limit"], **common),
                lambda a, b, M, D: lpl1(a, D[1], b, M, reg, eta, e["it"]))
    if k == "l1l2":
        return (da.SinkhornL1l2Transport(reg_e=reg, reg_cl=eta, max_iter=e["it"], max_inner_iter=5000, tol=1e-10, limit_max=e["limit"], **common),
                lambda a, b, M, D: da.sinkhorn_l1l2_gl(a, D[1], b, M, reg, eta, numItermax=e["it"], numInnerItermax=5000, stopInnerThr=1e-10))
    if k == "laplace":
        return (da.EMDLaplaceTransport(reg_type=e["pos"], reg_lap=e["eta"], reg_src=e["al"], similarity=e["sim"], similarity_param=2, max_iter=e["it"], **common),
                lambda a, b, M, D: da.emd_laplace(a, b, D[0], D[2], M, sim=e["sim"], sim_param=2, reg=e["pos"], eta=e["eta"], alpha=e["al"], numItermax=e["it"]))
    return (da.UnbalancedSinkhornTransport(reg_e=reg, reg_m=eta, max_iter=20000, tol=1e-12, limit_max=e["limit"], **common),
            lambda a, b, M, D: ot.unbalanced.sinkhorn_unbalanced(a, b, M, reg, eta, numItermax=20000, stopThr=1e-12))


def lpl1(a, y, b, M, reg, eta, it):
    """documented majorisation-minimisation loop of the lp-l1 regulariser, p = 1/2"""
    W = np.zeros(M.shape)
    for _ in range(it):
        G, _, _, err = ref.gibbs_ot(a, b, M + eta * W, reg)
        for c in np.unique(y):
            W[y == c] = 0.5 * (G[y == c].sum(0) + 1e-3) ** (-0.5)
    return G


def nn(D, tol):
    """indices of the nearest column, -1 on ties"""
    s = np.sort(D, 1)
    i = D.argmin(1)
    if D.shape[1] > 1:
        i = np.where(s[:, 1] - s[:, 0] > tol, i, -1)
    return i


def rows(G):
    s = G.sum(1, keepdims=True)
    return np.where(s > 0, G / np.where(s > 0, s, 1), 0)


def masks(y):
    return (y[:, None] == np.unique(y)[None]).astype(float)


def mscale(e, Xs, Xt):
    M = normed(ref.cost_matrix(Xs, Xt, e["metric"]), e["norm"])
    return M, max(M.max(), 1e-3) if e["norm"] in (None, "log", "loglog") else 1.0


def quiet(f, *a, **k):
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        out = f(*a, **k)
    return out, [str(x.message) for x in w if "converge" in str(x.message) or "rror" in str(x.message)]


@facet(g.record(D=data(), e=est(), nb=st.sampled_from([1, 2, 3, 128]), q=st.integers(1, 6), labels=st.sampled_from([0, 1, 2])), 700, 20000, weight=2)
def estimator(c, rec):
    Xs, ys, Xt, yt, r = mk(c["D"])
    e = c["e"]
    rec.label(e["kind"], "norm-%s" % e["norm"])
    M, sc = mscale(e, Xs, Xt)
    if M.max() < 1e-9:
        return rec.skip("all costs zero")
    t, fun = build(e, sc)
    keep = [x.copy() for x in (Xs, ys, Xt, yt)]
    yfit = None if c["labels"] == 0 else yt.copy()
    if yfit is not None and c["labels"] == 2:
        yfit[r.rand(len(yt)) < 0.5] = -1
    out, bad = quiet(t.fit, Xs, ys, Xt, yfit)
    ensure(out is t, "fit does not return the estimator")
    a, b = (weights2(Xs), weights2(Xt)) if e["w"] else (ot.unif(len(Xs)), ot.unif(len(Xt)))
    close(t.mu_s, a, 1e-15, "source weights")
    close(t.mu_t, b, 1e-15, "target weights")
    cost = M.copy()
    if yfit is not None:
        rec.label("label-aware")
        clash = (ys[:, None] != yfit[None]) & (yfit[None] != -1) & (ys[:, None] != -1)
        lim = e["limit"] * M.max() if np.isfinite(e["limit"]) else np.inf
        want = np.where(clash, np.maximum(M, lim), M)
        got = np.asarray(t.cost_)
        if e["kind"] != "laplace" and clash.any():
            fine = np.isfinite(want)
            if not (np.array_equal(np.isfinite(got), fine) and np.allclose(got[fine], want[fine], rtol=1e-9, atol=1e-12)):
                if np.allclose(got, M, rtol=1e-9, atol=1e-12 * sc):
                    rec.known("label-cost-ignored", "labels given to fit do not change the cost of pairs with different labels")
                else:
                    ensure(False, "cost with label constraints is neither documented nor the plain cost")
            else:
                cost = want
    close(np.where(np.isfinite(t.cost_), t.cost_, 0), np.where(np.isfinite(cost), cost, 0), 1e-9 * max(1.0, M.max()), "cost matrix of the estimator")
    G = arr(t.coupling_, (len(Xs), len(Xt)), what="coupling")
    if bad:
        rec.label("not-converged")
    elif e["kind"] == "emd":
        coupling(G, a, b, 1e-9)
        v, _ = ref.lp_ot(a, b, t.cost_)
        close((G * t.cost_).sum(), v, 1e-8 * max(1, M.max()), "EMD estimator: plan is not optimal")
    elif e["kind"] != "unb":
        coupling(G, a, b, 1e-5)
    if not bad:
        (G2, bad2) = quiet(fun, a, b, np.array(t.cost_), (Xs, ys, Xt))
        if e["kind"] != "emd" and not bad2:
            close(G2, G, 1e-6 if e["kind"] != "laplace" else 1e-9, "coupling of the estimator differs from the function it stands for")
    ensure(isinstance(t.log_, dict), "log_ is not a dictionary")
    rec.nontrivial(M.size >= 9)
    # transforming the training samples
    xsc = max(np.abs(Xs).max(), np.abs(Xt).max(), 1e-12)
    T = rows(G) @ Xt
    Ti = rows(G.T) @ Xs
    cont = e["kind"] == "sink-c"
    tol = (2e-5 if cont else 1e-9) * xsc
    if not (cont and bad):
        close(quiet(t.transform, Xs=Xs)[0], T, tol, "transform of the training samples is not the weighted barycenter of the target")
        close(quiet(t.inverse_transform, Xt=Xt)[0], Ti, tol, "inverse transform of the training samples is not the weighted barycenter of the source")
    # new samples
    q = c["q"]
    Xn = np.vstack([(r.randn(q, Xs.shape[1]) * 2 + c["D"]["shift"] * r.rand()) * c["D"]["scale"], Xs[r.randint(0, len(Xs), 1)]])
    for name, fn, X0, X1, P, P0, lg in (("transform", lambda X, B: t.transform(Xs=X, batch_size=B), Xs, Xt, T, G, "log_v"), ("inverse transform", lambda X, B: t.inverse_transform(Xt=X, batch_size=B), Xt, Xs, Ti, G.T, "log_u")):
        got = arr(quiet(fn, Xn, c["nb"])[0], Xn.shape, what=name)
        ot_ = (1e-6 if cont else 1e-9) * xsc  # Euclidean distances near zero are only accurate to sqrt(eps)
        close(quiet(fn, Xn, 128)[0], got, ot_, name + " of new samples depends on the batch size")
        perm = r.permutation(len(Xn))
        close(quiet(fn, Xn[perm], c["nb"])[0], got[perm], ot_, name + " of new samples depends on their order")
        if cont:
            if e["norm"] in ("median", "max"):
                Mn = ref.cost_matrix(Xn, X1, e["metric"]) / (np.median if e["norm"] == "median" else np.max)(ref.cost_matrix(Xs, Xt, e["metric"]))
            else:
                Mn = normed(ref.cost_matrix(Xn, X1, e["metric"]), e["norm"])
            if not bad:
                z = -Mn / (e["reg"] * sc) + np.asarray(t.log_[lg])[None]
                close(got, np.exp(z - logsumexp(z, axis=1, keepdims=True)) @ X1, ot_, name + " of new samples: entropic map")
        else:
            i = nn(ref.cost_matrix(Xn, X0), 1e-12 * xsc ** 2)
            ok = i >= 0
            close(got[ok], (P[i] + Xn - X0[i])[ok], 1e-9 * xsc, name + " of new samples: displacement of the nearest training sample")
    # labels
    if c["D"]["nc"] > 1 or True:
        close(quiet(t.transform_labels, ys=ys)[0], rows(G.T) @ masks(ys), 1e-9, "label transport")
        close(quiet(t.inverse_transform_labels, yt=yt)[0], rows(G) @ masks(yt), 1e-9, "inverse label transport")
    for x, y, w in zip((Xs, ys, Xt, yt), keep, ("Xs", "ys", "Xt", "yt")):
        ensure(np.array_equal(x, y), "%s was modified", w)


@facet(g.record(D=data(), k=g.seeds, e=est(), ops=st.lists(st.tuples(st.sampled_from(["fit", "fit", "fitl", "tr", "trn", "inv", "invn", "lab", "ilab", "ft"]), st.integers(0, 2)), min_size=2, max_size=9)), 250, 8000, weight=2)
def history(c, rec):
    """any sequence of calls on one estimator equals the same call on a fresh estimator fitted on the current data"""
    e = c["e"]
    sets = []
    for j in range(3):
        D = dict(c["D"], k=c["k"] + j, ns=3 + (c["D"]["ns"] + j) % 6, nt=3 + (c["D"]["nt"] + 2 * j) % 6)
        sets.append(mk(D))
    r = g.rng(c["k"], 152)
    M, sc = mscale(e, sets[0][0], sets[0][2])
    if min(mscale(e, s[0], s[2])[0].max() for s in sets) < 1e-9:
        return rec.skip("all costs zero")
    rec.label(e["kind"])
    new = r.randn(4, c["D"]["d"]) * c["D"]["scale"]
    t = build(e, sc)[0]
    params = dict(t.get_params())
    fitted = None
    fits = 0

    def fresh():
        u = build(e, sc)[0]
        j, lab = fitted
        Xs, ys, Xt, yt, _ = sets[j]
        quiet(u.fit, Xs, ys, Xt, yt if lab else None)
        return u

    for op, j in [("fit", 0)] + list(c["ops"]):
        Xs, ys, Xt, yt, _ = sets[j]
        if op in ("fit", "fitl"):
            quiet(t.fit, Xs, ys, Xt, yt if op == "fitl" else None)
            fitted = (j, op == "fitl")
            fits += 1
            u = fresh()
            close(t.cost_, u.cost_, 0, "cost after a refit differs from a fresh fit")
            close(t.coupling_, u.coupling_, 1e-12, "coupling after a refit differs from a fresh fit")
            continue
        if op == "ft":
            got = quiet(t.fit_transform, Xs, ys, Xt)[0]
            fitted = (j, False)
            fits += 1
            close(got, quiet(fresh().transform, Xs=Xs)[0], 1e-9 * c["D"]["scale"], "fit_transform differs from fit then transform")
            continue
        Xs, ys, Xt, yt, _ = sets[fitted[0]]
        call = {"tr": lambda v: v.transform(Xs=Xs), "trn": lambda v: v.transform(Xs=new), "inv": lambda v: v.inverse_transform(Xt=Xt), "invn": lambda v: v.inverse_transform(Xt=new),
                "lab": lambda v: v.transform_labels(ys=ys), "ilab": lambda v: v.inverse_transform_labels(yt=yt)}[op]
        close(quiet(call, t)[0], quiet(call, fresh())[0], 1e-9 * c["D"]["scale"], "answer of %s depends on the calls made before" % op)
    after = t.get_params()
    for k in params:
        if k in ("log", "method"):
            continue
        ensure(after[k] is params[k] or after[k] == params[k], "hyper-parameter %s changed from %s to %s during fit", k, params[k], after[k])
    rec.nontrivial(fits >= 2 and len(c["ops"]) >= 3)


@facet(g.record(D=data(), reg=g.around([1.0, 0.3], 0.2, 3), far=st.sampled_from([10.0, 50.0, 1e3]), norm=st.sampled_from(NORMS), metric=st.sampled_from(METRICS)), 120, 3000)
def far_samples(c, rec):
    """the entropic out-of-sample map stays in the convex hull of the target, however far the sample is"""
    Xs, ys, Xt, yt, r = mk(dict(c["D"], scale=1.0))
    t = da.SinkhornTransport(reg_e=c["reg"], metric=c["metric"], norm=c["norm"], max_iter=2000, tol=1e-9)
    quiet(t.fit, Xs, None, Xt)
    u = r.randn(3, Xs.shape[1])
    Xn = c["far"] * u / np.linalg.norm(u, axis=1, keepdims=True)
    for name, f, X1 in (("transform", lambda X: t.transform(Xs=X), Xt), ("inverse transform", lambda X: t.inverse_transform(Xt=X), Xs)):
        got = arr(quiet(f, Xn)[0], Xn.shape, what=name + " of a distant sample")
        leq(got, X1.max(0)[None] + 1e-9 * np.ones_like(got), 1e-9, name + " leaves the bounding box")
        leq(X1.min(0)[None] - 1e-9 * np.ones_like(got), got, 1e-9, name + " leaves the bounding box")
    rec.nontrivial(len(Xs) >= 3)


def laps(x, sim, par):
    D = ref.cost_matrix(x, x)
    if sim == "gauss":
        S = np.exp(-D / (2 * par ** 2))
    else:
        k = 3 if par is None else int(par)
        np.fill_diagonal(D, np.inf)
        S = np.zeros(D.shape)
        for i in range(len(x)):
            S[i, np.argsort(D[i], kind="stable")[:k]] = 1
        S = (S + S.T) / 2
    return np.diag(S.sum(0)) - S


@facet(g.record(D=data(), eta=g.around([1.0, 0.1, 5.0], 0.05, 5), al=g.around([0.5, 0.0, 1.0], 0, 1), reg=st.sampled_from(["pos", "disp"]), sim=st.sampled_from(["knn", "gauss"]), par=st.sampled_from([None, 2, 1, 1.5]), w=st.booleans(), metric=st.sampled_from(METRICS)), 250, 8000, weight=2)
def laplacian(c, rec):
    D = dict(c["D"], ns=c["D"]["ns"] + 2, nt=c["D"]["nt"] + 2, scale=1.0)
    Xs, ys, Xt, yt, r = mk(D)
    par = c["par"]
    if c["sim"] == "gauss" and par is None and Xs.shape[1] == 1:
        par = 0.7
    a, b = (weights2(Xs), weights2(Xt)) if c["w"] else (ot.unif(len(Xs)), ot.unif(len(Xt)))
    M = ref.cost_matrix(Xs, Xt, c["metric"])
    width = 1 / (2 * ref.cost_matrix(Xs, Xs).mean() ** 2) if par is None and c["sim"] == "gauss" else par
    LS, LT = laps(Xs, c["sim"], width), laps(Xt, c["sim"], width)
    al, eta = c["al"], c["eta"]
    n, m = M.shape

    def F(G):
        A, B = G @ Xt, G.T @ Xs
        v = al * np.trace(A.T @ LS @ A) + (1 - al) * np.trace(B.T @ LT @ B)
        lin = M
        if c["reg"] == "disp":
            lin = M - 2 * eta * (al / n * LS @ Xs @ Xt.T + (1 - al) / m * Xs @ Xt.T @ LT)
        return (G * lin).sum() + eta * v

    def dF(G):
        lin = M
        if c["reg"] == "disp":
            lin = M - 2 * eta * (al / n * LS @ Xs @ Xt.T + (1 - al) / m * Xs @ Xt.T @ LT)
        return lin + eta * 2 * (al * LS @ G @ Xt @ Xt.T + (1 - al) * Xs @ Xs.T @ G @ LT)

    (G, lg), bad = quiet(da.emd_laplace, a, b, Xs, Xt, M, sim=c["sim"], sim_param=par, reg=c["reg"], eta=eta, alpha=al, numItermax=1000, stopThr=1e-12, stopInnerThr=1e-12, log=True)
    coupling(G, a, b, 1e-8)
    rec.label(c["reg"], c["sim"])
    sc = np.abs(dF(np.outer(a, b))).max() + 1
    close(lg["loss"][-1], F(G), 1e-9 * sc, "recorded objective")
    L = np.array([num(x) for x in lg["loss"]])
    leq(L[1:], L[:-1], 1e-9 * sc, "objective increases")
    leq(F(G), F(np.outer(a, b)), 1e-9 * sc, "result worse than the independent coupling")
    # f is a convex quadratic: the Frank-Wolfe gap bounds the distance to the optimum
    d = dF(G)
    v, _ = ref.lp_ot(a, b, d)
    gap = (d * G).sum() - v
    leq(gap, 0.02 * sc, 0, "Laplacian OT stopped away from the optimum (duality gap %.3g)" % gap)
    rec.nontrivial(n * m >= 9)
    # tiny perturbation towards any vertex does not decrease the objective faster than the gap allows
    if len(L) < 900:
        Gv = ref.lp_ot(a, b, r.rand(n, m))[1]
        for s in (1e-3, 0.1, 1.0):
            leq(F(G) - F((1 - s) * G + s * Gv), gap, 1e-9 * sc, "better coupling than the duality gap allows")


@facet(g.record(D=data(), eta=g.around([0.1, 1.0], 0.02, 2), reg=g.around([1.0, 0.5], 0.3, 3), it=st.sampled_from([1, 2, 5, 10]), w=st.booleans(), str_=st.booleans()), 250, 8000, weight=2)
def group_lasso(c, rec):
    """objective of the l1-l2 group lasso, certified by convexity"""
    Xs, ys, Xt, yt, r = mk(dict(c["D"], scale=1.0))
    a, b = (weights2(Xs), weights2(Xt)) if c["w"] else (ot.unif(len(Xs)), ot.unif(len(Xt)))
    M = ref.cost_matrix(Xs, Xt)
    M = M / max(M.max(), 1e-9)
    reg, eta = c["reg"], c["eta"]
    cl = np.unique(ys)

    def om(G):
        return sum(np.linalg.norm(G[ys == k], axis=0).sum() for k in cl)

    def dom(G):
        W = np.zeros(G.shape)
        for k in cl:
            W[ys == k] = G[ys == k] / np.maximum(np.linalg.norm(G[ys == k], axis=0), 1e-300)[None]
        return W

    def F(G):
        return (G * M).sum() + reg * (np.where(G > 0, G * np.log(np.where(G > 0, G, 1)), 0)).sum() + eta * om(G)

    (G, lg), bad = quiet(da.sinkhorn_l1l2_gl, a, ys, b, M, reg, eta, numItermax=300, numInnerItermax=5000, stopInnerThr=1e-12, log=True)
    if any("onverge" in x for x in bad):
        return rec.skip("inner Sinkhorn did not converge")
    coupling(G, a, b, 1e-6)
    L = np.array([num(x) for x in lg["loss"]])
    close(L[-1], F(G), 1e-7, "recorded objective of the group lasso")
    leq(L[1:], L[:-1], 1e-8, "objective of the group lasso increases")
    # convex: F* >= min_P <M + eta dOm(G), P> + reg KL-entropy(P) since Om is positively homogeneous
    P, _, _, err = ref.gibbs_ot(a, b, M + eta * dom(G), reg)
    low = (P * (M + eta * dom(G))).sum() + reg * (P * np.log(np.maximum(P, 1e-300))).sum()
    leq(low, F(G), 1e-6, "weak duality")
    leq(F(G), low, 2e-2 * (1 + eta), "group lasso stopped away from the optimum")
    rec.label("eta-big" if eta > 0.5 else "eta-small", "classes-%d" % len(cl))
    rec.nontrivial(len(cl) >= 2)
    # class names do not matter
    names = np.array([7, 3, 5, 9, 1])[ys]
    (G2), _ = quiet(da.sinkhorn_l1l2_gl, a, names, b, M, reg, eta, numItermax=300, numInnerItermax=5000, stopInnerThr=1e-12)
    close(G2, G, 1e-9, "group lasso depends on the names of the classes")
    # lp-l1 majorisation-minimisation
    G3, bad3 = quiet(da.sinkhorn_lpl1_mm, a, names, b, M, reg, eta, numItermax=c["it"], numInnerItermax=20000, stopInnerThr=1e-13)
    if not bad3:
        close(G3, lpl1(a, ys, b, M, reg, eta, c["it"]), 1e-7, "lp-l1 solver differs from its majorisation-minimisation loop")
        G4 = quiet(da.sinkhorn_lpl1_mm, a, names, b, M, reg, eta, numItermax=c["it"], numInnerItermax=20000, stopInnerThr=1e-13, log=True)[0][0]
        close(G4, G3, 1e-12, "log changes the result")


@facet(g.record(D=data(), K=st.integers(1, 3), reg=g.around([0.5, 1.0], 0.3, 3), q=st.integers(1, 5), nb=st.sampled_from([1, 2, 128]), it=st.sampled_from([1, 10, 200])), 150, 4000, weight=2)
def jcpot(c, rec):
    r = g.rng(c["D"]["k"], 153)
    nc, d = c["D"]["nc"], c["D"]["d"]
    nc = max(nc, 2)
    Xs, Ys = [], []
    for i in range(c["K"]):
        n = 3 + (c["D"]["ns"] + 2 * i) % 5
        y = np.concatenate([np.arange(nc), r.randint(0, nc, n - nc)])[r.permutation(n)]
        Xs.append(r.randn(n, d) + 2 * y[:, None])
        Ys.append(y)
    Xt = r.randn(c["D"]["nt"], d) + 2 * r.randint(0, nc, c["D"]["nt"])[:, None] + 0.3
    yt = np.concatenate([np.arange(nc), r.randint(0, nc, len(Xt) - nc)])
    # POT expects the classes 0..nc-1
    kw = dict(reg=c["reg"] * 2, numItermax=c["it"], stopThr=1e-13)
    (h, lg), bad = quiet(ot.bregman.jcpot_barycenter, Xs, [y.copy() for y in Ys], Xt, log=True, **kw)
    t = da.JCPOTTransport(reg_e=c["reg"] * 2, max_iter=c["it"], tol=1e-13, log=False)
    u = da.JCPOTTransport(reg_e=c["reg"] * 2, max_iter=c["it"], tol=1e-13, log=True)
    quiet(t.fit, [x.copy() for x in Xs], [y.copy() for y in Ys], Xt)
    quiet(u.fit, Xs, [y.copy() for y in Ys], Xt)
    for v in (t, u):
        close(v.proportions_, h, 1e-9, "proportions of the estimator differ from jcpot_barycenter")
        for i in range(c["K"]):
            close(v.coupling_[i], lg["gamma"][i], 1e-9, "couplings of the estimator differ from jcpot_barycenter")
    xsc = 10.0
    Gs = [np.asarray(x) for x in lg["gamma"]]
    out = t.transform(Xs=Xs)
    ensure(len(out) == c["K"], "transform of the training sets: %s outputs", len(out))
    for i in range(c["K"]):
        close(out[i], rows(Gs[i]) @ Xt, 1e-9 * xsc, "transform of training set")
    Xn = r.randn(c["q"], d) * 3
    allx = np.vstack(Xs)
    allt = np.vstack([rows(G) @ Xt for G in Gs])
    i = nn(ref.cost_matrix(Xn, allx), 1e-12)
    got = arr(t.transform(Xs=Xn, batch_size=c["nb"]), Xn.shape, what="transform of new samples")
    ok = i >= 0
    close(got[ok], (allt[i] + Xn - allx[i])[ok], 1e-9 * xsc, "transform of new samples")
    lab = sum(masks(y).T @ rows(G) for y, G in zip(Ys, Gs)) / c["K"]
    for v in (t, u):
        close(v.transform_labels(ys=[y.copy() for y in Ys]), lab.T, 1e-9, "label transport of JCPOT")
        inv = v.inverse_transform_labels(yt=yt)
        for i in range(c["K"]):
            close(inv[i], rows(Gs[i]) @ masks(yt), 1e-9, "inverse label transport of JCPOT")
    rec.label("K-%d" % c["K"])
    rec.nontrivial(c["K"] >= 2)
