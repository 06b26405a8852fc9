"""C24: estimation of transport maps."""
import contextlib
import io
import warnings

import numpy as np
import ot
import ot.da as da
import ot.mapping as mp
from hypothesis import strategies as st

import gen as g
import ref
from core import FACETS, arr, close, coupling, ensure, facet, leq, num, settle
from checks.c23 import nn, quiet, rows, weights2

FACETS.clear()
META = {
    "backends": [],
    "rule": "non-trivial when both sample sets have at least three points (Brenier potentials: three points, two of which are constrained together)",
    "assumptions": ["interior-point accuracy 1e-5 for the Brenier potentials (the conic solver's own tolerance)"],
}


@st.composite
def data(draw, dmax=3):
    return dict(n=draw(st.integers(1, 9)), m=draw(st.integers(1, 9)), d=draw(st.integers(1, dmax)), k=draw(g.seeds), shift=draw(st.sampled_from([0.0, 1.0, 4.0])), rank=draw(st.sampled_from(["full", "full", "dup", "flat"])))


def mk(c, tag=161):
    r = g.rng(c["k"], tag)
    X = r.randn(c["n"], c["d"])
    A = r.randn(c["d"], c["d"]) / np.sqrt(c["d"])
    Y = r.randn(c["m"], c["d"]) @ A + c["shift"]
    if c["rank"] == "dup" and c["n"] > 1:
        X[-1] = X[0]
    if c["rank"] == "flat" and c["d"] > 1:
        X[:, -1] = 0
    return X, Y, r


@facet(g.record(D=data(), mu=g.around([1.0, 0.1, 10.0], 0.05, 10), eta=g.around([1e-3, 1.0, 0.1], 1e-3, 5), bias=st.booleans(), kern=st.booleans(), sigma=g.around([1.0, 2.0], 0.5, 3), it=st.sampled_from([0, 1, 5, 30]), inner=st.sampled_from([1, 10, 50])), 500, 15000, weight=2)
def joint(c, rec):
    X, Y, r = mk(c["D"])
    n, m, d = len(X), len(Y), X.shape[1]
    mu, eta, bias = c["mu"], c["eta"], c["bias"]
    if c["kern"] and c["D"]["rank"] == "dup":
        eta = max(eta, 1e-2)
    if c["kern"] and bias and np.linalg.cond(np.exp(-ref.cost_matrix(X, X) / (2 * c["sigma"] ** 2))) > 1e7:
        return rec.skip("singular kernel matrix: the ridge solution with a bias is not unique")
    kw = dict(mu=mu, eta=eta, bias=bias, numItermax=c["it"], numInnerItermax=c["inner"], stopThr=1e-8, stopInnerThr=1e-9)
    if c["kern"]:
        (G, L, lg), bad = quiet(mp.joint_OT_mapping_kernel, X, Y, sigma=c["sigma"], log=True, **kw)
        K = np.exp(-ref.cost_matrix(X, X) / (2 * c["sigma"] ** 2))
    else:
        (G, L, lg), bad = quiet(mp.joint_OT_mapping_linear, X, Y, log=True, **kw)
        K = X
    K1 = np.hstack([K, np.ones((n, 1))]) if bias else K
    p = K1.shape[1]
    rec.label("kernel" if c["kern"] else "linear", "bias" if bias else "no-bias", c["D"]["rank"])
    G = arr(G, (n, m), what="coupling")
    L = arr(L, (p, d), what="map")
    coupling(G, np.ones(n) / n, np.ones(m) / m, 1e-9)
    M = ref.cost_matrix(X, Y) * n
    if c["kern"]:
        R = np.eye(p)
        R[:n, :n] = K
        L0 = np.zeros((p, d))
    else:
        R = np.eye(p)
        if bias:
            R[-1, -1] = 0
        L0 = np.eye(p, d)

    def loss(L, G):
        return ((K1 @ L - n * G @ Y) ** 2).sum() + mu * (G * M).sum() + eta * np.trace((L - L0).T @ R @ (L - L0))

    sc = max(abs(loss(L, G)), abs(loss(L0, G)), 1e-6)
    V = np.array([num(x) for x in lg["loss"]])
    close(V[-1], loss(L, G), 1e-7 * sc, "recorded objective")
    leq(V[1:], V[:-1], 1e-7 * sc, "objective increases")
    # exact ridge solution for the returned coupling
    gr = K1.T @ (K1 @ L - n * G @ Y) + eta * R @ (L - L0)
    close(gr, np.zeros_like(gr), 1e-6 * (1 + np.abs(K1).max() * np.abs(Y).max() * n) * max(1, np.abs(L).max()), "map is not the ridge solution of the coupling")
    # first iterate: optimal transport of the raw cost
    (f, F1) = (mp.joint_OT_mapping_kernel, dict(sigma=c["sigma"])) if c["kern"] else (mp.joint_OT_mapping_linear, {})
    (G0, Lz, lz), _ = quiet(f, X, Y, log=True, **dict(kw, numItermax=0), **F1)
    close((G0 * M).sum(), ref.lp_ot(np.ones(n) / n, np.ones(m) / m, M)[0], 1e-8 * max(1, M.max()), "initial coupling is not optimal")
    close(lz["loss"][0], V[0], 1e-9 * sc, "initial objective")
    ensure(len(V) <= c["it"] + 1, "%s objective values for %s iterations", len(V), c["it"])
    rec.nontrivial(n >= 3 and m >= 3)
    # without log: same answer
    (G2, L2), _ = quiet(f, X, Y, **kw, **F1)
    close(G2, G, 1e-12, "log changes the coupling")
    close(L2, L, 1e-9 * max(1, np.abs(L).max()), "log changes the map")
    # coupling step: stationary in G for the map it was computed from, at convergence
    if c["it"] == 30 and c["inner"] == 50 and len(V) < 31:
        d_ = mu * M - 2 * n * (K1 @ L - n * G @ Y) @ Y.T
        v, Gv = ref.lp_ot(np.ones(n) / n, np.ones(m) / m, d_)
        gap = (d_ * G).sum() - v
        # the decrease available by an exact line search towards the vertex, keeping the map
        curv = ((n * (Gv - G) @ Y) ** 2).sum()
        gain = 0.0 if gap < 1e-9 * sc else gap if curv < gap / 2 else gap ** 2 / (4 * curv)
        leq(gain, 2e-2 * sc, 0, "coupling is not stationary for the joint objective (gain %.3g of %.3g)" % (gain, sc))
    # estimator
    t = da.MappingTransport(mu=mu, eta=eta, bias=bias, kernel="gaussian" if c["kern"] else "linear", sigma=c["sigma"], max_iter=c["it"], tol=1e-8, max_inner_iter=c["inner"], inner_tol=1e-9, log=bool(c["D"]["k"] % 2))
    quiet(t.fit, Xs=X, Xt=Y)
    close(t.coupling_, G, 1e-9, "estimator coupling differs from the function")
    close(t.mapping_, L, 1e-7 * max(1, np.abs(L).max()), "estimator map differs from the function")
    close(t.transform(X), n * G @ Y, 1e-8 * max(1, np.abs(Y).max()), "transform of the training samples is not the barycentric image")
    Z = r.randn(4, d) * 2
    KZ = np.exp(-ref.cost_matrix(Z, X) / (2 * c["sigma"] ** 2)) if c["kern"] else Z
    KZ = np.hstack([KZ, np.ones((4, 1))]) if bias else KZ
    close(t.transform(Z), KZ @ L, 1e-7 * max(1, np.abs(L).max()) * n, "transform of new samples is not the estimated map")


@facet(g.record(D=data(), bias=st.booleans(), w=st.booleans(), reg=st.sampled_from([1e-8, 1e-4, 0.1]), dt=st.integers(1, 3), gw=st.booleans(), log=st.booleans()), 500, 15000)
def gaussian(c, rec):
    """linear transport: moments are pushed forward, the inverse undoes the map"""
    D = dict(c["D"], n=c["D"]["n"] + 3 + c["D"]["d"], m=c["D"]["m"] + 3 + c["D"]["d"], rank="full")
    X, Y, r = mk(D)
    de = weights2 if c["w"] else da.distribution_estimation_uniform
    a, b = de(X), de(Y)
    Z = r.randn(4, X.shape[1]) * 3
    keep = X.copy(), Y.copy()

    def mom(X, w, centre=True):
        mu = w @ X if centre else np.zeros(X.shape[1])
        return mu, (X - mu).T @ ((X - mu) * w[:, None])

    if not c["gw"]:
        t = da.LinearTransport(reg=c["reg"], bias=c["bias"], log=c["log"], distribution_estimation=de)
        quiet(t.fit, Xs=X, Xt=Y)
        ms, Cs = mom(X, a, c["bias"])
        mt, Ct = mom(Y, b, c["bias"])
        I = np.eye(X.shape[1])
        A, B = arr(t.A_, I.shape, what="A"), arr(t.B_, what="B").reshape(-1)
        cond = max(np.linalg.cond(Cs + c["reg"] * I), np.linalg.cond(Ct + c["reg"] * I))
        if cond > 1e8:
            return rec.skip("nearly singular covariance")
        rec.label("bures")
        close(A, A.T, 1e-7 * np.abs(A).max(), "linear part is not symmetric")
        leq(-np.linalg.eigvalsh((A + A.T) / 2).min(), 0, 1e-7 * np.abs(A).max(), "linear part is not positive")
        close(A.T @ (Cs + c["reg"] * I) @ A, Ct + c["reg"] * I, 1e-6 * np.sqrt(cond) * np.abs(Ct).max(), "covariance is not pushed to the target covariance")
        T = t.transform(Xs=X)
        if c["bias"]:
            close(a @ T, mt, 1e-7 * max(1, np.abs(mt).max()), "mean is not pushed to the target mean")
        else:
            close(B, 0 * B, 0, "bias without bias")
        tr = lambda Z: t.transform(Xs=Z)
        inv = lambda Z: t.inverse_transform(Xt=Z)
        for bs in (1, 2, 128):
            close(t.transform(Xs=Z, batch_size=bs), Z @ A + B, 1e-8 * max(1, np.abs(A).max()) * 10, "transform is not the affine map")
        close(inv(tr(Z)), Z, 1e-6 * cond ** 0.5 * 10, "inverse transform does not undo transform")
        close(tr(inv(Z)), Z, 1e-6 * cond ** 0.5 * 10, "transform does not undo inverse transform")
        # the reverse problem has the inverse map
        u = da.LinearTransport(reg=c["reg"], bias=c["bias"], distribution_estimation=de)
        quiet(u.fit, Xs=Y, Xt=X)
        close(u.transform(Xs=Z), inv(Z), 1e-5 * cond ** 0.5 * 10 * (1 + np.abs(np.linalg.inv(A)).max()), "map of the reverse problem is not the inverse map")
    else:
        Y = r.randn(len(Y), c["dt"]) @ r.randn(c["dt"], c["dt"]) + c["D"]["shift"]
        keep = X.copy(), Y.copy()
        b = de(Y)
        t = da.LinearGWTransport(log=c["log"], distribution_estimation=de)
        quiet(t.fit, Xs=X, Xt=Y)
        ms, Cs = mom(X, a)
        mt, Ct = mom(Y, b)
        ds, dt = X.shape[1], c["dt"]
        T = arr(t.transform(Xs=X), (len(X), dt), what="transform")
        es, et = np.sort(np.linalg.eigvalsh(Cs))[::-1], np.sort(np.linalg.eigvalsh(Ct))[::-1]
        if es[-1] < 1e-6 * es[0] or et[-1] < 1e-6 * et[0]:
            return rec.skip("nearly singular covariance")
        rec.label("gromov-%s" % ("square" if ds == dt else "reduce" if ds > dt else "lift"))
        close(a @ T, mt, 1e-8 * max(1, np.abs(mt).max()), "Gromov map: mean is not pushed to the target mean")
        mT, CT = mom(T, a)
        k = min(ds, dt)
        w, U = np.linalg.eigh(Ct)
        U = U[:, ::-1][:, :k]
        if np.min(np.abs(np.diff(et)), initial=1.0) > 1e-4:
            close(CT, U * et[:k] @ U.T, 1e-6 * et[0], "Gromov map: covariance is not the target covariance restricted to the leading directions")
        Ti = arr(t.inverse_transform(Xt=Y), (len(Y), ds), what="inverse transform")
        close(b @ Ti, ms, 1e-8 * max(1, np.abs(ms).max()), "Gromov inverse map: mean is not pushed to the source mean")
        if ds == dt and np.min(np.abs(np.diff(es)), initial=1.0) > 1e-4 and np.min(np.abs(np.diff(et)), initial=1.0) > 1e-4:
            cond = np.sqrt(max(es[0] / es[-1], et[0] / et[-1]))
            close(t.inverse_transform(Xt=t.transform(Xs=Z)), Z, 1e-6 * cond * 10, "Gromov inverse map does not undo the map")
    ensure(np.array_equal(keep[0], X) and np.array_equal(keep[1], Y), "samples were modified")
    rec.nontrivial(X.shape[1] >= 2)


def consts(l, L):
    c = 1 / (2 * (1 - l / L))
    return c / L, l * c, 2 * l * c / L


def inter(phi, G, X, l, L):
    """slack[i, j] of phi_i >= phi_j + <G_j, x_i - x_j> + interpolation terms"""
    c1, c2, c3 = consts(l, L)
    dx = X[:, None] - X[None]
    dg = G[:, None] - G[None]
    return phi[:, None] - phi[None] - np.einsum("jd,ijd->ij", G, dx) - c1 * (dg ** 2).sum(-1) - c2 * (dx ** 2).sum(-1) + c3 * (dg * dx).sum(-1)


@facet(g.record(n=st.integers(1, 5), d=st.integers(1, 2), k=g.seeds, l=g.around([0.6, 0.2], 0.05, 1.0), r=g.around([2.33, 1.2], 1.1, 6), nc=st.integers(1, 2), its=st.integers(1, 3), init=st.sampled_from(["barycentric", "target"]), w=st.booleans(), q=st.integers(1, 2), cls=st.booleans(), log=st.booleans(), true=st.booleans()), 50, 1500, weight=2)
def brenier(c, rec):
    r = g.rng(c["k"], 162)
    n, d, l = c["n"], c["d"], c["l"]
    L = l * c["r"]
    X = r.randn(n, d)
    V = r.randn(n, d) * 1.5 + 0.5
    y = r.randint(0, c["nc"], n) * 3 + 1
    a = g.mk_w(dict(kind="rand", n=n, k=c["k"])) if False else (r.rand(n) + 0.2)
    a = a / a.sum() if c["w"] else np.ones(n) / n
    b = r.rand(n) + 0.2
    b = b / b.sum() if c["w"] else np.ones(n) / n
    if c["true"]:
        # the target is the image of the source by the gradient of an admissible potential
        Q = np.linalg.qr(r.randn(d, d))[0]
        ev = l + (L - l) * (0.1 + 0.8 * r.rand(d))
        V = X @ (Q * ev @ Q.T) + r.randn(d)
        b = a.copy()
    kw = dict(strongly_convex_constant=l, gradient_lipschitz_constant=L)
    cls = y if c["cls"] else None
    (phi, G, lg), bad = quiet(mp.nearest_brenier_potential_fit, X, V, X_classes=cls, a=a, b=b, its=c["its"], log=True, init_method=c["init"], **kw)
    phi, G = arr(phi, (n,), what="phi"), arr(G, (n, d), what="G")
    if any(x["status"] != "optimal" for x in lg["its"]):
        return rec.skip("conic solver reports " + str([x["status"] for x in lg["its"]]))
    sc = max(1, np.abs(V).max(), np.abs(X).max()) ** 2 * max(1, L)
    lab = y if c["cls"] else np.zeros(n)
    same = lab[:, None] == lab[None]
    S = inter(phi, G, X, l, L)
    tol = 1e-5 * sc * (1 + consts(l, L)[0])
    leq(-S[same], 0 * S[same], tol, "strong convexity and smoothness interpolation inequalities fail")
    # consequences: gradients are l-strongly monotone and L-Lipschitz inside a class
    dx = ((X[:, None] - X[None]) ** 2).sum(-1)
    dg = ((G[:, None] - G[None]) ** 2).sum(-1)
    ip = ((X[:, None] - X[None]) * (G[:, None] - G[None])).sum(-1)
    leq((l * dx - ip)[same], 0 * dx[same], 10 * tol, "gradients are not strongly monotone")
    leq((np.sqrt(dg) - L * np.sqrt(dx))[same], 0 * dx[same], 20 * np.sqrt(tol), "gradients are not Lipschitz")
    # objective: recorded values, decreasing; optimal for the coupling
    vals = [x["value"] for x in lg["its"]]
    Gp = V if c["init"] == "target" else ref.lp_ot(a, b, ref.cost_matrix(X, V))[1] @ V / a[:, None]
    plan_vals = []
    for it, Gi in enumerate(lg["G_list"]):
        v0 = ref.lp_ot(a, b, ref.cost_matrix(Gp, V))[0]
        leq(vals[it], (v0 if it else np.inf), 10 * tol, "objective increases")
        leq(ref.lp_ot(a, b, ref.cost_matrix(Gi, V))[0], vals[it], 10 * tol, "coupling step increases the objective")
        # translations are free: the weighted means must agree within every class
        Gp = Gi
    close(lg["G_list"][-1], G, 1e-12, "returned gradient is not the last iterate")
    if not c["cls"] or len(np.unique(lab)) == 1:
        close(a @ G, b @ V, 20 * tol, "translation of the gradients would lower the objective")
    if c["true"] and not c["cls"]:
        close(G, V, 30 * np.sqrt(tol), "an admissible target map is not recovered")
    if c["its"] == 1:
        # convex problem for a fixed plan: no admissible direction decreases the objective
        base = V if c["init"] == "target" else ref.lp_ot(a, b, ref.cost_matrix(X, V))[1] @ V / a[:, None]
        P = np.asarray(ot.emd(a, b, ot.dist(base, V)))
        F = lambda G: (P * ref.cost_matrix(G, V)).sum()
        close(vals[0], F(G), 10 * tol, "recorded objective")
        for h in (l, L, (l + L) / 2):
            for cen in (np.zeros(d), b @ V - h * (a @ X)):
                H = h * X + cen
                for s in (0.01, 0.1, 1.0):
                    leq(F(G), F((1 - s) * G + s * H), 20 * tol, "an admissible gradient is better")
    # prediction
    Z = np.vstack([X[:1], r.randn(c["q"], d)])
    zy = None if cls is None else np.concatenate([y[:1], y[r.randint(0, n, c["q"])]])
    (pl, Gl, plog), _ = quiet(mp.nearest_brenier_potential_predict_bounds, X, phi, G, Z, X_classes=cls, Y_classes=zy, log=True, **kw)
    pl, Gl = arr(pl, (2, len(Z)), what="bounds"), arr(Gl, (2, len(Z), d), what="gradients of the bounds")
    if any(plog[i][s]["status"] != "optimal" for i in plog for s in "lu"):
        return rec.skip("conic solver not optimal in prediction")
    c1, c2, c3 = consts(l, L)
    btol = 100 * tol
    leq(pl[0], pl[1], btol, "lower bound exceeds the upper bound")
    close(pl[:, 0], [phi[0], phi[0]], btol, "bounds at a training point do not equal the potential")
    for i in range(len(Z)):
        idx = np.arange(n) if zy is None else np.where(y == zy[i])[0]
        z = Z[i]

        def low(h):
            return max(phi[j] + G[j] @ (z - X[j]) + c1 * ((h - G[j]) ** 2).sum() + c2 * ((z - X[j]) ** 2).sum() - c3 * (G[j] - h) @ (X[j] - z) for j in idx)

        def up(h):
            return min(phi[j] - h @ (X[j] - z) - c1 * ((h - G[j]) ** 2).sum() - c2 * ((z - X[j]) ** 2).sum() + c3 * (h - G[j]) @ (z - X[j]) for j in idx)

        close(pl[0, i], low(Gl[0, i]), btol, "lower bound is not attained by its gradient")
        close(pl[1, i], up(Gl[1, i]), btol, "upper bound is not attained by its gradient")
        for s in (1e-2, 0.3, 2.0):
            h = r.randn(d) * s
            leq(pl[0, i], low(Gl[0, i] + h), btol, "lower bound is not minimal")
            leq(up(Gl[1, i] + h), pl[1, i], btol, "upper bound is not maximal")
    t = da.NearestBrenierPotential(strongly_convex_constant=l, gradient_lipschitz_constant=L, its=c["its"], log=c["log"])
    if not c["w"] and c["init"] == "barycentric":
        quiet(t.fit, Xs=X, ys=cls, Xt=V)
        close(t.G, G, 10 * np.sqrt(tol), "estimator differs from the function")
        close(quiet(t.transform, Z, ys=zy)[0], Gl, 0.05 + 10 * np.sqrt(btol), "estimator predictions differ from the function")
    rec.label("true-map" if c["true"] else "free", "classes" if c["cls"] else "one-class", c["init"])
    rec.nontrivial(n >= 3 and same.sum() > n)


@facet(g.record(l=g.around([0.6, 1.0], 0.01, 3), L=g.around([0.6, 1.4], 0.01, 4)), 30, 200)
def constants(c, rec):
    """the regularity constants must be ordered"""
    X = np.array([[0.0], [1.0]])
    kw = dict(strongly_convex_constant=c["l"], gradient_lipschitz_constant=c["L"])
    if c["l"] >= c["L"]:
        for f in (lambda: mp.nearest_brenier_potential_fit(X, X, its=1, **kw), lambda: mp.nearest_brenier_potential_predict_bounds(X, np.zeros(2), X, X, **kw)):
            try:
                quiet(f)
            except (AssertionError, ValueError):
                continue
            ensure(False, "incompatible constants %s accepted", kw)
        rec.label("incompatible")
    else:
        c1, c2, c3 = mp._ssnb_qcqp_constants(c["l"], c["L"])
        close([c1, c2, c3], consts(c["l"], c["L"]), 1e-9 * (1 + c1 + c2 + c3), "interpolation constants")
        rec.label("compatible")
    rec.nontrivial(True)
