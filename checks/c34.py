"""C34: dimension reduction, operator distances and graph layers match their objectives."""
import contextlib
import io
import warnings

import numpy as np
import ot
import ot.dr
import ot.sgot
from hypothesis import strategies as st
from scipy.linalg import eigh

import gen as g
import ref
from core import FACETS, close, ensure, facet, leq
from checks.c23 import quiet

FACETS.clear()
META = {
    "backends": ["torch"],
    "rule": "non-trivial with at least two classes, atoms, graphs or directions to tell apart",
    "assumptions": ["fused Gromov-Wasserstein is non-convex: the layers are compared with the library's own solver on each graph and template", "descent of projection-robust Wasserstein is required for small steps only"],
}
T = None


def setup():
    global T
    import torch

    T = torch
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import ot.gnn  # noqa


def mute(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return quiet(f, *a, **k)[0]


def orthonormal(P, d, k, what):
    P = np.asarray(P)
    ensure(P.shape == (d, k), f"{what}: shape {P.shape} instead of {(d, k)}")
    close(P.T @ P, np.eye(k), 1e-7, f"{what}: columns are not orthonormal")


def labelled(c):
    r = g.rng(c["k"], 341)
    nc, d = c["nc"], c["d"]
    y = np.concatenate([np.full(r.randint(2, 9), i) for i in range(nc)])
    mu = r.randn(nc, d) * c["sep"]
    X = mu[y] + r.randn(len(y), d) * r.uniform(0.3, 2, d) + r.randn(d) * 3
    o = r.permutation(len(y))
    lab = np.array([3, -1, 7, 12, 5])[:nc]
    return r, X[o], lab[y[o]]


LAB = dict(nc=st.integers(2, 4), d=st.integers(2, 5), sep=st.sampled_from([0.5, 1.0, 3.0]), p=st.integers(1, 4), k=g.seeds)


@facet(st.fixed_dictionaries(dict(LAB, reg=st.sampled_from([1e-16, 1e-6, 0.1, 1.0]))), quick=250, thorough=6000)
def fda(c, rec):
    """Fisher discriminant directions are the leading generalised eigenvectors of the scatter matrices."""
    r, X, y = labelled(c)
    nc, d = c["nc"], c["d"]
    X0 = X.copy()
    P, proj = mute(ot.dr.fda, X, y, c["p"], c["reg"])
    ensure(np.array_equal(X, X0), "fda modified its input")
    p = min(nc - 1, c["p"])
    xs = [X[y == u] for u in np.unique(y)]
    Cw = sum(np.cov(x, rowvar=False).reshape(d, d) for x in xs) / nc + c["reg"] * np.eye(d)
    if np.linalg.cond(Cw) > 1e6:
        rec.skip("ill-conditioned within-class scatter")
        return
    m = np.array([x.mean(0) for x in xs])
    m = m - m.mean(0)
    Cb = m.T @ m
    p = min(p, d)
    ensure(P.shape == (d, p), f"fda: shape {P.shape}")
    rec.nontrivial(True)
    P = np.asarray(P)
    ensure(np.isrealobj(P) or np.abs(P.imag).max() == 0, "complex directions")
    P = P.real
    w = eigh(Cb, Cw, eigvals_only=True)[::-1]
    # the trace of (P'CwP)^-1 P'CbP is maximal over p-dimensional subspaces iff it equals the sum of the leading eigenvalues
    best = w[:p].sum()
    got = np.trace(np.linalg.solve(P.T @ Cw @ P, P.T @ Cb @ P))
    close(got, best, 1e-6 * (1 + best), "fda: the directions do not maximise the Fisher ratio")
    Z = r.randn(4, d)
    close(proj(Z), (Z - X.mean(0)) @ P, 1e-9 * (1 + np.abs(P).max() * np.abs(X).max()), "fda: projector")


def dist2(x, y):
    return ((x[:, None] - y[None]) ** 2).sum(2)


def wloss(P, xs, reg, k, R):
    w = b = 0.0
    for i in range(len(xs)):
        for j in range(i, len(xs)):
            M = dist2(xs[i] @ P, xs[j] @ P)
            G = ot.dr.sinkhorn_log(np.full(len(xs[i]), 1 / len(xs[i])), np.full(len(xs[j]), 1 / len(xs[j])), M, reg * R[i][j], k)
            if i == j:
                w += (G * M).sum()
            else:
                b += (G * M).sum()
    return w / b


@facet(st.fixed_dictionaries(dict(LAB, reg=st.sampled_from([1.0, 3.0, 10.0]), it=st.sampled_from([3, 10]), normalize=st.booleans(), method=st.sampled_from(["sinkhorn", "sinkhorn_log"]), solver=st.sampled_from([None, None, "tr"]), iters=st.sampled_from([1, 8]))), quick=20, thorough=400)
def wda(c, rec):
    """Wasserstein discriminant analysis returns a Stiefel point at least as good as its start, and its projector."""
    r, X, y = labelled(c)
    d = c["d"]
    p = min(c["p"], d)
    X = X / X.std()
    P0 = np.linalg.qr(r.randn(d, p))[0]
    X0, P00 = X.copy(), P0.copy()
    try:
        P, proj = mute(ot.dr.wda, X, y, p, reg=c["reg"], k=c["it"], solver=c["solver"], sinkhorn_method=c["method"], maxiter=c["iters"], P0=P0, normalize=c["normalize"])
    except ValueError as e:
        if "SVD" in str(e) or "infs or NaNs" in str(e):
            rec.skip("solver")
            return
        raise
    ensure(np.array_equal(X, X0) and np.array_equal(P0, P00), "wda modified its input")
    orthonormal(P, d, p, "wda")
    Z = r.randn(3, d)
    close(proj(Z), (Z - X.mean(0)) @ P, 1e-9 * (1 + np.abs(X).max()), "wda: projector")
    xs = [(X - X.mean(0))[y == u] for u in np.unique(y)]
    R = [[dist2(a @ P0, b @ P0).mean() if c["normalize"] else 1.0 for b in xs] for a in xs]
    a, b = wloss(P, xs, c["reg"], c["it"], R), wloss(P0, xs, c["reg"], c["it"], R)
    rec.nontrivial(abs(a - b) > 1e-3 * b)
    leq(a, b, 1e-5 * (1 + b), "wda: worse than its start")


def clouds(c):
    r = g.rng(c["k"], 342)
    n, m, d = c["n"], c["m"], c["d"]
    X, Y = r.randn(n, d), r.randn(m, d) * r.uniform(0.3, 1.5, d) + r.randn(d)
    s = np.sqrt((X**2).sum(1).mean() + (Y**2).sum(1).mean())
    X, Y = X / s * c["scale"], Y / s * c["scale"]
    if c["uniform"]:
        a, b = np.full(n, 1 / n), np.full(m, 1 / m)
    else:
        a, b = r.dirichlet(np.ones(n) * 3), r.dirichlet(np.ones(m) * 3)
        a, b = np.maximum(a, 1e-3), np.maximum(b, 1e-3)
        a, b = a / a.sum(), b / b.sum()
    return r, X, Y, a, b


@facet(st.fixed_dictionaries(dict(n=st.integers(1, 9), m=st.integers(1, 9), d=st.integers(2, 5), kk=st.integers(1, 4), scale=st.sampled_from([0.5, 1.0, 2.0]), uniform=st.booleans(), reg=st.sampled_from([0.2, 1.0, 3.0]), tau=st.sampled_from([0.005, 0.02, 0.2]), start=st.booleans(), it=st.sampled_from([1, 5, 100]), k=g.seeds)), quick=200, thorough=5000)
def prw(c, rec):
    """Projection-robust Wasserstein: orthonormal projection, a plan of the right mass, ascent, reproducibility."""
    r, X, Y, a, b = clouds(c)
    d, reg, tau = c["d"], c["reg"], c["tau"]
    k = min(c["kk"], d - 1)
    U0 = np.linalg.qr(r.randn(d, k))[0] if c["start"] else None
    U00 = None if U0 is None else U0.copy()
    tau = tau * reg  # gradient of the objective is divided by reg
    call = lambda: mute(ot.dr.projection_robust_wasserstein, X, Y, a, b, tau, U0=U0, reg=reg, k=k, maxiter=c["it"], stopThr=1e-7, random_state=c["k"] % 2**31)
    pi, U = call()
    orthonormal(U, d, k, "prw")
    if U0 is not None:
        ensure(np.array_equal(U0, U00), "prw modified its start")
    pi2, U2 = call()
    ensure(np.array_equal(pi, pi2) and np.array_equal(U, U2), "prw is not reproducible from its start or seed")
    ensure(pi.shape == (len(a), len(b)) and (pi >= 0).all(), "prw plan")
    close(pi.sum(1), a, 1e-9, "prw: row marginal")
    if c["it"] == 100:
        close(pi.sum(0), b, 2e-2, "prw: column marginal")
    rec.nontrivial(min(len(a), len(b)) > 1)
    if U0 is None:
        U0 = np.linalg.qr(np.random.RandomState(c["k"] % 2**31).randn(d, k))[0]

    def f(V):
        M = dist2(X @ V, Y @ V)
        G = ref.gibbs_ot(a, b, M, reg, tol=1e-9, iters=4000)[0]
        return (G * M).sum() + reg * (G * np.log(np.maximum(G, 1e-300))).sum()

    if c["tau"] <= 0.02 and c["it"] > 1 and c["scale"] ** 2 <= 4 * reg:
        f0, f1 = f(U0), f(U)
        leq(f0, f1, 2e-3 * (c["scale"] ** 2), "prw: worse than its start")
        rec.label("ascent" if f1 > f0 + 1e-4 else "flat")


@facet(st.fixed_dictionaries(dict(n=st.integers(3, 12), d=st.integers(2, 5), kk=st.integers(1, 5), reg=st.sampled_from([0.5, 1.0, 5.0]), method=st.sampled_from(["BCD", "BCD", "MM"]), sink=st.sampled_from(["sinkhorn", "sinkhorn_log"]), start=st.booleans(), it=st.sampled_from([1, 3, 12]), k=g.seeds)), quick=50, thorough=3000, weight=3.0)
def ewca(c, rec):
    """Entropic Wasserstein component analysis: orthonormal, transports uniform to uniform, never worse than its start."""
    r = g.rng(c["k"], 343)
    n, d = c["n"], c["d"]
    k = min(c["kk"], d, n)
    X = r.randn(n, d) * r.uniform(0.2, 1.5, d)
    X = X / np.sqrt((X**2).sum(1).mean()) * 1.2 + r.randn(d)
    X0 = X.copy()
    U0 = np.linalg.qr(r.randn(d, k))[0] if c["start"] else None
    U00 = None if U0 is None else U0.copy()
    pi, U = mute(ot.dr.ewca, X, U0=U0, reg=c["reg"], k=k, method=c["method"], sinkhorn_method=c["sink"], maxiter=c["it"], maxiter_sink=5000)
    ensure(np.array_equal(X, X0), "ewca modified its input")
    if U0 is not None:
        ensure(np.array_equal(U0, U00), "ewca modified its start")
    orthonormal(U, d, k, "ewca")
    u = np.full(n, 1 / n)
    close(pi.sum(1), u, 1e-5, "ewca: row marginal")
    close(pi.sum(0), u, 1e-5, "ewca: column marginal")
    Xc = X - X.mean(0)
    if U0 is None:
        U0 = np.linalg.svd(Xc)[2][:k].T

    def f(V):
        M = dist2(Xc, Xc @ V @ V.T)
        G = ref.gibbs_ot(u, u, M, c["reg"], tol=1e-9, iters=4000)[0]
        return (G * M).sum() + c["reg"] * (G * np.log(np.maximum(G, 1e-300))).sum()

    f0, f1 = f(U0), f(U)
    rec.nontrivial(k < d)
    leq(f1, f0, 1e-5 * (1 + abs(f0)), "ewca: worse than its start")
    if c["it"] == 1 and c["method"] == "BCD":
        # one step from a known start is the exact block minimiser for the plan returned with it
        S = Xc.T @ (pi + pi.T - np.eye(n) / n) @ Xc
        w = np.linalg.eigvalsh(S)[::-1]
        close(np.trace(U.T @ S @ U), w[:k].sum(), 1e-8 * (1 + np.abs(w).max()), "ewca: not the exact block step")
        close(pi, _plan(Xc, U0, u, c["reg"]), 1e-5, "ewca: plan of the first step")


def _plan(Xc, V, u, reg):
    return ref.gibbs_ot(u, u, dist2(Xc, Xc @ V @ V.T), reg, tol=1e-9, iters=4000)[0]


# -------------------------------------------------------------------------------- operators


def operator(r, n, L, real):
    cx = lambda *s: r.randn(*s) if real else r.randn(*s) + 1j * r.randn(*s)
    D = cx(n)
    return (D if not real else D + 0j), cx(L, n) + 0j, cx(L, n) + 0j


OP = dict(
    n=st.integers(1, 5), m=st.integers(1, 5), L=st.integers(1, 5), eta=st.sampled_from([0.0, 0.3, 0.5, 1.0]), p=st.sampled_from([1, 2, 3]), q=st.sampled_from([1, 2, 0.5]), r=st.sampled_from([1, 2, 3]),
    metric=st.sampled_from(["chordal", "geodesic", "procrustes", "martin"]), scaling=st.sampled_from([None, (1.0, 2.0), (0.5, 0.0)]), real=st.booleans(), torch=st.booleans(), k=g.seeds,
)


def atoms_cost(A, B, eta, p, q, metric, sc):
    (Ds, Rs, Ls), (Dt, Rt, Lt) = A, B
    sr, si = sc or (1.0, 1.0)
    C = np.zeros((len(Ds), len(Dt)))
    near = False
    for i in range(len(Ds)):
        for j in range(len(Dt)):
            z = Ds[i] - Dt[j]
            lam = np.hypot(z.real * sr, z.imag * si) ** q
            ip = lambda u, v: abs(np.vdot(u, v)) / (np.linalg.norm(u) * np.linalg.norm(v))
            dl = min(1.0, ip(Rs[:, i], Rt[:, j]) * ip(Ls[:, i], Lt[:, j]))
            d2 = {"chordal": 1 - dl**2, "geodesic": np.arccos(dl) ** 2, "procrustes": 2 * (1 - dl), "martin": -np.log(max(dl**2, 1e-12))}[metric]
            near |= dl > 1 - 1e-4 or abs(z) < 1e-4
            C[i, j] = (eta * lam + (1 - eta) * max(d2, 0.0) ** (q / 2)) ** (p / 2)
    return C, near


@facet(st.fixed_dictionaries(OP), quick=500, thorough=20000)
def operators(c, rec):
    """Spectral-Grassmann costs and metric equal their definition and have the documented invariances."""
    r = g.rng(c["k"], 344)
    n, m, L = c["n"], c["m"], c["L"]
    A, B = operator(r, n, L, c["real"]), operator(r, m, L, c["real"])
    if r.rand() < 0.25 and m >= n:  # share atoms
        B = tuple(np.concatenate([x[..., : min(n, m)], y[..., min(n, m):]], -1) for x, y in zip(A, B))
    kw = dict(eta=c["eta"], p=c["p"], q=c["q"], grassmann_metric=c["metric"], eigen_scaling=c["scaling"])
    conv = (lambda *x: [T.from_numpy(np.ascontiguousarray(v)) for v in x]) if c["torch"] else (lambda *x: list(x))
    back = lambda v: v.numpy() if c["torch"] else np.asarray(v)
    cost = lambda A, B: back(ot.sgot.sgot_cost_matrix(*conv(*A), *conv(*B), **kw))
    C = cost(A, B)
    want, shared = atoms_cost(A, B, c["eta"], c["p"], c["q"], c["metric"], c["scaling"])
    sc = 1 + want.max()
    # similarities rounded around one, or eigenvalues around equality, lose half of their digits in each root
    tl = (1e-3 if shared else 1e-8) * sc
    if shared and (c["q"] < 1 or c["p"] == 1):
        tl = 3e-2 * sc
    close(C, want, tl, "sgot cost matrix")
    rec.nontrivial(n > 1 and m > 1 and L > 1)
    close(cost(B, A), C.T, tl, "sgot cost is not symmetric")
    s = lambda X: (X[0], X[1] * (r.randn(X[1].shape[1]) + 1j * r.randn(X[1].shape[1])), X[2] * (-2.5j) ** r.randint(0, 4, X[2].shape[1]))
    close(cost(s(A), s(B)), C, tl, "sgot cost depends on the scaling of eigenvectors")
    close(back(ot.sgot.eigenvalue_cost_matrix(*conv(A[0], B[0]), q=c["q"], eigen_scaling=c["scaling"])), np.hypot((A[0][:, None] - B[0]).real * (c["scaling"] or (1, 1))[0], (A[0][:, None] - B[0]).imag * (c["scaling"] or (1, 1))[1]) ** c["q"], 1e-9 * sc, "eigenvalue cost")
    # metric
    Ws = None if r.rand() < 0.4 else r.dirichlet(np.ones(n)) * r.uniform(0.5, 2)
    Wt = None if r.rand() < 0.4 else r.dirichlet(np.ones(m)) * r.uniform(0.5, 2)
    w = lambda W: None if W is None else conv(W)[0]
    met = lambda A, B, Ws, Wt: float(ot.sgot.sgot_metric(*conv(*A), *conv(*B), r=c["r"], Ws=w(Ws), Wt=w(Wt), **kw))
    u = lambda W, k: np.full(k, 1 / k) if W is None else W / W.sum()
    v = max(ref.lp_ot(u(Ws, n), u(Wt, m), want)[0], 0.0)
    got = met(A, B, Ws, Wt)
    close(got ** (c["r"] * c["p"]), v, 2 * tl, "sgot metric is not the documented transport value")
    o1, o2 = r.permutation(n), r.permutation(m)
    pm = lambda X, o: (X[0][o], X[1][:, o], X[2][:, o])
    pw = lambda W, o: None if W is None else W[o]
    close(met(pm(A, o1), pm(B, o2), pw(Ws, o1), pw(Wt, o2)) ** (c["r"] * c["p"]), v, 2 * tl, "sgot metric depends on the order of the atoms")
    close(met(B, A, Wt, Ws) ** (c["r"] * c["p"]), v, 2 * tl, "sgot metric is not symmetric")
    close(met(A, s(A), Ws, Ws) ** (c["r"] * c["p"]), 0.0, 3e-2 if c["q"] < 1 or c["p"] == 1 else 2e-3, "sgot self-distance")


# -------------------------------------------------------------------------------- graph layers


@st.composite
def graphs(draw):
    return dict(sizes=draw(st.lists(st.sampled_from([5, 4, 3, 2, 7, 1, 6]), min_size=1, max_size=4)), d=draw(st.integers(1, 3)), K=draw(st.sampled_from([2, 3, 1])), q=draw(st.integers(1, 5)), alpha=draw(st.sampled_from([None, 0.0, 0.2, 0.5, 0.9])), multi=draw(st.booleans()), train=draw(st.booleans()), inter=draw(st.booleans()), k=draw(g.seeds))


def batch(c):
    r = g.rng(c["k"], 345)
    X, E, bt = [], [], []
    off = 0
    for i, n in enumerate(c["sizes"]):
        X.append(r.randn(n, c["d"]).astype("f"))
        for a in range(n):
            for b in range(a):
                if r.rand() < 0.5:
                    E += [(a + off, b + off), (b + off, a + off)]
        bt += [i] * n
        off += n
    X, bt = np.concatenate(X), np.array(bt)
    E = np.array(E, dtype=np.int64).reshape(-1, 2).T
    if c["inter"]:  # interleave the graphs of the batch, keeping the order of nodes within each
        o = np.argsort(r.permutation(bt) * 0 + r.rand(len(bt)))
        slots = bt[o]
        new = np.empty(len(bt), int)
        for i in range(len(c["sizes"])):
            new[np.where(bt == i)[0]] = np.where(slots == i)[0]
        X2, b2 = np.empty_like(X), np.empty_like(bt)
        X2[new], b2[new] = X, bt
        X, bt, E = X2, b2, new[E]
    return r, X, E, bt


@facet(graphs(), quick=60, thorough=1500, weight=2.0)
def fgw_layer(c, rec):
    """The TFGW layer returns the FGW value to every template for each graph, independently of batching."""
    r, X, E, bt = batch(c)
    T.manual_seed(c["k"] % 2**31)
    from ot.gnn import TFGWPooling

    layer = TFGWPooling(c["d"], c["K"], c["q"], alpha=c["alpha"], train_node_weights=c["train"], multi_alpha=c["multi"])
    al = np.full(c["K"], 0.5 if c["alpha"] is None else c["alpha"])
    with T.no_grad():
        if c["train"]:
            layer.q0 += T.from_numpy(r.randn(c["K"], c["q"]).astype("f"))
        if c["multi"]:
            al = r.choice([0.0, 0.2, 0.6, 0.9], c["K"])
            layer.alpha0 = T.nn.Parameter(T.logit(T.from_numpy(al.astype("f"))))
    t = lambda v: T.from_numpy(np.ascontiguousarray(v))
    out = mute(layer, t(X), t(E), t(bt)).detach().numpy()
    K = len(c["sizes"])
    ensure(out.shape == (K, c["K"]), f"layer output {out.shape}")
    rec.nontrivial(K > 1 and c["K"] > 1)
    q = T.softmax(layer.q0, 1).detach()
    for i in range(K):
        nodes = np.where(bt == i)[0]
        n = len(nodes)
        pos = {v: s for s, v in enumerate(nodes)}
        C = np.zeros((n, n), "f")
        for a, b in E.T:
            if bt[a] == i:
                C[pos[a], pos[b]] = 1
        Xi = X[nodes]
        e = np.array([(pos[a], pos[b]) for a, b in E.T if bt[a] == i], dtype=np.int64).reshape(-1, 2).T
        alone = mute(layer, t(Xi), t(e)).detach().numpy()
        close(alone, out[i], 1e-6 + 1e-5 * np.abs(alone).max(), "layer output depends on the batch")
        for j in range(c["K"]):
            F = layer.tplt_features[j].detach()
            M = T.from_numpy(((Xi[:, None] - F.numpy()[None]) ** 2).sum(2))
            h = T.full((n,), 1 / n)
            if al[j] == 0:
                v = ref_emd(h.numpy(), q[j].numpy(), M.numpy())
                close(out[i, j], v, 1e-4 * (1 + M.max().item()), "layer: features only")
                continue
            A = layer.tplt_adjacencies[j].detach()
            Ct, At, hd, qd = C.astype(float), A.numpy().astype(float), h.numpy().astype(float), q[j].numpy().astype(float)
            P = np.outer(hd, qd)
            up = (1 - al[j]) * (M.numpy() * P).sum() + al[j] * ref.gw_loss4(Ct, At, P)
            leq(out[i, j], up, 1e-4 * (1 + up), "layer: above the value of the product plan its solver starts from")
            lo = (1 - al[j]) * ref_emd(hd, qd, M.numpy())
            leq(lo, out[i, j], 1e-4 * (1 + up), "layer: below the lower bound of the distance")
            v = float(mute(ot.gromov.fused_gromov_wasserstein2, M, t(C), A, h, q[j], alpha=float(np.float32(al[j])), symmetric=True, max_iter=50))
            if abs(v - out[i, j]) > 1e-4 * (1 + abs(v)):
                # rounding may send the non-convex solver to another local minimum: then both are minima of the same objective
                w = float(mute(ot.gromov.fused_gromov_wasserstein2, M.double().numpy(), Ct, At, hd, qd / qd.sum(), alpha=al[j], symmetric=True, max_iter=50))
                ensure(min(abs(w - out[i, j]), abs(w - v)) <= 1e-3 * (1 + up), f"layer value {out[i, j]} is not the FGW value {v}")
                rec.label("other local minimum")


def ref_emd(a, b, M):
    return ref.lp_ot(np.asarray(a, float) / a.sum(), np.asarray(b, float) / b.sum(), np.asarray(M, float))[0]


@facet(graphs(), quick=60, thorough=1500)
def w_layer(c, rec):
    """The TW layer returns the exact transport value to every template for each graph, whatever its size and batch."""
    c = dict(c, sizes=[s * (6 if c["alpha"] is None else 1) for s in c["sizes"]], q=c["q"] * (5 if c["alpha"] is None else 1))
    r, X, E, bt = batch(c)
    T.manual_seed(c["k"] % 2**31)
    from ot.gnn import TWPooling

    layer = TWPooling(c["d"], c["K"], c["q"], train_node_weights=c["train"])
    with T.no_grad():
        if c["train"]:
            layer.q0 += T.from_numpy(r.randn(c["K"], c["q"]).astype("f"))
    t = lambda v: T.from_numpy(np.ascontiguousarray(v))
    out = mute(layer, t(X), batch=t(bt)).detach().numpy()
    K = len(c["sizes"])
    ensure(out.shape == (K, c["K"]), f"layer output {out.shape}")
    rec.nontrivial(K > 1 and c["K"] > 1)
    q = T.softmax(layer.q0, 1).detach().numpy()
    for i in range(K):
        Xi = X[bt == i]
        alone = mute(layer, t(Xi)).detach().numpy()
        close(alone, out[i], 1e-6 + 1e-5 * np.abs(alone).max(), "layer output depends on the batch")
        for j in range(c["K"]):
            M = dist2(Xi.astype(float), layer.tplt_features[j].detach().numpy().astype(float))
            v = ref_emd(np.full(len(Xi), 1 / len(Xi)), q[j], M)
            close(out[i, j], v, 1e-4 * (1 + M.max()), "layer value is not the transport value")
