"""C15: entropic, Bregman-alternated, sampled, pointwise, quantized and low-rank (fused) Gromov-Wasserstein."""
import random
import warnings

import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from checks.c07 import run
from checks.c14 import SYM, scale, start, unpack
from core import FACETS, arr, close, coupling, ensure, facet, leq, num

FACETS.clear()
META = {
    "backends": [],
    "rule": "non-trivial when both graphs have >=3 nodes and the plan is not the product of the marginals",
    "assumptions": ["positive weights", "Gibbs form judged only when the recorded outer error is below the tolerance and no inner warning was emitted", "kl_loss: positive structure entries"],
}


@st.composite
def pair(draw, nmax=7, fused=None, zeros=False):
    n, m = draw(st.integers(1, nmax)), draw(st.integers(1, nmax))
    loss = draw(st.sampled_from(["square_loss", "square_loss", "kl_loss"]))
    kinds = draw(st.sampled_from([SYM, SYM, ("asym",)])) if loss == "square_loss" else draw(st.sampled_from([("pos",), ("posasym",)]))
    c = dict(n=n, m=m, loss=loss, C1=draw(g.c_spec(n, kinds=kinds)), C2=draw(g.c_spec(m, kinds=kinds)), p=draw(st.one_of(st.none(), g.w_spec(n, zeros=zeros))), q=draw(st.one_of(st.none(), g.w_spec(m, zeros=zeros))), k=draw(g.seeds),
             rel=draw(st.sampled_from([0.03, 0.1, 0.3, 1.0, 5.0])), G0=draw(st.booleans()), warm=draw(st.booleans()), solver=draw(st.sampled_from(["PGD", "PGD", "PPA"])), sym=draw(st.sampled_from([None, None, False, "claim"])),
             same=draw(st.sampled_from([False, False, True])), iters=draw(st.sampled_from([1, 11, 200, 200])), ml=draw(st.booleans()))
    c["fused"] = draw(st.booleans()) if fused is None else fused
    if c["fused"]:
        c.update(M=draw(g.m_spec(n, m, scale=False)), alpha=draw(g.around([0.0, 0.1, 0.5, 0.9, 1.0], 0.01, 0.99)))
    return c


def prepare(c):
    C1, C2, p, q, M = unpack(c)
    issym = bool(np.allclose(C1, C1.T) and np.allclose(C2, C2.T))
    al = c["alpha"] if c["fused"] else 1.0
    args = (None, None) if c["p"] is None and c["q"] is None and not (c["same"] and c["n"] == c["m"]) else (p, q)
    s = scale(C1, C2, c["loss"]) + np.abs(M).max()
    kw = dict(loss_fun=c["loss"], symmetric=issym if c["sym"] == "claim" else c["sym"], epsilon=c["rel"] * s)
    if c["G0"]:
        kw["G0"] = start("random", p, q, c["k"])
    if c["fused"]:
        kw["alpha"] = al
    rec_lab = ("fused" if c["fused"] else "gw", c["loss"], "symmetric" if issym else "asymmetric")
    return C1, C2, p, q, M, al, args, s, kw, rec_lab


def grad(C1, C2, M, al, T, loss):
    return (1 - al) * M + al * (ref.gw_tensor(C1, C2, T, loss) + ref.gw_tensor(C1.T, C2.T, T, loss))


def value(C1, C2, M, al, T, loss):
    return (1 - al) * (M * T).sum() + al * ref.gw_loss4(C1, C2, T, loss)


def copies(kw):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}


@facet(pair(), 250, 10000)
def entropic(c, rec):
    """entropic_(fused_)gromov_wasserstein(2): marginals, value = four-index objective of the plan, parts, Gibbs form of the linearised cost at convergence, alpha=0 is entropic OT, swapping the two sides transposes."""
    C1, C2, p, q, M, al, args, s, kw, lab = prepare(c)
    n, m = c["n"], c["m"]
    f, f2 = (ot.gromov.entropic_fused_gromov_wasserstein, ot.gromov.entropic_fused_gromov_wasserstein2) if c["fused"] else (ot.gromov.entropic_gromov_wasserstein, ot.gromov.entropic_gromov_wasserstein2)
    pos = (M, C1, C2) if c["fused"] else (C1, C2)
    kw = dict(kw, max_iter=c["iters"], solver=c["solver"], warmstart=c["warm"])
    (T, lg), bad = run(f, *pos, *args, log=True, **copies(kw))
    rec.label(*lab, c["solver"], "warm" if c["warm"] else "cold")
    T = np.asarray(T)
    if c["solver"] == "PPA" and (not np.isfinite(T).all() or T.min() < 1e-200):
        rec.skip("proximal iterations underflow")
        return
    if bad:
        rec.skip("inner solver did not converge")
        return
    T = arr(T, (n, m))
    ensure(T.min() >= 0, "negative plan")
    me = np.abs(T.sum(1) - p).sum() + np.abs(T.sum(0) - q).sum()
    leq(me, 0, 1e-7, "marginals")
    rec.nontrivial(min(n, m) > 2 and np.abs(T - np.outer(p, q)).max() > 1e-6)
    d = num(lg["fgw_dist" if c["fused"] else "gw_dist"])
    close(d, value(C1, C2, M, al, T, c["loss"]), 1e-9 * s + 4 * me * s, "reported value is not the objective at the plan")
    (v, l2), _ = run(f2, *pos, *args, log=True, **copies(kw))
    close(num(v), d, 1e-12 * s, "value-only entry point")
    close(arr(l2["T"], (n, m)), T, 1e-12, "plan of the value-only entry point")
    (v, _) = run(f2, *pos, *args, **copies(kw))
    close(num(v), d, 1e-12 * s, "value depends on log")
    if c["fused"]:
        close(num(l2["lin_loss"]), (1 - al) * (M * T).sum(), 1e-9 * s, "linear part")
        close(num(l2["quad_loss"]), al * ref.gw_loss4(C1, C2, T, c["loss"]), 1e-9 * s + 4 * me * s, "quadratic part")
    (T1, _) = run(f, *pos, *args, **copies(kw))
    close(T1, T, 1e-12, "plan depends on log")
    eps = kw["epsilon"]
    if num(lg["err"][-1]) <= 1e-9:
        rec.label("converged")
        tens = grad(C1, C2, M, al, T, c["loss"])
        if c["solver"] == "PPA":
            tens = tens - eps * np.log(T)
        P, _, _, e = ref.gibbs_ot(p, q, tens, eps)
        if e < 1e-10:
            close(P, T, 1e-6 * (1 + s / eps), "converged plan is not the Gibbs plan of its linearised cost")
    else:
        # not converged: the last step is exactly one Gibbs projection from the plan reached one iteration earlier
        if c["iters"] > 1 and not c["warm"]:
            (T0, b0) = run(f, *pos, *args, **dict(copies(kw), max_iter=c["iters"] - 1))
        else:
            T0, b0 = kw.get("G0", np.outer(p, q)), False
        T0 = np.asarray(T0)
        if not b0 and T0.min() > 1e-200 and (c["iters"] == 1 or not c["warm"]) and len(lg["err"]) == (c["iters"] + 9) // 10:
            rec.label("one step")
            tens = grad(C1, C2, M, al, T0, c["loss"]) - (eps * np.log(T0) if c["solver"] == "PPA" else 0)
            P, _, _, e = ref.gibbs_ot(p, q, tens, eps)
            if e < 1e-10:
                close(P, T, 1e-6 * (1 + s / eps), "a step is not the Gibbs plan of the linearised cost")
    if al == 0 and c["solver"] == "PGD":
        P, _, _, e = ref.gibbs_ot(p, q, M, eps)
        if e < 1e-10:
            close(T, P, 1e-6 * (1 + s / eps), "alpha=0 is not entropic OT")


@facet(pair(), 250, 10000)
def bapg(c, rec):
    """BAPG_(fused_)gromov_wasserstein(2): non-negative, exact target marginal, value/loss formulas, fixed point of the documented alternating projections."""
    C1, C2, p, q, M, al, args, s, kw, lab = prepare(c)
    n, m = c["n"], c["m"]
    f, f2 = (ot.gromov.BAPG_fused_gromov_wasserstein, ot.gromov.BAPG_fused_gromov_wasserstein2) if c["fused"] else (ot.gromov.BAPG_gromov_wasserstein, ot.gromov.BAPG_gromov_wasserstein2)
    pos = (M, C1, C2) if c["fused"] else (C1, C2)
    kw = dict(kw, max_iter=c["iters"], marginal_loss=c["ml"])
    (T, lg), bad = run(f, *pos, *args, log=True, **copies(kw))
    T = np.asarray(T)
    if not np.isfinite(T).all() or T.min() < 1e-250:
        rec.skip("underflow")
        return
    rec.label(*lab, "marginal loss" if c["ml"] else "plain")
    T = arr(T, (n, m))
    close(T.sum(0), q, 1e-9, "target marginal")
    me = np.abs(T.sum(1) - p).sum()
    rec.nontrivial(min(n, m) > 2 and np.abs(T - np.outer(p, q)).max() > 1e-6)
    d = num(lg["fgw_dist" if c["fused"] else "gw_dist"])
    close(d, value(C1, C2, M, al, T, c["loss"]), 1e-9 * s + 4 * me * s, "reported value is not the objective at the plan")
    # constant terms of the loss are dropped when the marginal loss is not included
    w = ref.gw_tensor(C1, C2, np.outer(p, q), c["loss"])
    if not c["ml"]:
        hh = quad_cross(C1, C2, T, c["loss"])
        close(num(lg["loss"]), (1 - al) * (M * T).sum() + al * hh, 1e-8 * s, "loss without the marginal terms")
    (v, l2), _ = run(f2, *pos, *args, log=True, **copies(kw))
    close(num(v), d, 1e-12 * s, "value-only entry point")
    close(arr(l2["T"], (n, m)), T, 1e-12, "plan of the value-only entry point")
    if c["fused"]:
        close(num(l2["lin_loss"]), (1 - al) * (M * T).sum(), 1e-9 * s, "linear part")
        close(num(l2["lin_loss"]) + num(l2["quad_loss"]), d, 1e-9 * s, "parts do not sum to the value")
    (T1, _) = run(f, *pos, *args, **copies(kw))
    close(T1, T, 1e-12, "plan depends on log")
    # one more iteration of the documented scheme
    eps = kw["epsilon"]

    def df(Z):
        cross = cross_grad(C1, C2, Z, c["loss"]) + cross_grad(C1.T, C2.T, Z, c["loss"])
        if c["ml"]:
            cross = cross + const(C1, C2, p, q, c["loss"]) + const(C1.T, C2.T, p, q, c["loss"])
        return (1 - al) * M + al * cross

    def step(Z):
        Z = Z * np.exp(-df(Z) / eps)
        Z = Z * (p / Z.sum(1))[:, None]
        Z = Z * np.exp(-df(Z) / eps)
        return Z * (q / Z.sum(0))[None]

    with np.errstate(all="ignore"):
        if c["iters"] == 1:
            Z = step(kw.get("G0", np.outer(p, q)))
            rec.label("one step")
            close(T, Z, 1e-8, "one iteration is not the alternating Bregman projection")
        elif num(lg["err"][-1]) <= 1e-9:
            rec.label("converged")
            # the recorded error is that of the last step, up to ten iterations ago
            close(step(T), T, 1e-7 * (1 + s / eps), "converged plan is not a fixed point")


def const(C1, C2, p, q, loss):
    """f1(C1) p 1' + 1 (f2(C2) q)'."""
    if loss == "square_loss":
        return ((C1 ** 2) @ p)[:, None] + ((C2 ** 2) @ q)[None]
    return ((C1 * np.log(C1 + 1e-15) - C1) @ p)[:, None] + (C2 @ q)[None]


def cross_grad(C1, C2, T, loss):
    return -2 * C1 @ T @ C2.T if loss == "square_loss" else -C1 @ T @ np.log(C2 + 1e-15).T


def quad_cross(C1, C2, T, loss):
    return (cross_grad(C1, C2, T, loss) * T).sum()


LOSSES = {"sq": lambda x, y: (x - y) ** 2, "abs": lambda x, y: np.abs(x - y), "half": lambda x, y: np.sqrt(np.abs(x - y)), "sum": lambda x, y: x + 2 * y}


def full_loss(C1, C2, T, f):
    L = f(C1[:, None, :, None] + 0 * C2[None, :, None, :], C2[None, :, None, :] + 0 * C1[:, None, :, None])
    return float(np.einsum("ijkl,ij,kl->", L, T, T)), L


@st.composite
def scase(draw):
    n, m = draw(st.integers(2, 8)), draw(st.integers(2, 8))
    kinds = draw(st.sampled_from([SYM, SYM, ("asym",)]))
    return dict(n=n, m=m, C1=draw(g.c_spec(n, kinds=kinds)), C2=draw(g.c_spec(m, kinds=kinds)), p=draw(g.w_spec(n, zeros=False)), q=draw(g.w_spec(m, zeros=False)), k=draw(g.seeds), loss=draw(st.sampled_from(["sq", "sq", "abs", "half"])),
                alpha=draw(st.sampled_from([1, 1, 0.5, 0.1])), thr=draw(st.sampled_from([0, 0, 1e-3])), iters=draw(st.integers(1, 25)), eps=draw(st.sampled_from([0, 0, 0.3, 1.0])), nb=draw(st.sampled_from([1, 3, 100, (2, 2), (1, 5)])),
                perm=draw(st.booleans()), sp=draw(st.sampled_from([None, 1, 3, 50])), sq=draw(st.sampled_from([None, 1, 4])))


@facet(scase(), 150, 6000)
def sampled(c, rec):
    """GW_distance_estimation is exact for a relabelling plan under uniform weights and stays in the range of the loss; pointwise and sampled GW return couplings, reproducible from the seed, with an estimate of the value."""
    C1, C2, p, q, f = g.mk_c(c["C1"]), g.mk_c(c["C2"]), g.mk_w(c["p"]), g.mk_w(c["q"]), LOSSES[c["loss"]]
    n, m, k = c["n"], c["m"], c["k"]
    s = max(1e-3, np.abs(f(C1.max(), 0.0)), np.abs(f(0.0, C2.max())), f(C1.max(), -C2.max()))
    rec.nontrivial(min(n, m) > 2)
    # --- estimation
    if c["perm"]:
        r = g.rng(k, 80).permutation(n)
        A, u = C1[np.ix_(r, r)] + 0.5 * g.rng(k, 81).rand(n, n), np.ones(n) / n
        P = np.zeros((n, n))
        P[np.arange(n), g.rng(k, 82).permutation(n)] = 1 / n
        import scipy.sparse as sp
        est, std = ot.gromov.GW_distance_estimation(C1, A, u, u, f, P, nb_samples_q=c["sq"], random_state=k)
        close(num(est), full_loss(C1, A, P, f)[0], 1e-9 * s, "estimate of a deterministic plan")
        close(num(std), 0, 1e-12 * s, "standard deviation of a deterministic plan")
        e2 = ot.gromov.GW_distance_estimation(C1, A, u, u, f, sp.csr_matrix(P), nb_samples_p=n, std=False, random_state=k)
        close(num(e2), num(est), 1e-9 * s, "sparse plan")
        rec.label("exact estimate")
    G = start("random" if k % 2 else "sparse", p, q, k)
    est, std = ot.gromov.GW_distance_estimation(C1, C2, p, q, f, G, nb_samples_p=c["sp"], nb_samples_q=c["sq"], random_state=k)
    L = full_loss(C1, C2, G, f)[1]
    ensure(L.min() - 1e-9 <= num(est) <= L.max() + 1e-9, "estimate outside the range of the loss")
    ensure(num(std) >= 0, "negative standard deviation")
    est2 = ot.gromov.GW_distance_estimation(C1, C2, p, q, f, G, nb_samples_p=c["sp"], nb_samples_q=c["sq"], random_state=k)
    close([num(x) for x in est2], [num(est), num(std)], 0, "not a function of the seed")
    # --- pointwise
    thr = c["thr"] * 300 * min(p.min(), q.min()) / (n * m)  # never empties a row
    T, lg = ot.gromov.pointwise_gromov_wasserstein(C1, C2, p, q, f, alpha=c["alpha"], max_iter=c["iters"], threshold_plan=thr, log=True, random_state=k)
    D = arr(T.toarray(), (n, m))
    tol = 1e-9 + thr * n * m * c["iters"]
    ensure(D.min() >= 0, "negative pointwise plan")
    if thr == 0:
        coupling(D, p, q, 1e-9, "pointwise plan")
    else:
        close(D.sum(1), p, tol, "pointwise source marginal")
        close(D.sum(0), q, tol, "pointwise target marginal")
        ensure(c["alpha"] == 1 or not ((D > 0) & (D < thr * (1 - 1e-9))).any(), "entries below the threshold are kept")
    ensure(L.min() - 1e-9 <= num(lg["gw_dist_estimated"]) <= L.max() + 1e-9, "pointwise: estimate outside the range of the loss")
    if c["alpha"] == 1:  # the plan is a one-dimensional plan between two rows of the structures
        ok = False
        for i in range(n):
            for j in range(m):
                W = ref.w1d(C1[i], C2[j], p, q, 2)[0]
                cost = ((C1[i][:, None] - C2[j][None]) ** 2 * D).sum()
                ok |= abs(W - cost) <= 1e-9 * max(1.0, (C1.max() + C2.max()) ** 2)
        ensure(ok, "pointwise plan is not a 1-D optimal plan between two rows of the structures")
    T2 = ot.gromov.pointwise_gromov_wasserstein(C1, C2, p, q, f, alpha=c["alpha"], max_iter=c["iters"], threshold_plan=thr, random_state=k)
    close(T2.toarray(), D, 0, "pointwise: not a function of the seed")
    # --- sampled
    nb = tuple(c["nb"]) if isinstance(c["nb"], (list, tuple)) else c["nb"]
    if isinstance(nb, tuple):
        nb = (min(nb[0], n), min(nb[1], m))
    elif nb > n:
        nb = min(nb, n * m)
    kw = dict(nb_samples_grad=nb, epsilon=c["eps"], max_iter=c["iters"], random_state=k)
    (T, lg), bad = run(ot.gromov.sampled_gromov_wasserstein, C1, C2, p, q, f, log=True, **kw)
    (T2), _ = run(ot.gromov.sampled_gromov_wasserstein, C1, C2, p, q, f, **kw)
    T = np.asarray(T)
    close(T2, T, 0, "sampled: not a function of the seed")
    rec.label("sampled eps=%s" % c["eps"])
    if not bad:
        coupling(T, p, q, 1e-9 if c["eps"] == 0 else 1e-6, "sampled plan")
    ensure(L.min() - 1e-9 <= num(lg["gw_dist_estimated"]) <= L.max() + 1e-9, "sampled: estimate outside the range of the loss")


@st.composite
def qcase(draw):
    n, m = draw(st.integers(2, 10)), draw(st.integers(2, 10))
    return dict(n=n, m=m, X=draw(g.x_spec(n, 2, kinds=("gauss", "shift"))), Y=draw(g.x_spec(m, 2, kinds=("gauss", "shift"))), p=draw(st.one_of(st.none(), g.w_spec(n, zeros=False))), q=draw(st.one_of(st.none(), g.w_spec(m, zeros=False))),
                n1=draw(st.integers(1, 5)), n2=draw(st.integers(1, 5)), alpha=draw(st.sampled_from([1.0, 1.0, 0.5, 0.1])), feat=draw(st.booleans()), k=draw(g.seeds), kind=draw(st.sampled_from(["graph", "graph", "samples"])),
                part=draw(st.sampled_from(["random", "random", "louvain", "spectral", "fluid", "spectral_fused", "louvain_fused"])), rep=draw(st.sampled_from(["random", "pagerank", "pagerank_fused"])), aux=draw(st.booleans()))


def check_quantized(C1, C2, M, al, p, q, res, rec, npart1, npart2):
    Tg, Tl, T, lg = res
    n, m = C1.shape[0], C2.shape[0]
    T = coupling(arr(T, (n, m)), p, q, 1e-7, "quantized plan")
    Tg = np.asarray(Tg)
    s = (C1.max() + C2.max() + 1e-3) ** 2 + np.abs(M).max()
    close(num(lg["qFGW_dist"]), al * ref.gw_loss4(C1, C2, T) + (1 - al) * (M * T).sum(), 1e-8 * s, "reported value is not the objective at the plan")
    ensure(set(Tl) == {(i, j) for i in range(Tg.shape[0]) for j in range(Tg.shape[1]) if Tg[i, j] != 0}, "local plans for the wrong pairs of partitions")
    for ij, t in Tl.items():
        close(np.asarray(t).sum(), 1, 1e-9, "local plan mass")
        ensure(np.asarray(t).min() >= -1e-12, "negative local plan")
    close(Tg.sum(), 1, 1e-9, "global plan mass")
    return Tg, Tl, T


def blocks(part, rep, p):
    ids = np.unique(part)
    return ids, [np.where(part == i)[0] for i in ids]


@facet(qcase(), 400, 12000)
def quantized(c, rec):
    """Quantized (fused) GW: partitions, representants inside their partition, global plan couples partition masses, local plans are 1-D optimal, the assembled plan is a coupling with the reported objective; partition sizes n give GW between the permuted graphs."""
    X, Y = g.mk_x(c["X"]), g.mk_x(c["Y"])
    n, m, k, al = c["n"], c["m"], c["k"], c["alpha"]
    r = g.rng(k, 83)
    F1, F2 = (r.randn(n, 3), r.randn(m, 3)) if (c["feat"] or al != 1.0) else (None, None)
    p = np.ones(n) / n if c["p"] is None else g.mk_w(c["p"])
    q = np.ones(m) / m if c["q"] is None else g.mk_w(c["q"])
    n1, n2 = c["n1"], c["n2"]
    M = ref.cost_matrix(F1, F2) if F1 is not None else np.zeros((n, m))
    rec.nontrivial(min(n, m) > 3 and 1 < n1 < n and 1 < n2 < m)
    rec.label(c["kind"], "fused" if al != 1 else "structure")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c["kind"] == "samples":
            meth = "random" if c["part"].startswith("random") else "kmeans"
            if F1 is not None and meth == "kmeans" and c["rep"].endswith("fused"):
                meth += "_fused"
            kw = dict(F1=F1, F2=F2, alpha=al, method=meth, random_state=k % 1000)
            res = ot.gromov.quantized_fused_gromov_wasserstein_samples(X, Y, n1, n2, None if c["p"] is None else p, None if c["q"] is None else q, log=True, **kw)
            C1, C2 = ref.cost_matrix(X, X), ref.cost_matrix(Y, Y)
            rec.label(meth)
            part, reps = ot.gromov.get_partition_and_representants_samples(X, n1, meth.split("_")[0], random_state=k % 1000)
            local = lambda i, r_: ((X[i] - X[r_]) ** 2).sum(1) * al + ((1 - al) * ((F1[i] - F1[r_]) ** 2).sum(1) if al != 1 else 0)
            fm = ot.gromov.format_partitioned_samples(X, p, part, reps, F1, al)
            rest = ot.gromov.quantized_fused_gromov_wasserstein_samples(X, Y, n1, n2, None if c["p"] is None else p, None if c["q"] is None else q, **kw)
        else:
            pm, rm = c["part"], c["rep"]
            if F1 is None:
                pm, rm = pm.split("_")[0], rm.split("_")[0]
            if pm == "fluid":  # needs connected graphs
                C1, C2 = np.exp(-ref.cost_matrix(X, X)) + 0.1, np.exp(-ref.cost_matrix(Y, Y)) + 0.1
            else:
                C1, C2 = np.exp(-ref.cost_matrix(X, X)), np.exp(-ref.cost_matrix(Y, Y))
            A1, A2 = (C1, C2) if c["aux"] else ((C1 > 0.3).astype(float) + (pm == "fluid"), (C2 > 0.3).astype(float) + (pm == "fluid"))
            kw = dict(C1_aux=None if c["aux"] else A1, C2_aux=None if c["aux"] else A2, F1=F1, F2=F2, alpha=al, part_method=pm, rep_method=rm, random_state=k % 1000)
            res = ot.gromov.quantized_fused_gromov_wasserstein(C1, C2, n1, n2, None if c["p"] is None else p, None if c["q"] is None else q, log=True, **kw)
            rest = ot.gromov.quantized_fused_gromov_wasserstein(C1, C2, n1, n2, None if c["p"] is None else p, None if c["q"] is None else q, **kw)
            rec.label(pm, rm)
            pm, rm = pm.split("_")[0], rm.split("_")[0]
            part = ot.gromov.get_graph_partition(A1, n1, pm, F1, al, random_state=k % 1000)
            reps = ot.gromov.get_graph_representants(A1, part, rm, random_state=k % 1000)
            D = al * C1 + ((1 - al) * ref.cost_matrix(F1, F1) if al != 1 else 0)
            local = lambda i, r_: D[r_, i]
            fm = ot.gromov.format_partitioned_graph(C1, p, part, reps, F1, None if F1 is None else ref.cost_matrix(F1, F1), al)
    Tg, Tl, T = check_quantized(C1, C2, M, al, p, q, res, rec, n1, n2)
    close(np.asarray(rest[2]), T, 1e-10, "plan depends on log")
    # helpers
    part = arr(part, (n,))
    reps = [int(i) for i in np.asarray(reps)]
    ids = np.unique(part)
    ensure(len(reps) == len(ids), "one representant per partition")
    ensure(len(ids) <= max(n1, 1) or c["part"].startswith("louvain") or n1 >= n, "more partitions than requested")
    ensure(n1 < n or len(ids) == n, "as many partitions as nodes requested")
    for i, r_ in zip(ids, reps):
        ensure(part[r_] == i, "representant outside its partition")
    C1s = C1 if c["kind"] == "graph" else ref.cost_matrix(X[reps], X[reps])
    close(fm[0], C1[np.ix_(reps, reps)] if c["kind"] == "graph" else C1s, 1e-9, "structure between representants")
    for i, r_, R, w in zip(ids, reps, fm[1], fm[2]):
        ix = np.where(part == i)[0]
        close(np.asarray(w), p[ix], 0, "weights inside a partition")
        close(np.asarray(R).ravel(), np.asarray(local(ix, r_)).ravel(), 1e-9, "relations to the representant")
    if F1 is not None:
        close(fm[3], F1[reps], 0, "features of the representants")


@facet(qcase(), 300, 12000)
def partitioned(c, rec):
    """quantized_fused_gromov_wasserstein_partitioned on arbitrary partitions: global plan is a stationary (F)GW coupling of the partition masses, local plans are 1-D optimal, blocks assemble exactly; get_graph_representants on arbitrary labels."""
    n, m, k, al = c["n"], c["m"], c["k"], c["alpha"]
    X, Y = g.mk_x(c["X"]), g.mk_x(c["Y"])
    p = np.ones(n) / n if c["p"] is None else g.mk_w(c["p"])
    q = np.ones(m) / m if c["q"] is None else g.mk_w(c["q"])
    r = g.rng(k, 84)
    l1, l2 = r.randint(0, c["n1"], n), r.randint(0, c["n2"], m)
    if k % 5 == 0:
        l1 = r.permutation(n)
    C1, C2 = np.sqrt(ref.cost_matrix(X, X)), np.sqrt(ref.cost_matrix(Y, Y))
    S1, S2 = 1 / (1 + C1), 1 / (1 + C2)
    rep1 = [int(i) for i in np.asarray(ot.gromov.get_graph_representants(S1, l1, c["rep"].split("_")[0], random_state=k % 1000))]
    rep2 = [int(i) for i in np.asarray(ot.gromov.get_graph_representants(S2, l2, c["rep"].split("_")[0], random_state=k % 1000))]
    u1, u2 = np.unique(l1), np.unique(l2)
    ensure([l1[i] for i in rep1] == list(u1) and [l2[i] for i in rep2] == list(u2), "representants are not those of the sorted partitions")
    F1, F2 = r.randn(n, 2), r.randn(m, 2)
    i1, i2 = [np.where(l1 == u)[0] for u in u1], [np.where(l2 == u)[0] for u in u2]
    R1, R2 = [C1[a, i] for a, i in zip(rep1, i1)], [C2[a, i] for a, i in zip(rep2, i2)]
    p1, p2 = [p[i] for i in i1], [q[i] for i in i2]
    CR1, CR2 = C1[np.ix_(rep1, rep1)], C2[np.ix_(rep2, rep2)]
    MR = ref.cost_matrix(F1[rep1], F2[rep2]) if al != 1 else None
    Tg, Tl, T, lg = ot.gromov.quantized_fused_gromov_wasserstein_partitioned(CR1, CR2, R1, R2, p1, p2, MR, al, build_OT=True, log=True)
    rec.nontrivial(len(u1) > 1 and len(u2) > 1)
    rec.label("parts:%d" % min(len(u1), len(u2)))
    P1, P2 = np.array([w.sum() for w in p1]), np.array([w.sum() for w in p2])
    Tg = coupling(Tg, P1, P2, 1e-8, "global plan")
    s = (CR1.max() + CR2.max() + 1e-3) ** 2 + (0 if MR is None else MR.max())
    val = al * ref.gw_loss4(CR1, CR2, Tg) + (0 if MR is None else (1 - al) * (MR * Tg).sum())
    close(num(lg["global dist"]), val, 1e-8 * s, "global value")
    out = np.zeros((n, m))
    for a in range(len(u1)):
        for b in range(len(u2)):
            if Tg[a, b] != 0:
                t = coupling(np.asarray(Tl[(a, b)]), p1[a] / P1[a], p2[b] / P2[b], 1e-9, "local plan")
                W, _ = ref.w1d(R1[a], R2[b], p1[a] / P1[a], p2[b] / P2[b], 2)
                sc = max(1.0, R1[a].max() ** 2, R2[b].max() ** 2)
                close(((R1[a][:, None] - R2[b][None]) ** 2 * t).sum(), W, 1e-9 * sc, "local plan is not 1-D optimal")
                close(num(lg[f"local dist ({a},{b})"]), W, 1e-9 * sc, "local value")
                out[np.ix_(i1[a], i2[b])] = Tg[a, b] * t
            else:
                ensure((a, b) not in Tl, "local plan for a pair without mass")
    o1, o2 = np.concatenate(i1), np.concatenate(i2)
    close(arr(T, (n, m)), out[np.ix_(o1, o2)], 1e-12, "assembled plan")
    none = ot.gromov.quantized_fused_gromov_wasserstein_partitioned(CR1, CR2, R1, R2, p1, p2, MR, al, build_OT=False)
    ensure(none[2] is None, "plan built although not asked for")
    close(none[0], Tg, 1e-12, "global plan depends on log")


@st.composite
def lcase(draw):
    n, m = draw(st.integers(2, 10)), draw(st.integers(2, 10))
    return dict(X=draw(g.x_spec(n, draw(st.integers(1, 3)))), Y=draw(g.x_spec(m, draw(st.integers(1, 3)))), p=draw(st.one_of(st.none(), g.w_spec(n, zeros=False, skew=False))), q=draw(st.one_of(st.none(), g.w_spec(m, zeros=False, skew=False))),
                rank=draw(st.one_of(st.none(), st.integers(1, 12))), reg=draw(st.sampled_from([0, 0, 0.01, 0.5])), resc=draw(st.booleans()), fac=draw(st.booleans()), gamma=draw(st.sampled_from(["rescale", "rescale", "theory"])), iters=draw(st.sampled_from([1, 5, 100])), k=draw(g.seeds), al=draw(st.sampled_from([1e-10, 1e-10, 0.05])))


@facet(lcase(), 200, 8000)
def lowrank(c, rec):
    """lowrank_gromov_wasserstein_samples: factors have the documented marginals and lower bound, the lazy plan is Q diag(1/g) R', value_quad / value are the documented objective of the returned factors."""
    X, Y = g.mk_x(c["X"]), g.mk_x(c["Y"])
    n, m = len(X), len(Y)
    a = np.ones(n) / n if c["p"] is None else g.mk_w(c["p"])
    b = np.ones(m) / m if c["q"] is None else g.mk_w(c["q"])
    r = min(n, m) if c["rank"] is None else min(n, m, c["rank"])
    al = min(c["al"], 0.5 / r)
    A, B = ref.cost_matrix(X, X), ref.cost_matrix(Y, Y)
    if min(A.max(), B.max()) < 1e-9:
        rec.skip("one structure is zero (the step size is undefined)")
        return
    kw = dict(reg=c["reg"], rank=c["rank"], alpha=al, gamma_init=c["gamma"], rescale_cost=c["resc"], numItermax=c["iters"], seed_init=c["k"], stopThr_dykstra=1e-9, numItermax_dykstra=20000)
    f1 = f2 = None
    A1, A2 = ot.lowrank.compute_lr_sqeuclidean_matrix(X, X, c["resc"])
    B1, B2 = ot.lowrank.compute_lr_sqeuclidean_matrix(Y, Y, c["resc"])
    if c["fac"]:
        kw.update(cost_factorized_Xs=(A1, A2), cost_factorized_Xt=(B1, B2))
    if not c["resc"]:
        close(A1 @ A2.T, A, 1e-9 * max(1, (X ** 2).max()), "low-rank factors of the squared distance")
    else:
        Z = A1 @ A2.T
        k = (Z * A).sum() / (A * A).sum()
        close(Z, k * A, 1e-9 * max(1, (X ** 2).max()), "rescaled factors are not proportional to the squared distance")
        ensure(k > 0, "negative rescaling")
    (Q, R, gg, lg), bad = run(ot.gromov.lowrank_gromov_wasserstein_samples, X, Y, None if c["p"] is None else a, None if c["q"] is None else b, log=True, warn_dykstra=True, warn=False, **kw)
    rec.label("rank:%d" % r, c["gamma"])
    if bad or not np.isfinite(Q).all():
        rec.skip("Dykstra did not converge")
        return
    Q, R, gg = arr(Q, (n, r)), arr(R, (m, r)), arr(gg, (r,))
    ensure(Q.min() >= 0 and R.min() >= 0, "negative factor")
    leq(-gg, -al, 1e-5, "weights below their lower bound")
    tol = 1e-5
    close(Q.sum(1), a, tol, "Q 1 = a")
    close(R.sum(1), b, tol, "R 1 = b")
    close(Q.sum(0), gg, tol, "Q' 1 = g")
    close(R.sum(0), gg, tol, "R' 1 = g")
    P = Q @ np.diag(1 / gg) @ R.T
    rec.nontrivial(r > 1 and np.abs(P - np.outer(a, b)).max() > 1e-6)
    close(arr(lg["lazy_plan"][:]), P, 1e-9, "lazy plan differs from Q diag(1/g) R'")
    a_, b_ = A1 @ A2.T, B1 @ B2.T
    v = a @ (a_ ** 2) @ a + b @ (b_ ** 2) @ b - 2 * np.trace(a_ @ P @ b_ @ P.T)
    s = a_.max() ** 2 + b_.max() ** 2 + 1e-3
    s *= 1 + (A1 ** 2).sum(1).max() * (A2 ** 2).sum(1).max() / max(a_.max(), 1e-3) ** 2 * 1e-2
    close(num(lg["value_quad"]), v, 1e-8 * s, "value_quad is not the objective of the returned factors")
    close(num(lg["value_quad"]), ref.gw_loss4(a_, b_, P), 1e-8 * s + 1e-3 * s * tol * 100, "value_quad is not the Gromov-Wasserstein loss")
    ent = sum(ref.entropy(Z) for Z in (Q, R, gg))
    close(num(lg["value"]), num(lg["value_quad"]) + c["reg"] * ent, 1e-8 * s + 1e-9, "value is not value_quad + reg * entropies")
    (Q2, _, _), _ = run(ot.gromov.lowrank_gromov_wasserstein_samples, X, Y, a, b, warn=False, **kw)
    close(Q2, Q, 1e-9, "not a function of the seed / explicit weights")
