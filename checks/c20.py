"""C20: Gaussian-mixture optimal transport."""
import contextlib
import io

import numpy as np
import ot
import ot.gmm as og
from hypothesis import strategies as st

import gen as g
import ref
from checks.c19 import bw2, mk, root
from core import FACETS, arr, close, coupling, ensure, facet, leq, num

FACETS.clear()
META = {
    "backends": [],
    "rule": "non-trivial when both mixtures have at least two components, one at least three, and the dimension is at least two",
    "assumptions": ["positive-definite covariances", "barycenter weights positive"],
}

kinds = st.sampled_from(["wishart", "wishart", "diag", "scaled"])


@st.composite
def mix(draw, dmin=1):
    a, b, d = draw(st.sampled_from([2, 3, 1, 4])), draw(st.sampled_from([3, 2, 1, 4])), draw(st.sampled_from([x for x in [2, 3, 1] if x >= dmin]))
    return dict(a=a, b=b, d=d, ws=draw(g.w_spec(a, skew=False)), wt=draw(g.w_spec(b, skew=False)), kind=draw(kinds), k=draw(g.seeds), far=draw(st.sampled_from([1.0, 0.2, 5.0])), n=draw(st.integers(1, 6)), same=draw(st.sampled_from([False, False, False, True])))


def unpack(c, tag=121):
    r, d = g.rng(c["k"], tag), c["d"]
    ms, mt = r.randn(c["a"], d) * c["far"], r.randn(c["b"], d) * c["far"]
    Cs = np.stack([mk(c["kind"], d, r) for _ in range(c["a"])])
    Ct = np.stack([mk(c["kind"], d, r) for _ in range(c["b"])])
    ws, wt = g.mk_w(c["ws"]), g.mk_w(c["wt"])
    if c["same"]:
        p = r.permutation(c["a"])
        mt, Ct, wt = ms[p], Cs[p], ws[p]
    return ms, mt, Cs, Ct, ws, wt, r


def cost(ms, mt, Cs, Ct):
    return ((ms[:, None] - mt[None]) ** 2).sum(-1) + np.array([[bw2(A, B) for B in Ct] for A in Cs])


def logpdf(x, m, C):
    L = np.linalg.cholesky(C)
    z = np.linalg.solve(L, (x - m).T)
    return -0.5 * (len(m) * np.log(2 * np.pi) + 2 * np.log(np.diag(L)).sum() + (z ** 2).sum(0))


def lse(a, axis):
    m = a.max(axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    return np.log(np.exp(a - m).sum(axis)) + np.squeeze(m, axis)


@facet(mix(), 700, 25000)
def transport(c, rec):
    """dist_bures_squared / gmm_ot_loss / gmm_ot_plan: Bures cost, exact discrete OT between component weights, zero for a relabelled mixture, symmetry, bounds, log."""
    ms, mt, Cs, Ct, ws, wt, r = unpack(c)
    M = cost(ms, mt, Cs, Ct)
    sc = M.max() + np.trace(Cs, axis1=1, axis2=2).max() + np.trace(Ct, axis1=1, axis2=2).max()
    D = arr(og.dist_bures_squared(ms, mt, Cs, Ct), M.shape)
    leq(-D, 0, 0, "negative squared distance")
    close(D, M, 1e-9 * sc, "component cost")
    close(arr(og.dist_bures_squared(mt, ms, Ct, Cs), M.T.shape).T, D, 1e-9 * sc, "asymmetric component cost")
    v, _ = ref.lp_ot(ws, wt, M)
    L = num(og.gmm_ot_loss(ms, mt, Cs, Ct, ws, wt))
    close(L, v, 1e-8 * sc, "loss is not the exact transport cost between components")
    L2, lg = og.gmm_ot_loss(ms, mt, Cs, Ct, ws, wt, log=True)
    close(num(L2), L, 1e-12 * sc, "loss depends on log")
    P = coupling(og.gmm_ot_plan(ms, mt, Cs, Ct, ws, wt), ws, wt, 1e-9, "plan")
    close((P * M).sum(), v, 1e-8 * sc, "plan is not optimal")
    P2, lp = og.gmm_ot_plan(ms, mt, Cs, Ct, ws, wt, log=True)
    close(P2, P, 0, "plan depends on log")
    close(num(lp["cost"]), v, 1e-8 * sc, "logged cost")
    close(num(og.gmm_ot_loss(mt, ms, Ct, Cs, wt, ws)), L, 1e-8 * sc, "asymmetric loss")
    rec.label("relabelled copy" if c["same"] else "distinct", "%d/%d" % (c["a"], c["b"]))
    rec.nontrivial(min(len(ws), len(wt)) > 1 and max(len(ws), len(wt)) > 2 and c["d"] > 1)
    if c["same"]:
        close(L, 0, 1e-8 * sc, "distance to a relabelled copy")
    # splitting a component leaves the loss unchanged
    i = r.randint(len(ws))
    t = r.rand()
    w2 = np.append(ws, ws[i] * (1 - t))
    w2[i] *= t
    close(num(og.gmm_ot_loss(np.vstack([ms, ms[i:i + 1]]), mt, np.concatenate([Cs, Cs[i:i + 1]]), Ct, w2, wt)), L, 1e-8 * sc, "splitting a component changes the loss")
    # the mixture loss dominates the distance between the means of the mixtures
    leq(((ws @ ms - wt @ mt) ** 2).sum(), L, 1e-9 * sc, "loss below the distance between the overall means")


@facet(mix(), 600, 20000)
def density(c, rec):
    """gaussian_logpdf / gaussian_pdf / gmm_pdf: definition, shape for any batch dimensions, normalisation, linearity; plan density: definition on the graph of the component maps."""
    ms, mt, Cs, Ct, ws, wt, r = unpack(c)
    d = c["d"]
    x = np.vstack([ms[0] + r.randn(c["n"], d) * 1.5, ms[:1]])
    rec.nontrivial(len(ws) > 1 and d > 1)
    l = logpdf(x, ms[0], Cs[0])
    t = 1e-9 * (1 + np.abs(l)) * np.linalg.cond(Cs[0])
    close(arr(og.gaussian_logpdf(x, ms[0], Cs[0]), l.shape), l, t, "log-density")
    close(arr(og.gaussian_pdf(x, ms[0], Cs[0]), l.shape), np.exp(l), t * np.exp(l) + 1e-300, "density")
    close(num(og.gaussian_logpdf(x[0], ms[0], Cs[0])), l[0], t, "log-density of one point")
    G = np.stack([logpdf(x, m, C) for m, C in zip(ms, Cs)])
    f = (ws[:, None] * np.exp(G)).sum(0)
    tt = 1e-8 * f + 1e-300
    close(arr(og.gmm_pdf(x, ms, Cs, ws), f.shape), f, tt, "mixture density")
    x3 = np.stack([x, x[::-1]])
    close(arr(og.gmm_pdf(x3, ms, Cs, ws), x3.shape[:-1]), np.stack([f, f[::-1]]), np.stack([tt, tt[::-1]]), "mixture density of a batch")
    close(arr(og.gaussian_logpdf(x3, ms[0], Cs[0]), x3.shape[:-1]), np.stack([l, l[::-1]]), np.stack([t, t[::-1]]), "log-density of a batch")
    if d == 1:
        s = np.sqrt(Cs.max())
        u = np.linspace(ms.min() - 9 * s, ms.max() + 9 * s, 4001)[:, None]
        close(np.trapezoid(og.gmm_pdf(u, ms, Cs, ws), u[:, 0]), ws.sum(), 1e-3 if (u[1] - u[0]) < 0.5 * np.sqrt(Cs.min()) else 1, "mixture density does not integrate to one")
    # plan density
    P = np.asarray(og.gmm_ot_plan(ms, mt, Cs, Ct, ws, wt))
    explicit = c["k"] % 2
    if explicit:
        P = np.outer(ws, wt)
    maps = {}
    for i in range(len(ws)):
        R = np.linalg.inv(root(Cs[i]))
        for j in range(len(wt)):
            A = R @ root(root(Cs[i]) @ Ct[j] @ root(Cs[i])) @ R
            maps[i, j] = (A, mt[j] - A @ ms[i])
    i0, j0 = np.unravel_index(np.argmax(P), P.shape)
    y = np.vstack([x @ maps[i0, j0][0] + maps[i0, j0][1], mt])
    atol = [1e-2, 1e-2, 1.0][c["k"] % 3]
    kw = {} if atol == 1e-2 else dict(atol=atol)
    if explicit:
        kw["plan"] = P.copy()
    Z = arr(og.gmm_ot_plan_density(x, y, ms, mt, Cs, Ct, ws, wt, **kw), (len(x), len(y)))
    want, hit, unsure = np.zeros_like(Z), np.zeros(Z.shape, bool), np.zeros(Z.shape, bool)
    for (i, j), (A, b) in maps.items():
        q = np.linalg.norm((x @ A + b)[:, None] - y[None], axis=-1)
        unsure |= np.abs(q - atol) < 1e-6
        want += P[i, j] * np.exp(logpdf(x, ms[i], Cs[i]))[:, None] * (q < atol)
        hit |= q < atol
    rec.label("on support" if hit.any() else "off support", "given plan" if explicit else "computed plan")
    close(Z[~unsure], want[~unsure], 1e-7 * want.max() + 1e-300, "plan density")


@facet(mix(), 500, 15000)
def apply_map(c, rec):
    """gmm_ot_apply_map: barycentric map = responsibility- and plan-weighted Gaussian maps; random maps pick a positive-probability pair, follow the seed; single Gaussians give the exact map."""
    ms, mt, Cs, Ct, ws, wt, r = unpack(c)
    d = c["d"]
    x = ms[r.randint(len(ms), size=c["n"])] + r.randn(c["n"], d)
    if c["k"] % 5 == 0:
        x[0] += 8 * np.sqrt(Cs.max())
    P = np.asarray(og.gmm_ot_plan(ms, mt, Cs, Ct, ws, wt))
    kw = {}
    if c["k"] % 3 == 0:
        P = np.outer(ws, wt)
        kw["plan"] = P.copy()
    rec.label("given plan" if kw else "computed plan")
    rec.nontrivial(min(P.shape) > 1 and max(P.shape) > 2 and d > 1)
    G = np.stack([logpdf(x, m, C) for m, C in zip(ms, Cs)])  # k_s x n
    with np.errstate(divide="ignore"):
        lw = np.log(ws)[:, None] + G
    lden = lse(lw, 0)
    T = {}
    for i in range(len(ws)):
        R = np.linalg.inv(root(Cs[i]))
        for j in range(len(wt)):
            A = R @ root(root(Cs[i]) @ Ct[j] @ root(Cs[i])) @ R
            T[i, j] = (x - ms[i]) @ A + mt[j]
    pr = {ij: P[ij] * np.exp(G[ij[0]] - lden) if P[ij] > 0 else 0 * lden for ij in T}
    want = sum(pr[ij][:, None] * T[ij] for ij in T)
    sc = 1 + max(np.abs(t).max() for t in T.values())
    B = arr(og.gmm_ot_apply_map(x.copy(), ms, mt, Cs, Ct, ws, wt, method="bary", **kw), x.shape)
    close(B, want, 1e-7 * sc, "barycentric map")
    close(og.gmm_ot_apply_map(x.copy(), ms, mt, Cs, Ct, ws, wt, **kw), B, 0, "default method")
    close(og.gmm_ot_apply_map(x[::-1].copy(), ms, mt, Cs, Ct, ws, wt, **kw), B[::-1], 1e-9 * sc, "depends on the other points")
    s = c["k"] % 1000
    Z = arr(og.gmm_ot_apply_map(x.copy(), ms, mt, Cs, Ct, ws, wt, method="rand", seed=s, **kw), x.shape)
    close(og.gmm_ot_apply_map(x.copy(), ms, mt, Cs, Ct, ws, wt, method="rand", seed=s, **kw), Z, 0, "random map does not follow the seed")
    for n in range(len(x)):
        ok = [np.abs(T[ij][n] - Z[n]).max() < 1e-7 * sc and pr[ij][n] > 1e-14 for ij in T]
        ensure(any(ok), "random map chose an image of probability zero")
    if c["n"] == 1:
        # frequencies over many copies of a point
        xx = np.repeat(x[:1], 200, 0)
        Y = arr(og.gmm_ot_apply_map(xx, ms, mt, Cs, Ct, ws, wt, method="rand", seed=s, **kw), xx.shape)
        rec.label("frequencies")
        keys = list(T)
        for ij in keys:
            same = [kl for kl in keys if np.abs(T[kl][0] - T[ij][0]).max() < 1e-6 * sc]
            p = sum(pr[kl][0] for kl in same)
            fr = (np.abs(Y - T[ij][0]).max(1) < 1e-6 * sc).mean()
            leq(abs(fr - p), 0, 6 * np.sqrt(max(p * (1 - p), 0) / 200) + 6 / 200, "frequency of a component pair under the random map")
    if P.shape == (1, 1):
        A, b = ot.gaussian.bures_wasserstein_mapping(ms[0], mt[0], Cs[0], Ct[0])
        close(B, x @ A + b, 1e-8 * sc, "map between single Gaussians")


@st.composite
def bary(draw):
    K, n, d = draw(st.sampled_from([2, 3, 1])), draw(st.sampled_from([2, 3, 1])), draw(st.sampled_from([2, 1, 3]))
    ks = [draw(st.sampled_from([2, 3, 1])) for _ in range(K)]
    if draw(st.sampled_from([False, False, True])):
        ks = [n] * K
    return dict(K=K, n=n, d=d, ks=ks, k=draw(g.seeds), w=draw(st.sampled_from(["rand", "rand", "unif"])), wb=draw(st.sampled_from([None, "rand", "rand", "unif"])), proj=draw(st.sampled_from(["euclidean", "euclidean", "bures"])), it=draw(st.sampled_from([1, 1, 2, 5])), lam=draw(st.sampled_from(["rand", "unif", "onehot"])))


@facet(bary(), 150, 5000)
def barycenter(c, rec):
    """gmm_barycenter_fixed_point: every iteration is the documented fixed-point step, valid covariances, log of iterates, monotone cost when the plans are matchings, exact for one mixture."""
    r, d, n, K = g.rng(c["k"], 122), c["d"], c["n"], c["K"]
    m = [r.randn(k, d) * 2 for k in c["ks"]]
    C = [np.stack([mk("wishart", d, r) for _ in range(k)]) for k in c["ks"]]
    w = []
    for k in c["ks"]:
        u = r.rand(k) + 0.2 if c["w"] == "rand" else np.ones(k)
        w.append(u / u.sum())
    m0, C0 = r.randn(n, d), np.stack([mk("wishart", d, r) for _ in range(n)])
    lam = r.rand(K) + 0.1 if c["lam"] == "rand" else np.ones(K) if c["lam"] == "unif" else np.eye(K)[r.randint(K)]
    lam /= lam.sum()
    wb = np.ones(n) / n
    kw = dict(iterations=c["it"], barycentric_proj_method=c["proj"])
    if c["wb"]:
        u = r.rand(n) + 0.2 if c["wb"] == "rand" else np.ones(n)
        wb = u / u.sum()
        kw["w_bar"] = wb.copy()
    cp = lambda L: [x.copy() for x in L]
    with contextlib.redirect_stdout(io.StringIO()):
        mb, Cb, lg = og.gmm_barycenter_fixed_point(cp(m), cp(C), cp(w), m0.copy(), C0.copy(), lam.copy(), log=True, **kw)
        Z = og.gmm_barycenter_fixed_point(cp(m), cp(C), cp(w), m0.copy(), C0.copy(), lam.copy(), **kw)
    mb, Cb = arr(mb, (n, d)), arr(Cb, (n, d, d))
    close(Z[0], mb, 0, "means depend on log")
    close(Z[1], Cb, 0, "covariances depend on log")
    M, S = [np.asarray(x) for x in lg["means_its"]], [np.asarray(x) for x in lg["covs_its"]]
    ensure(len(M) == len(S) == c["it"] + 1, "number of recorded iterates")
    close(M[0], m0, 0, "first iterate")
    close(S[0], C0, 0, "first iterate")
    close(M[-1], mb, 0, "last iterate")
    close(S[-1], Cb, 0, "last iterate")
    rec.label(c["proj"], "weights %s" % c["wb"], "K=%d" % K)
    rec.nontrivial(K > 1 and n > 1 and d > 1 and max(c["ks"]) > 1)
    sc = max(np.abs(x).max() for x in C)
    match = c["w"] == "unif" and c["wb"] != "rand" and all(k == n for k in c["ks"])

    def obj(mm, CC):
        return sum(l * ref.lp_ot(wb, wk, cost(mm, mk_, CC, Ck))[0] for l, mk_, Ck, wk in zip(lam, m, C, w))
    prev = None
    for t in range(c["it"] + 1):
        for X in S[t]:
            close(X, X.T, 1e-8 * sc, "covariance is not symmetric")
            ensure(np.linalg.eigvalsh(X).min() > -1e-9 * sc, "covariance is not positive semi-definite")
        if t == c["it"]:
            break
        sel_m, sel_C, eu = [], [], True
        for mk_, Ck, wk in zip(m, C, w):
            D = cost(M[t], mk_, S[t], Ck)
            P = np.asarray(ot.emd(wb, wk, D))
            # unique optimum: reduced costs of unused cells bounded away from zero
            P2 = np.asarray(ot.emd(wb, wk, D + 1e-6 * D.max() * r.rand(*D.shape)))
            if np.abs(P - P2).max() > 1e-9:
                rec.skip("optimal component plan not unique")
                return
            cond = P / wb[:, None]
            sel_m.append(cond @ mk_)
            sel_C.append([np.einsum("j,jab->ab", q, Ck) for q in cond] if c["proj"] == "euclidean" else [bary_ref(Ck, q) for q in cond])
        for i in range(n):
            close(M[t + 1][i], sum(l * s[i] for l, s in zip(lam, sel_m)), 1e-8 * (1 + np.abs(M[t + 1]).max()), "mean of the fixed-point step")
            close(S[t + 1][i], bary_ref(np.stack([s[i] for s in sel_C]), lam), 1e-5 * sc, "covariance of the fixed-point step")
        if match:
            v = obj(M[t + 1], S[t + 1])
            if prev is None:
                prev = obj(M[t], S[t])
            leq(v, prev, 1e-6 * (1 + prev), "cost increases although all plans are matchings")
            prev = v
            rec.label("matchings")


def bary_ref(C, w, it=500):
    """Bures barycenter by the (globally convergent) map-averaging iteration."""
    if np.max(w) > 1 - 1e-12:
        return C[int(np.argmax(w))]
    B = np.einsum("i,iab->ab", w, C)
    for _ in range(it):
        R = root(B)
        Ri = np.linalg.inv(R)
        T = sum(wi * root(R @ Ci @ R) for wi, Ci in zip(w, C) if wi > 0)
        N = Ri @ T @ T @ Ri
        if np.abs(N - B).max() < 1e-11 * np.abs(B).max():
            return N
        B = N
    return B
