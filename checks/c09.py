"""C09: fixed-support barycenters are valid and optimal."""
import numpy as np
import ot
from hypothesis import strategies as st
from scipy.optimize import linprog
from scipy.special import logsumexp

import gen as g
import ref
from checks.c07 import run
from core import FACETS, arr, close, coupling, ensure, facet, leq, num

FACETS.clear()
META = {
    "backends": ["torch"],
    "rule": "non-trivial when the solver converged, there are >=2 different input histograms with positive weight on >=2 atoms",
    "assumptions": ["regularisation >= 0.1 of the cost range", "debiased barycenters: symmetric positive semi-definite kernels (squared Euclidean costs)", "cvxopt LP barycenter compared at its own tolerance (1e-5)",
                    "unmix compared with the documented objective only where the published scheme is exact (dictionary = identity, equal regularisations)"],
}


@st.composite
def weights(draw, k):
    kind = draw(st.sampled_from(["none", "int", "int", "onehot"]))
    if kind == "none":
        return None
    if kind == "onehot":
        i = draw(st.integers(0, k - 1))
        return [float(j == i) for j in range(k)]
    v = draw(st.lists(st.integers(0, 5), min_size=k, max_size=k))
    if sum(v) == 0:
        v[0] = 1
    return [x / sum(v) for x in v]


@st.composite
def hists(draw, lo=2, hi=8, kmax=4, zeros=True):
    n, k = draw(st.integers(lo, hi)), draw(st.integers(1, kmax))
    return dict(n=n, A=[draw(g.w_spec(n, zeros=zeros, skew=False)) for _ in range(k)], w=draw(weights(k)))


def mk_a(c):
    A = np.stack([g.mk_w(s) for s in c["A"]], 1)
    k = A.shape[1]
    w = np.ones(k) / k if c["w"] is None else np.array(c["w"])
    return A, w


def nontriv(rec, A, w):
    B = A[:, w > 0]
    rec.nontrivial(B.shape[1] > 1 and np.abs(B - B[:, :1]).max() > 1e-9)


def grid_cost(n, seed, kind):
    r = g.rng(seed, 31)
    if kind == "grid":
        x = np.arange(n) / max(1, n - 1)
        return (x[:, None] - x) ** 2
    if kind == "pts":
        x = r.randn(n, 2)
        M = ((x[:, None] - x) ** 2).sum(-1)
        return M / M.max()
    if kind == "abs":
        x = r.rand(n)
        return np.abs(x[:, None] - x)
    return r.rand(n, n)  # asymmetric


def potentials(A, q, M, reg):
    """Column potentials (g_k / reg) of entropic OT(a_k, q)."""
    out = []
    for k in range(A.shape[1]):
        with np.errstate(divide="ignore"):
            P, f, h, err = ref.gibbs_ot(A[:, k], q, M, reg, iters=5000, tol=1e-14)
        if err > 1e-9:
            return None
        out.append(h)
    return np.stack(out, 1)


def stationary(A, w, q, M, reg, tol, what, debias=False):
    """q minimises sum_k w_k OT_reg(a_k, q) (- OT_reg(q, q)/2): the weighted potentials are constant (equal the symmetric one)."""
    close(q.sum(), 1, 1e-6, f"{what}: mass of the barycenter")
    ensure(q.min() >= 0, "%s: negative entry", what)
    qq = np.maximum(q, 1e-300) / q.sum()
    G = potentials(A, qq, M, reg)
    if G is None:
        return False
    d = G @ w
    if debias:
        c = np.zeros(len(q))
        for _ in range(3000):
            c0, c = c, 0.5 * (c + np.log(qq) - logsumexp(-M / reg + c[:, None], axis=0))
            if np.abs(c - c0).max() < 1e-13:
                break
        d = d - c
    d = d - (qq * d).sum()
    close(qq * d, 0, tol, f"{what}: weighted dual potentials are not constant, not the barycenter")
    return True


@st.composite
def ent(draw):
    c = draw(hists())
    c.update(kind=draw(st.sampled_from(["grid", "pts", "abs", "asym"])), seed=draw(g.seeds), rel=draw(st.sampled_from([0.1, 0.2, 0.5, 1.0, 5.0])),
             method=draw(st.sampled_from(["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized", "sinkhorn_stabilized"])), tau=draw(st.sampled_from([1e10, 1.5, 3.0, 10.0, 100.0])), perm=draw(g.seeds), log=draw(st.booleans()))
    return c


@facet(ent(), 500, 15000)
def entropic(c, rec):
    """Entropic barycenter (plain, log, stabilised): weighted potentials of the K entropic problems sum to a constant; one-hot closed form; permutation equivariance."""
    A, w = mk_a(c)
    n = c["n"]
    M = grid_cost(n, c["seed"], c["kind"])
    reg = c["rel"] * max(np.ptp(M), 1e-3)
    me = c["method"]
    rec.label(me, c["kind"])
    kw = dict(method=me, stopThr=1e-11, numItermax=20000)
    if me == "sinkhorn_stabilized":
        kw["tau"] = c["tau"]
        kw["numItermax"] = 3000
        rec.label("tau:%g" % c["tau"])
    out, bad = run(ot.barycenter, A, M, reg, weights=c["w"] and np.array(c["w"]), log=c["log"], **kw)
    if bad:
        if me != "sinkhorn_stabilized" and c["rel"] >= 0.3:
            ensure(False, "%s reports no convergence on a well-conditioned problem", me)
        rec.skip("not converged")
        return
    q = arr(out[0] if c["log"] else out, (n,))
    nontriv(rec, A, w)
    stationary(A, w, q, M, reg, 1e-5, me)
    if np.sum(w > 0) == 1:
        a = A[:, int(np.argmax(w))]
        K = np.exp(-M / reg)
        close(q, K.T @ (a / K.sum(1)), 1e-8, f"{me}: all weight on one input")
    p = g.rng(c["perm"], 1).permutation(A.shape[1])
    q2, bad2 = run(ot.barycenter, A[:, p], M, reg, weights=w[p], **kw)
    if not bad2:
        close(arr(q2, (n,)), q, 1e-7, f"{me}: reordering the inputs changes the barycenter")


def settled(f, *a, **k):
    """The stopping rule of the debiased solvers ignores the debiasing term: iterate a fixed number of times and check that nothing moves."""
    q1, _ = run(f, *a, numItermax=100, stopThr=-1, **k)
    q2, _ = run(f, *a, numItermax=200, stopThr=-1, **k)
    return q2, bool(np.abs(q1 - q2).max() > 1e-6)


@st.composite
def deb(draw):
    c = draw(hists(zeros=False, hi=6, kmax=3))
    c.update(kind=draw(st.sampled_from(["grid", "pts"])), seed=draw(g.seeds), rel=draw(st.sampled_from([0.3, 1.0, 3.0])), method=draw(st.sampled_from(["sinkhorn", "sinkhorn_log"])))
    return c


@facet(deb(), 120, 4000)
def debiased(c, rec):
    """Debiased barycenter: weighted potentials equal the symmetric self-potential; of one input (or equal inputs) it is that input."""
    A, w = mk_a(c)
    n = c["n"]
    M = grid_cost(n, c["seed"], c["kind"])
    reg = c["rel"] * max(np.ptp(M), 1e-3)
    me = c["method"]
    rec.label(me)
    q, bad = settled(ot.bregman.barycenter_debiased, A, M, reg, weights=c["w"] and w, method=me)
    if bad:
        rec.skip("not converged")
        return
    q = arr(q, (n,))
    nontriv(rec, A, w)
    if me == "sinkhorn_log" or q.min() > 1e-8:
        stationary(A, w, q, M, reg, 1e-4, f"debiased {me}", debias=True)
    if np.sum(w > 0) == 1:
        a = A[:, int(np.argmax(w))]
        if a.min() > 1e-3:  # towards zero entries convergence is only sublinear
            close(q, a, 1e-3, f"debiased {me}: barycenter of one measure is not that measure")


@st.composite
def conv(draw):
    z = draw(st.booleans())
    w, h, k = draw(st.integers(1, 5)), draw(st.integers(1, 5)), draw(st.integers(1, 3))
    return dict(w=draw(weights(k)), W=w, H=h, A=[draw(g.w_spec(w * h, zeros=z, skew=False)) for _ in range(k)], reg=draw(st.sampled_from([0.2, 0.5, 1.0])),
                method=draw(st.sampled_from(["sinkhorn", "sinkhorn_log"])), deb=draw(st.booleans()))


@facet(conv(), 250, 6000)
def convolutional(c, rec):
    """Convolutional barycenters on a W x H image equal the barycenter for the explicit separable squared cost on [0,1]^2."""
    A, w = mk_a(c)
    W, H = c["W"], c["H"]
    x, y = np.linspace(0, 1, W), np.linspace(0, 1, H)
    M = ((x[:, None] - x) ** 2)[:, None, :, None] + ((y[:, None] - y) ** 2)[None, :, None, :]
    M = M.reshape(W * H, W * H)
    me = c["method"]
    rec.label(me, "debiased" if c["deb"] else "plain")
    imgs = A.T.reshape(-1, W, H)
    f = ot.bregman.convolutional_barycenter2d_debiased if c["deb"] else ot.bregman.convolutional_barycenter2d
    q, bad = (settled if c["deb"] else run)(f, imgs, c["reg"], weights=c["w"] and w, method=me, **({} if c["deb"] else dict(stopThr=1e-11, numItermax=10000)))
    if bad:
        rec.skip("not converged")
        return
    q = arr(q, (W, H)).ravel()
    nontriv(rec, A, w)
    rec.label("rectangular" if W != H else "square")
    if not c["deb"] or q.min() > 1e-8:
        stationary(A, w, q, M, c["reg"], 1e-4 if c["deb"] else 1e-6, f"convolutional {me}", debias=c["deb"])


@st.composite
def lpb(draw):
    c = draw(hists(hi=6, kmax=3))
    c.update(M=draw(g.m_spec(c["n"], c["n"], scale=False)), solver=draw(st.sampled_from(["highs-ipm", "highs", "highs-ds", None, "glpk"])), log=draw(st.booleans()))
    return c


@facet(lpb(), 200, 5000)
def linear_program(c, rec):
    """lp.barycenter: histogram of the input mass minimising the weighted sum of exact OT costs (own joint LP)."""
    A, w = mk_a(c)
    n, k = A.shape
    M = g.mk_m(c["M"])
    solver = c["solver"]
    if solver == "glpk":
        solver = "highs"
    out = ot.lp.barycenter(A, M, weights=c["w"] and w, solver=solver, log=c["log"])
    q = arr(out[0] if c["log"] else out, (n,))
    tol = 1e-7 if solver is not None else 1e-4
    s = max(1.0, np.abs(M).max())
    rec.label(str(solver))
    nontriv(rec, A, w)
    leq(-q, 0, tol, "negative entry in the LP barycenter")
    close(q.sum(), 1, tol, "mass of the LP barycenter")
    q = np.maximum(q, 0)
    q = q / q.sum()
    val = sum(w[i] * ref.lp_ot(A[:, i], q, M)[0] for i in range(k) if w[i] > 0)
    # own joint LP: plans P_i with rows a_i and common column marginal
    nv = k * n * n + n
    E, r = [], []
    for i in range(k):
        for s_ in range(n):
            e = np.zeros(nv)
            e[i * n * n + s_ * n:i * n * n + (s_ + 1) * n] = 1
            E.append(e)
            r.append(A[s_, i])
        for t in range(n):
            e = np.zeros(nv)
            e[i * n * n + t:(i + 1) * n * n:n] = 1
            e[k * n * n + t] = -1
            E.append(e)
            r.append(0)
    cost = np.concatenate([w[i] * M.ravel() for i in range(k)] + [np.zeros(n)])
    best = linprog(cost, A_eq=np.array(E), b_eq=np.array(r), bounds=(0, None), method="highs")
    close(val, best.fun, 10 * tol * s, "LP barycenter is not optimal")
    if c["log"] and solver is not None:
        close(out[1].fun, best.fun, 1e-6 * s, "reported LP value")


@st.composite
def unb(draw):
    c = draw(hists(zeros=False))
    c.update(kind=draw(st.sampled_from(["grid", "pts", "abs", "asym"])), seed=draw(g.seeds), rel=draw(st.sampled_from([0.1, 0.3, 1.0])), rm=draw(st.sampled_from([0.3, 1.0, 5.0])),
             mass=[draw(st.sampled_from([0.3, 1.0, 2.0])) for _ in c["A"]], method=draw(st.sampled_from(["sinkhorn", "sinkhorn_stabilized"])), tau=draw(st.sampled_from([1e3, 1.5, 3.0, 10.0])))
    return c


@facet(unb(), 250, 6000)
def unbalanced(c, rec):
    """Unbalanced barycenter: q = sum_k w_k P_k^T 1 where P_k solves the entropic KL-penalised problem (a_k, q); one input: closed optimality."""
    A, w = mk_a(c)
    A = A * np.array(c["mass"])
    n, k = A.shape
    M = grid_cost(n, c["seed"], c["kind"])
    reg = c["rel"] * max(np.ptp(M), 1e-3)
    rm = c["rm"]
    me = c["method"]
    kw = dict(tau=c["tau"]) if me == "sinkhorn_stabilized" else {}
    rec.label(me, "tau:%g" % c["tau"] if kw else "plain")
    q, bad = run(ot.barycenter_unbalanced, A, M, reg, rm, method=me, weights=c["w"] and w, numItermax=5000, stopThr=1e-13, **kw)
    if bad:
        rec.skip("not converged")
        return
    q = arr(q, (n,))
    ensure(q.min() > 0, "non-positive entry")
    fi = rm / (rm + reg)
    tot = np.zeros(n)
    for i in range(k):
        f, h = np.zeros(n), np.zeros(n)
        for _ in range(2000):
            f = fi * (np.log(A[:, i]) - logsumexp(-M / reg + h[None], axis=1))
            h0, h = h, fi * (np.log(q) - logsumexp(-M / reg + f[:, None], axis=0))
            if np.abs(h - h0).max() < 1e-13:
                break
        P = np.exp(f[:, None] + h[None] - M / reg)
        tot += w[i] * P.sum(0)
    rec.nontrivial(np.sum(w > 0) > 1)
    close(tot, q, 1e-6, f"{me}: barycenter is not the weighted mean of the second marginals", rtol=1e-6)
    if np.any(w == 0) and np.sum(w > 0) >= 1:
        q2, bad2 = run(ot.barycenter_unbalanced, A[:, w > 0], M, reg, rm, method=me, weights=w[w > 0], numItermax=5000, stopThr=1e-13, **kw)
        if not bad2:
            close(arr(q2, (n,)), q, 1e-7, "inputs of zero weight matter", rtol=1e-6)


@st.composite
def jc(draw):
    nd, ncl, d = draw(st.integers(1, 3)), draw(st.integers(2, 3)), draw(st.integers(1, 2))
    return dict(ns=[draw(st.integers(ncl, 7)) for _ in range(nd)], nt=draw(st.integers(2, 7)), ncl=ncl, d=d, k=draw(g.seeds), rel=draw(st.sampled_from([0.1, 0.5, 2.0])), off=draw(st.sampled_from([0, 0, 1, 5])), log=draw(st.booleans()))


@facet(jc(), 200, 5000)
def label_proportions(c, rec):
    """JCPOT: proportions sum to one and are the fixed point (geometric mean over domains of the class masses of plans whose rows are D2^T h and columns uniform)."""
    r = g.rng(c["k"], 33)
    Xs = [r.randn(n, c["d"]) for n in c["ns"]]
    Ys = []
    for n in c["ns"]:
        y = np.concatenate([np.arange(c["ncl"]), r.randint(0, c["ncl"], n - c["ncl"])])
        Ys.append(r.permutation(y) + c["off"])
    Xt = r.randn(c["nt"], c["d"]) + 0.5
    Ms = [ref.cost_matrix(X, Xt) for X in Xs]
    reg = c["rel"] * max(M.max() for M in Ms)
    (h, lg), bad = run(ot.bregman.jcpot_barycenter, Xs, [y.copy() for y in Ys], Xt, reg, numItermax=20000, stopThr=1e-13, log=True)
    if bad:
        rec.skip("not converged")
        return
    rec.nontrivial(len(Xs) > 1)
    rec.label("domains:%d" % len(Xs))
    h = arr(h, (c["ncl"],))
    close(h.sum(), 1, 1e-9, "proportions sum")
    ensure(h.min() >= 0, "negative proportion")
    cls = [np.array([(y - c["off"] == i) for i in range(c["ncl"])], float) for y in Ys]
    for i, M in enumerate(Ms):
        a = cls[i].T @ (h / cls[i].sum(1))
        with np.errstate(divide="ignore"):
            P, f, v, err = ref.gibbs_ot(a, np.ones(c["nt"]) / c["nt"], M, reg)
        if err > 1e-9:
            return
        G = arr(lg["gamma"][i], M.shape)
        close(G, P, 1e-5, "returned coupling is not the entropic plan for the estimated proportions")
    # the published iteration, written out
    Ks = [np.exp(-M / reg) for M in Ms]
    old = np.ones(c["ncl"])
    for _ in range(20000):
        Ks = [K / K.sum(0) / c["nt"] for K in Ks]
        b = np.exp(np.mean([np.log(C @ K.sum(1)) for C, K in zip(cls, Ks)], axis=0))
        Ks = [K * (C.T @ (b / C.sum(1)) / K.sum(1))[:, None] for C, K in zip(cls, Ks)]
        if np.linalg.norm(b - old) < 1e-13:
            break
        old = b
    close(h, b / b.sum(), 1e-8, "not the limit of the published projections")
    h2, _ = run(ot.bregman.jcpot_barycenter, Xs, [y.copy() for y in Ys], Xt, reg, numItermax=20000, stopThr=1e-13)
    close(arr(h2), h, 1e-12, "log changes the result")
    p = r.permutation(len(Xs))
    h3, bad3 = run(ot.bregman.jcpot_barycenter, [Xs[i] for i in p], [Ys[i].copy() for i in p], Xt, reg, numItermax=20000, stopThr=1e-13)
    if not bad3:
        close(arr(h3), h, 1e-7, "order of the domains changes the proportions")


@st.composite
def um(draw):
    n, k, p = draw(st.integers(2, 6)), draw(st.integers(2, 4)), draw(st.integers(1, 4))
    return dict(n=n, k=k, p=p, seed=draw(g.seeds), a=draw(g.w_spec(n, zeros=False, skew=False)), ident=draw(st.booleans()), alpha=draw(st.sampled_from([0.01, 0.2, 0.5, 0.9])), reg=draw(st.sampled_from([0.1, 0.5, 1.0])))


@facet(um(), 200, 5000)
def unmixing(c, rec):
    """unmix: weights on the simplex, equivariant under reordering the atoms; with the identity dictionary the minimiser of the documented objective."""
    r = g.rng(c["seed"], 34)
    n, k, p = c["n"], c["k"], c["p"]
    a = g.mk_w(c["a"])
    if c["ident"]:
        k = n
        D = np.eye(n)
    else:
        D = r.rand(n, k) + 0.05
        D /= D.sum(0)
    M, M0 = r.rand(n, n), r.rand(k, p)
    h0 = r.rand(p) + 0.1
    h0 /= h0.sum()
    reg = c["reg"]
    kw = dict(numItermax=10000, stopThr=1e-13)
    h, bad = run(ot.bregman.unmix, a, D, M, M0, h0, reg, reg, c["alpha"], **kw)
    if bad:
        rec.skip("not converged")
        return
    h = arr(h, (k,))
    rec.nontrivial(p > 1)
    ensure(h.min() >= 0, "negative weight")
    close(h.sum(), 1, 1e-6, "weights do not sum to one")
    s = r.permutation(k)
    h2, bad2 = run(ot.bregman.unmix, a, D[:, s], M, M0[s], h0, reg, reg, c["alpha"], **kw)
    if not bad2:
        close(arr(h2), h[s], 1e-8, "reordering the atoms changes the unmixing")
    if c["ident"]:
        rec.label("identity dictionary")
        # rows of M / M0 index the unknown: transpose so that it is the column marginal
        q = h / h.sum()
        G = potentials(a[:, None], q, M.T, reg)
        G0 = potentials(h0[:, None], q, M0.T, reg)
        if G is None or G0 is None:
            return
        al = c["alpha"]
        dev = []
        for t in (1 - al, al):
            d = t * G[:, 0] + (1 - t) * G0[:, 0]
            dev.append(np.abs(q * (d - (q * d).sum())).max())
        if dev[0] > 1e-6:
            msg = f"not the minimiser of (1-alpha) W(a, h) + alpha W0(h0, h) (alpha={al}, deviation {dev[0]:.3g})"
            if dev[1] <= 1e-6:
                rec.known("unmix-alpha-swapped", msg + " but of alpha W(a, h) + (1-alpha) W0(h0, h)")
            else:
                ensure(False, msg)
