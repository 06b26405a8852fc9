"""C26: batched solvers, costs and losses equal solving each problem alone."""
import numpy as np
import ot
from hypothesis import strategies as st
from ot.batch import (bregman_log_projection_batch, bregman_projection_batch, dist_batch, entropy_batch, loss_linear_batch, loss_linear_samples_batch,
                      loss_quadratic_batch, loss_quadratic_samples_batch, solve_batch, solve_gromov_batch, solve_sample_batch, tensor_batch)
from scipy.special import logsumexp

import gen as g
import ref
from core import FACETS, arr, close, coupling, ensure, facet, leq, raises
from checks.c23 import quiet

FACETS.clear()
META = {
    "backends": ["torch"],
    "rule": "non-trivial when the batch holds at least two problems with at least two points on both sides",
    "assumptions": ["the number of iterations is fixed when an element is compared with itself alone: the stopping rule is shared by the batch"],
}


def stack(r, B, n, zeros, same):
    if same is None:
        return None
    out = []
    for i in range(B):
        w = r.dirichlet(np.ones(n)) + 1e-3
        if zeros and n > 1 and r.rand() < 0.5:
            w[r.randint(n)] = 0
        out.append(w / w.sum())
    return np.array(out)


def backs(c, *xs):
    if not c["torch"]:
        return xs
    import torch

    return tuple(None if x is None else torch.tensor(x) for x in xs)


def npy(x):
    return x.detach().numpy() if hasattr(x, "detach") else np.asarray(x)


@st.composite
def batch(draw):
    return dict(B=draw(st.integers(1, 4)), n=draw(st.integers(1, 6)), m=draw(st.integers(1, 6)), d=draw(st.integers(1, 3)), k=draw(g.seeds), torch=draw(st.sampled_from([False, False, True])), wa=draw(st.sampled_from([None, True])), wb=draw(st.sampled_from([None, True])), zeros=draw(st.booleans()))


def triv(rec, c):
    rec.nontrivial(c["B"] >= 2 and c["n"] >= 2 and c["m"] >= 2)


@facet(g.record(P=batch(), metric=st.sampled_from(["sqeuclidean", "euclidean", "minkowski", "kl", "SqEuclidean"]), p=g.around([1, 2, 3, 0.5], 0.5, 4), kind=st.sampled_from(["gauss", "same", "dup", "big"]), self_=st.booleans()), 600, 15000)
def costs(c, rec):
    """batched ground costs and linear losses equal their definition"""
    P = c["P"]
    r = g.rng(P["k"], 261)
    B, n, m, d, p, metric = P["B"], P["n"], P["m"], P["d"], c["p"], c["metric"]
    X, Y = r.randn(B, n, d), r.randn(B, m, d)
    if c["kind"] == "same":
        m = n
        Y = X.copy()
    elif c["kind"] == "dup":
        X = np.repeat(X[:, :1], n, 1) + 0.0
        Y = np.repeat(X[:, :1], m, 1)
    elif c["kind"] == "big":
        X, Y = X + 1e3, Y + 1e3
    if metric == "kl":
        X, Y = np.exp(X - X.max()), np.exp(Y - Y.max())
        X, Y = X / X.sum(-1, keepdims=True), Y / Y.sum(-1, keepdims=True)
        if c["kind"] == "big" and d > 1:
            Y[:, :, 0] = 0
            Y /= Y.sum(-1, keepdims=True)
    own = c["self_"]
    if own:
        Y, m = X, n
    Xb, Yb = backs(P, X, Y)
    kw = dict(metric=metric, p=p)
    M, bad = quiet(dist_batch, Xb, None if own else Yb, **kw)
    M = arr(npy(M), (B, n, m), what="batched cost")
    scale = 1 + max(np.abs(X).max(), np.abs(Y).max()) ** 2
    for i in range(B):
        if metric == "kl":
            with np.errstate(all="ignore"):
                T = np.where(Y[i][None] > 0, Y[i][None] * np.log(np.where(Y[i][None] > 0, Y[i][None], 1) / X[i][:, None]), 0).sum(-1)
            tol = 1e-7
        elif metric == "minkowski":
            T = (np.abs(X[i][:, None] - Y[i][None]) ** p).sum(-1) ** (1 / p)
            tol = 1e-9 * scale
        else:
            T = ((X[i][:, None] - Y[i][None]) ** 2).sum(-1)
            tol = 1e-13 * scale
            if metric == "euclidean":
                T = np.sqrt(T)
                tol = np.sqrt(tol)
        close(M[i], T, tol, "batched %s cost of element %d" % (metric, i))
        if metric == "euclidean" or metric.lower() == "sqeuclidean":
            close(M[i], ot.dist(X[i], Y[i], metric), tol * 2, "batched cost differs from ot.dist")
        one = npy(quiet(dist_batch, Xb[i : i + 1], Yb[i : i + 1], **kw)[0])[0]
        close(M[i], one, max(1e-9, tol), "element differs from itself alone")
    rec.label(metric, c["kind"])
    triv(rec, P)
    G = r.rand(B, n, m)
    Gb, Mb = backs(P, G, M)
    L = arr(npy(loss_linear_batch(Mb, Gb)), (B,), what="linear loss")
    close(L, [(M[i] * G[i]).sum() for i in range(B)], 1e-12 * (1 + M.sum()), "linear loss")
    if metric != "minkowski":
        close(npy(loss_linear_samples_batch(Xb, Yb, Gb, metric=metric)), L, 1e-9 * (1 + M.sum()), "linear loss of samples")
    E = arr(npy(entropy_batch(Gb)), (B,), what="entropy")
    close(E, [-ref.entropy(G[i]) for i in range(B)], 1e-12 * n * m, "entropy")
    raises(lambda: dist_batch(Xb, Yb, metric="nope"), "unknown metric was accepted", ValueError)


@facet(g.record(P=batch(), solver=st.sampled_from(["log_sinkhorn", "sinkhorn"]), rt=st.sampled_from(["entropy", "kl", "KL"]), reg=g.around([1.0, 0.2, 5.0, 1], 0.1, 10), grad=st.sampled_from(["envelope", "detach", "autodiff", None]), api=st.sampled_from(["M", "X", "proj"]), metric=st.sampled_from(["sqeuclidean", "euclidean", "minkowski"]), it=st.sampled_from([3000, 3000, 7, 1])), 900, 25000, weight=2)
def linear(c, rec):
    P = c["P"]
    r = g.rng(P["k"], 262)
    B, n, m, reg = P["B"], P["n"], P["m"], c["reg"]
    X, Y = r.randn(B, n, P["d"]), r.randn(B, m, P["d"])
    M = np.array([ref.cost_matrix(X[i], Y[i], "sqeuclidean" if c["metric"] == "sqeuclidean" else "euclidean") for i in range(B)])
    if c["api"] != "X":
        M = M * r.choice([0.1, 1.0], B)[:, None, None]
        if c["solver"] == "log_sinkhorn":
            M = M - 2.0 * r.rand()
    if M.max() / reg > 300:
        return rec.skip("kernel underflows")
    a, b = stack(r, B, n, P["zeros"], P["wa"]), stack(r, B, m, P["zeros"], P["wb"])
    A = np.ones((B, n)) / n if a is None else a
    Bb = np.ones((B, m)) / m if b is None else b
    ta, tb, tM, tX, tY = backs(P, a, b, M, X, Y)
    kw = dict(max_iter=c["it"], tol=0 if c["it"] < 100 else 1e-12)
    conv = c["it"] > 100
    skw = dict(solver=c["solver"], reg_type=c["rt"], grad=c["grad"], **kw)
    rec.label(c["api"], c["solver"], "converged" if conv else "few")
    triv(rec, P)

    def go(s):
        sl = lambda x: None if x is None else x[s]
        if c["api"] == "M":
            return quiet(solve_batch, sl(tM), reg, sl(ta), sl(tb), **skw)[0]
        if c["api"] == "X":
            return quiet(solve_sample_batch, sl(tX), sl(tY), reg, sl(ta), sl(tb), metric=c["metric"], **skw)[0]
        if c["solver"] == "log_sinkhorn":
            return quiet(bregman_log_projection_batch, -sl(tM) / reg, sl(ta), sl(tb), **kw)[0]
        K = np.exp(-M / reg)
        K = backs(P, K)[0]
        return quiet(bregman_projection_batch, sl(K), sl(ta), sl(tb), **kw)[0]

    def parts(res):
        if c["api"] == "proj":
            return npy(res["T"]), npy(res["potentials"][0]), npy(res["potentials"][1])
        return npy(res.plan), npy(res.potentials[0]), npy(res.potentials[1])

    al = slice(None)
    res = go(al)
    T, u, v = parts(res)
    T = arr(T, (B, n, m), what="batched plan")
    if c["api"] != "proj":
        V, VL = arr(npy(res.value), (B,), what="value"), arr(npy(res.value_linear), (B,), what="linear value")
    its = res["n_iters"] if c["api"] == "proj" else res.log["n_iter"]
    ok = not conv or its < c["it"] - 1
    for i in range(B):
        # each element alone, after the same number of iterations when few
        Ti, ui, vi = parts(go(slice(i, i + 1)))
        if ok:
            close(T[i], Ti[0], 1e-9, "element %d differs from itself alone" % i)
        with np.errstate(all="ignore"):
            R = np.exp(-M[i] / reg + u[i][:, None] + v[i][None]) if c["solver"] == "log_sinkhorn" else np.exp(-M[i] / reg) * u[i][:, None] * v[i][None]
        close(np.nan_to_num(R), T[i], 1e-9, "potentials do not give the plan")
        if conv and ok:
            coupling(T[i], A[i], Bb[i], 1e-7)
            with np.errstate(all="ignore"):
                Q, _, _, err = ref.gibbs_ot(A[i], Bb[i], M[i], reg)
            close(T[i], Q, 1e-7, "element %d is not the entropic plan" % i)
        if c["api"] != "proj":
            sc = 1 + np.abs(M[i]).max() + reg * 5
            lin = (T[i] * M[i]).sum()
            if c["metric"] != "sqeuclidean" and c["api"] == "X":
                sc = sc * 1e3  # (Euclidean distances near zero are accurate to the square root of eps)
            close(VL[i], lin, 1e-10 * sc, "linear value of element %d" % i)
            want = lin + reg * (ref.entropy(T[i]) if c["rt"] == "entropy" else (np.where(T[i] > 0, T[i] * (np.log(np.where(T[i] > 0, T[i], 1)) - np.log(np.where(T[i] > 0, A[i][:, None] * Bb[i][None], 1))), 0)).sum())
            close(V[i], want, 1e-8 * sc, "value of element %d" % i)
            Q, _, _, _ = None, 0, 0, 0
    # other order of the elements
    o = r.permutation(B)
    T2 = parts(go(list(o)))[0]
    close(T2, T[o], 1e-9, "result depends on the order of the batch")
    if c["api"] == "M":
        raises(lambda: solve_batch(tM, reg, ta, tb, solver="nope"), "unknown solver was accepted", ValueError)
    if c["api"] != "proj" and conv and ok and not P["zeros"]:
        i = r.randint(B)
        one, bad = quiet(ot.solve, M[i], A[i], Bb[i], reg=reg, reg_type=c["rt"], max_iter=5000, tol=1e-12)
        if not bad:
            close(one.plan, T[i], 1e-6, "batched plan differs from ot.solve")
            close(one.value, V[i], 1e-6 * sc, "batched value differs from ot.solve")
            close(one.value_linear, VL[i], 1e-6 * sc, "batched linear value differs from ot.solve")


def loss4(C1, C2, T, loss, logits):
    """sum_ijkl L(C1_ik, C2_jl) T_ij T_kl, per pair vector entries"""
    if C1.ndim == 2:
        C1, C2 = C1[..., None], C2[..., None]
    if loss == "sqeuclidean":
        L = ((C1[:, None, :, None] - C2[None, :, None]) ** 2).sum(-1)
    else:
        lC1 = C1 if logits else np.log(C1)
        with np.errstate(all="ignore"):
            e = np.where(C2 > 0, C2 * np.log(np.where(C2 > 0, C2, 1)), 0).sum(-1)
        L = e[None, :, None] - (C2[None, :, None] * lC1[:, None, :, None]).sum(-1)
    return L


@facet(g.record(P=batch(), loss=st.sampled_from(["sqeuclidean", "sqeuclidean", "kl"]), logits=st.booleans(), dim=st.sampled_from([3, 4]), sym=st.booleans(), arg=st.sampled_from([None, "given"]), fused=st.booleans(), alpha=g.around([0.5, 0.0, 1.0, 1, 0], 0.05, 0.95), reg=g.around([1.0, 0.1], 0.05, 3), it=st.sampled_from([1, 2, 5]), init=st.booleans(), grad=st.sampled_from(["envelope", "detach", "autodiff"]), mass=st.sampled_from([1.0, 1.0, 2.0])), 900, 25000, weight=2)
def gromov(c, rec):
    P = c["P"]
    r = g.rng(P["k"], 263)
    B, n, m, reg, loss = P["B"], P["n"], P["m"], c["reg"], c["loss"]
    d = P["d"]
    four = c["dim"] == 4 or loss == "kl"

    def mats(k):
        C = r.rand(B, k, k, d) if four else r.rand(B, k, k)
        if c["sym"]:
            C = C + C.transpose(0, 2, 1, *range(3, C.ndim))
        if loss == "kl":
            C = (C + 0.05) / (C + 0.05).sum(-1, keepdims=True)
        return C

    C1, C2 = mats(n), mats(m)
    if loss == "kl" and c["logits"]:
        C1 = np.log(C1)
    a, b = stack(r, B, n, False, P["wa"]), stack(r, B, m, False, P["wb"])
    if c["mass"] != 1 and a is not None and b is not None:
        a, b = a * c["mass"], b * c["mass"]
    A = np.ones((B, n)) / n if a is None else a
    Bb = np.ones((B, m)) / m if b is None else b
    M = r.rand(B, n, m) if c["fused"] else None
    al = c["alpha"] if c["fused"] else 1.0
    sym = None if c["arg"] is None else c["sym"]
    T0 = None
    if c["init"]:
        T0 = np.einsum("bi,bj->bij", A, Bb) / A.sum(1)[:, None, None] * np.exp(0.3 * r.randn(B, n, m))
    ta, tb, tC1, tC2, tM, tT0 = backs(P, a, b, C1, C2, M, T0)
    kw = dict(reg=reg, loss=loss, symmetric=sym, max_iter=c["it"], tol=0, max_iter_inner=40, tol_inner=0, grad=c["grad"], logits=c["logits"] if loss == "kl" else None)
    if c["fused"]:
        kw["alpha"] = al
    rec.label(loss, "fused" if c["fused"] else "gw", "sym" if c["sym"] else "asym")
    triv(rec, P)

    def go(s):
        sl = lambda x: None if x is None else x[s]
        return quiet(solve_gromov_batch, sl(tC1), sl(tC2), a=sl(ta), b=sl(tb), M=sl(tM), T_init=sl(tT0), **kw)[0]

    res = go(slice(None))
    T = arr(npy(res.plan), (B, n, m), what="batched Gromov plan")
    V, VQ, VL = (arr(npy(x), (B,), what="value") for x in (res.value, res.value_quad, res.value_linear))
    for i in range(B):
        L = loss4(C1[i], C2[i], T[i], loss, c["logits"])
        sc = 1 + np.abs(L).max() * c["mass"] ** 2
        q = np.einsum("ijkl,ij,kl->", L, T[i], T[i])
        lin = (M[i] * T[i]).sum() if c["fused"] else 0
        close(VQ[i], al * q, 1e-9 * sc, "quadratic value of element %d" % i)
        close(VL[i], (1 - al) * lin, 1e-9 * sc, "linear value of element %d" % i)
        close(V[i], al * q + (1 - al) * lin, 1e-9 * sc, "value of element %d" % i)
        close(T[i].sum(0), Bb[i], 1e-9, "column marginal of element %d" % i)
        # the iterations of the definition, element alone
        t = np.outer(A[i], Bb[i]) / A[i].sum() if T0 is None else T0[i]
        pre = np.outer(A[i], Bb[i])
        for k in range(c["it"]):
            # (gradient of the quadratic term with the constant part at the target marginals)
            if loss == "sqeuclidean":
                X1, X2 = (C1[i][..., None], C2[i][..., None]) if not four else (C1[i], C2[i])
                f1, f2, h1, h2 = (X1 ** 2).sum(-1), (X2 ** 2).sum(-1), 2 * X1, X2
            else:
                X2 = C2[i]
                f1, f2 = np.zeros((n, n)), (X2 * np.log(X2)).sum(-1)
                h1, h2 = (C1[i] if c["logits"] else np.log(C1[i])), X2
            f1, f2 = (f1 + f1.T) / 2, (f2 + f2.T) / 2
            cst = (f1 @ A[i])[:, None] + (f2 @ Bb[i])[None]
            dot = (np.einsum("ikd,kl,jld->ij", h1, t, h2) + np.einsum("kid,kl,ljd->ij", h1, t, h2)) / 2
            Mk = (1 - al) * (M[i] if c["fused"] else 0) + 2 * al * (cst - dot)
            K = -Mk / reg + np.log(t + (1e-15 if k == 0 else 0))
            v = np.zeros(m)
            for _ in range(40):
                u = np.log(A[i]) - logsumexp(K + v[None], axis=1)
                v = np.log(Bb[i]) - logsumexp(K + u[:, None], axis=0)
            t = np.exp(K + u[:, None] + v[None])
        close(T[i], t, 1e-7, "element %d does not follow the mirror descent iterations" % i)
    o = r.permutation(B)
    close(npy(go(list(o)).plan), T[o], 1e-8, "result depends on the order of the batch")
    i = r.randint(B)
    R1 = go(slice(i, i + 1))
    close(npy(R1.plan)[0], T[i], 1e-8, "element differs from itself alone")
    close(npy(R1.value)[0], V[i], 1e-7 * sc, "value differs from that of the element alone")


@facet(g.record(P=batch(), loss=st.sampled_from(["sqeuclidean", "kl"]), logits=st.booleans(), dim=st.sampled_from([3, 4]), sym=st.booleans(), arg=st.sampled_from(["true", "false", "none"]), re=st.booleans()), 500, 10000)
def losses(c, rec):
    """quadratic loss of arbitrary non-negative arrays"""
    P = c["P"]
    r = g.rng(P["k"], 264)
    B, n, m, loss, d = P["B"], P["n"], P["m"], c["loss"], P["d"]
    four = c["dim"] == 4 or loss == "kl"

    def mats(k):
        C = r.rand(B, k, k, d) if four else r.rand(B, k, k)
        if c["sym"]:
            C = C + C.transpose(0, 2, 1, *range(3, C.ndim))
        if loss == "kl":
            C = (C + 0.05) / (C + 0.05).sum(-1, keepdims=True)
            if d > 1 and r.rand() < 0.3:
                C[..., 0] = 0
        return C

    C2 = mats(m)
    C1 = mats(n)
    if loss == "kl":
        C1 = (C1 + 0.01) / (C1 + 0.01).sum(-1, keepdims=True)
        if c["logits"]:
            C1 = np.log(C1)
    T = r.rand(B, n, m)
    A, Bb = T.sum(2), T.sum(1)
    re = c["re"]
    if re:
        A, Bb = r.rand(B, n), r.rand(B, m)  # the constant term is recomputed from the plan
    sym = {"true": True, "false": False, "none": None}[c["arg"]]
    if not c["sym"] and sym:
        sym = False
    tA, tB, t1, t2, tT = backs(P, A, Bb, C1, C2, T)
    lg = c["logits"] if loss == "kl" else None
    V = arr(npy(loss_quadratic_samples_batch(tA, tB, t1, t2, tT, loss=loss, symmetric=sym, logits=lg, recompute_const=re)), (B,), what="quadratic loss")
    s2 = True if sym is None and c["sym"] else bool(sym)
    L = tensor_batch(tA, tB, t1, t2, symmetric=s2, loss=loss, logits=lg)
    W = arr(npy(loss_quadratic_batch(L, tT, recompute_const=re, symmetric=s2)), (B,), what="quadratic loss")
    for i in range(B):
        Li = loss4(C1[i], C2[i], T[i], loss, c["logits"])
        q = np.einsum("ijkl,ij,kl->", Li, T[i], T[i])
        sc = 1 + np.abs(Li).max() * T[i].sum() ** 2
        close(V[i], q, 1e-9 * sc, "quadratic loss of element %d" % i)
        close(W[i], q, 1e-9 * sc, "quadratic loss of the tensor of element %d" % i)
    rec.label(loss, "sym" if c["sym"] else "asym")
    triv(rec, P)
    raises(lambda: loss_quadratic_samples_batch(tA, tB, t1, t2, tT, loss=7), "unknown loss was accepted", ValueError)


@facet(g.record(P=batch(), spread=st.sampled_from([0.5, 2.0, 5.0]), logd=st.booleans(), grad=st.sampled_from(["detach", "last_step", "autodiff"]), default=st.booleans()), 250, 6000)
def projections(c, rec):
    """Bregman projections called directly: marginals (uniform by default), Gibbs form with the returned potentials, log-plan"""
    P = c["P"]
    r = g.rng(P["k"], 267)
    B, n, m = P["B"], P["n"], P["m"]
    K = r.randn(B, n, m) * c["spread"] / 2
    a, b = stack(r, B, n, False, P["wa"]), stack(r, B, m, False, P["wb"])
    f = bregman_log_projection_batch if c["logd"] else bregman_projection_batch
    Kb, ab, bb = backs(P, K if c["logd"] else np.exp(K), a, b)
    kw = {} if c["default"] else dict(tol=1e-11, max_iter=20000, grad=c["grad"])
    out = quiet(f, Kb, ab, bb, **kw)[0]
    tol = 1e-4 if c["default"] else 1e-9
    triv(rec, P)
    T = npy(out["T"])
    ensure(T.shape == (B, n, m), f"plan of shape {T.shape}")
    a = np.full((B, n), 1 / n) if a is None else a
    b = np.full((B, m), 1 / m) if b is None else b
    close(T.sum(2), a, tol, "projection: first marginal")
    close(T.sum(1), b, tol, "projection: second marginal")
    u, v = (npy(x) for x in out["potentials"])
    ensure(u.shape == (B, n) and v.shape == (B, m), "projection: shapes of the potentials")
    if not c["logd"]:
        u, v = np.log(u), np.log(v)
    else:
        close(npy(out["log_T"]), np.log(T), 1e-8, "projection: logarithm of the plan")
    close(np.exp(u[:, :, None] + K + v[:, None, :]), T, 1e-9, "projection: plan and potentials")
    for i in range(B):
        close(T[i], ref.gibbs_ot(a[i], b[i], -K[i], 1.0, tol=1e-12)[0], 10 * tol, f"projection of element {i}")
