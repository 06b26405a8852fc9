"""C29: automatic differentiation of solver values against finite differences."""
import numpy as np
import ot
import ot.coot
import torch
from hypothesis import strategies as st

import gen as g
import ref
from core import FACETS, close, ensure, facet
from checks import c28
from checks.c23 import quiet

FACETS.clear()
META = {
    "backends": ["torch"],
    "rule": "non-trivial when the one-sided slopes of the value agree (a smooth point) and the derivative along the drawn direction is not negligible",
    "assumptions": ["weights move along directions of zero total mass, symmetric structures along symmetric directions, covariances along symmetric directions",
                    "points where the two one-sided difference quotients, or those of two step sizes, disagree are not smooth points of the computed value and are skipped",
                    "values of local solvers (Gromov-Wasserstein) are compared only where the returned plan is stationary and the perturbed runs stay in the same basin (difference quotients agree)",
                    "'last_step' is the derivative of one more Sinkhorn iteration from the converged potentials, the other modes are the derivative of the value itself"],
}
G, B, U = ot.gromov, ot.bregman, ot.unbalanced
T64 = torch.float64
S = {}


def add(name, f, vars, tol=1.0, ok=None):
    """f(p) -> scalar; vars: inputs with a gradient; ok(p, log): value is the optimum"""
    S[name] = (f, vars.split(), tol, ok)


# kinds of directions
KIND = dict(a="w", b="w", w="w", w2="w", w3="w", ws="w", wf="w", vs="w", vf="w", A="cols", C1="sym", C2="sym", Mnn="sym", S1="sym", S2="sym", Ss="sym", St="sym",
            Mb="any", ab="w", bb="w", u="any", v="any", alpha="any", C1a="any", C2a="any", X="any", Y="any")


ENVELOPE = {"batch-%s-%s-envelope" % (s, t) for s in ("log_sinkhorn", "sinkhorn") for t in ("kl", "entropy")}


def direction(k, name, x, p):
    r = np.random.RandomState(k)
    d = r.randn(*x.shape)
    kind = KIND.get(name, "any")
    if kind == "w":
        d = d * x
        d = d - x * d.sum(-1, keepdims=True) / x.sum(-1, keepdims=True)
    elif kind == "cols":
        d = d * x
        d = d - x * d.sum(0) / x.sum(0)
    elif kind == "sym":
        d = (d + np.swapaxes(d, -1, -2)) / 2
        if name in ("C1", "C2", "Mnn"):
            d = d - np.diag(np.diag(d))
    return d / max(1e-12, np.abs(d).max())


L = dict(max_iter=20000, tol=1e-13)
SK = dict(numItermax=20000, stopThr=1e-13)
# exact transport
add("emd2", lambda p: ot.emd2(p.a, p.b, p.M), "a b M")
add("emd2-none", lambda p: ot.emd2([], [], p.M), "M")
add("emd2-log", lambda p: ot.emd2(p.a, p.b, p.M, log=True)[0], "a b M")
add("emd2-sparse", lambda p: ot.emd2(p.a, p.b, p.M.to_sparse()), "a b")
add("solve", lambda p: ot.solve(p.M, p.a, p.b).value, "a b M")
add("solve-linear", lambda p: ot.solve(p.M, p.a, p.b).value_linear, "a b M")
for metric in ("sqeuclidean", "euclidean", "cityblock"):
    add("solve_sample-" + metric, lambda p, metric=metric: ot.solve_sample(p.X, p.Y, p.a, p.b, metric=metric).value, "a b X Y")
add("wasserstein_1d", lambda p: ot.wasserstein_1d(p.x, p.y, p.a, p.b, p=2), "x y a b")
add("wasserstein_1d-p3", lambda p: ot.wasserstein_1d(p.x, p.y, p.a, p.b, p=3), "x y a b")
add("circle", lambda p: ot.wasserstein_circle(p.u, p.v, p.a, p.b, p=2), "u v a b", tol=10)
add("circle1", lambda p: ot.wasserstein_circle(p.u, p.v, p.a, p.b, p=1), "u v a b")
add("semidiscrete", lambda p: ot.semidiscrete_wasserstein2_unif_circle(p.u, p.a), "u a")
for q in (1, 2):
    add("sliced%d" % q, lambda p, q=q: ot.sliced_wasserstein_distance(p.X, p.Y, p.a, p.b, projections=p.proj, p=q), "X Y a b")
    add("max_sliced%d" % q, lambda p, q=q: ot.max_sliced_wasserstein_distance(p.X, p.Y, p.a, p.b, projections=p.proj, p=q), "X Y a b")
add("sphere", lambda p: ot.sliced_wasserstein_sphere(p.Xs3, p.Ys3, p.a, p.b, p=2, projections=p.proj3), "a b")
add("sphere1", lambda p: ot.sliced_wasserstein_sphere(p.Xs3, p.Ys3, p.a, p.b, p=1, projections=p.proj3), "a b")
add("multi_1d", lambda p: ot.lp.dmmot_monge_1dgrid_loss(p.A), "A")
# entropic
for meth in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"):
    add("sinkhorn2-" + meth, lambda p, meth=meth: ot.sinkhorn2(p.a, p.b, p.M, 1.0, method=meth, **SK), "a b M")
for typ in ("KL", "entropy"):
    for val in ("value", "value_linear"):
        add("solve-%s-%s" % (typ, val), lambda p, typ=typ, val=val: getattr(ot.solve(p.M, p.a, p.b, reg=1.0, reg_type=typ, **L), val), "a b M")
    add("solve-%s-envelope" % typ, lambda p, typ=typ: ot.solve(p.M, p.a, p.b, reg=1.0, reg_type=typ, grad="envelope", **L).value, "a b M")
    add("solve_sample-%s-envelope" % typ, lambda p, typ=typ: ot.solve_sample(p.X, p.Y, p.a, p.b, reg=1.0, reg_type=typ, grad="envelope", **L).value, "a b X Y")
    add("solve_sample-%s" % typ, lambda p, typ=typ: ot.solve_sample(p.X, p.Y, p.a, p.b, reg=1.0, reg_type=typ, **L).value, "a b X Y")
add("solve-KL-c-envelope", lambda p: ot.solve(p.M, p.a, p.b, reg=1.0, c=p.cref.detach(), grad="envelope", **L).value, "a b M")
add("solve-KL-c", lambda p: ot.solve(p.M, p.a, p.b, reg=1.0, c=p.cref.detach(), **L).value, "a b M")
add("empirical_sinkhorn2", lambda p: B.empirical_sinkhorn2(p.X, p.Y, 1.0, p.a, p.b, numIterMax=20000, stopThr=1e-13), "X Y a b")
add("divergence", lambda p: B.empirical_sinkhorn_divergence(p.X, p.Y, 5.0, p.a, p.b, numIterMax=20000, stopThr=1e-13), "X Y a b")
add("barycenter", lambda p: torch.sum(B.barycenter(p.A, p.Mnn, 1.0, p.w, numItermax=300, stopThr=0, warn=False) * p.costs), "A Mnn w")
add("conv_barycenter", lambda p: torch.sum(B.convolutional_barycenter2d(p.img, 0.1, p.w2, numItermax=200, stopThr=0, warn=False)[:, :1]), "img w2")
# unbalanced
for meth in ("sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"):
    for cost in ("linear", "total"):
        add("uot-%s-%s" % (meth, cost), lambda p, meth=meth, cost=cost: U.sinkhorn_unbalanced2(p.a, p.b, p.M, 1.0, (1.0, 3.0), method=meth, returnCost=cost, **SK), "a_ b_ M")
add("uot-entropy", lambda p: U.sinkhorn_unbalanced2(p.a, p.b, p.M, 1.0, 2.0, reg_type="entropy", returnCost="total", **SK), "a_ b_ M")
for div in ("kl", "l2"):
    add("mm-" + div, lambda p, div=div: U.mm_unbalanced2(p.a, p.b, p.M, 1.0, div=div, numItermax=100, stopThr=0), "a_ b_ M")
add("solve-unb", lambda p: ot.solve(p.M, p.a, p.b, unbalanced=1.0, max_iter=100, tol=0).value, "a_ b_ M")
add("solve-uot", lambda p: ot.solve(p.M, p.a, p.b, reg=1.0, unbalanced=1.0, **L).value, "a_ b_ M")
add("partial2", lambda p: ot.partial.partial_wasserstein2(p.a, p.b, p.M, m=0.6), "M")
# batches
for solver in ("log_sinkhorn", "sinkhorn"):
    for typ in ("kl", "entropy"):
        for grad, vs in (("autodiff", "Mb ab bb"), ("envelope", "Mb ab bb")):
            # weights: known finding
            add("batch-%s-%s-%s" % (solver, typ, grad), lambda p, solver=solver, typ=typ, grad=grad: torch.sum(ot.batch.solve_batch(p.Mb, 0.5, p.ab, p.bb, max_iter=500, tol=0, solver=solver, reg_type=typ, grad=grad).value), vs)
add("batch-sample", lambda p: torch.sum(ot.batch.solve_sample_batch(p.X[None], p.Y[None], 1.0, p.a[None], p.b[None], max_iter=500, tol=0).value), "X Y")
add("batch-linear-autodiff", lambda p: torch.sum(ot.batch.solve_batch(p.Mb, 0.5, p.ab, p.bb, max_iter=500, tol=0, grad="autodiff").value_linear), "Mb ab bb")
add("batch-gw-autodiff", lambda p: torch.sum(ot.batch.solve_gromov_batch(p.C1[None], p.C2[None], reg=3.0, a=p.a[None], b=p.b[None], max_iter=3, max_iter_inner=500, tol=0, tol_inner=0, grad="autodiff").value), "C1 C2 a b")
# Gaussians
add("bures", lambda p: ot.gaussian.bures_wasserstein_distance(p.m1, p.m2, p.S1, p.S2), "m1 m2 S1 S2")
add("empirical_bures", lambda p: ot.gaussian.empirical_bures_wasserstein_distance(p.X, p.Y, reg=0.1), "X Y")
add("gaussian_gw", lambda p: ot.gaussian.gaussian_gromov_wasserstein_distance(p.S1, p.S2), "S1 S2")
add("gmm_loss", lambda p: ot.gmm.gmm_ot_loss(p.ms, p.mt, p.Ss, p.St, p.w, p.w2), "ms mt Ss St w w2")
# ground costs
for metric in ("sqeuclidean", "euclidean", "cityblock", "cosine", "minkowski"):
    add("dist-" + metric, lambda p, metric=metric: torch.sum(ot.dist(p.X, p.Y, metric) * p.G0.detach()), "X Y")


KW = dict(max_iter=1000, tol_rel=1e-14, tol_abs=1e-14)
for loss in ("square_loss", "kl_loss"):
    o = 0.0 if loss == "square_loss" else 0.5
    add("gw2-" + loss, lambda p, loss=loss, o=o: G.gromov_wasserstein2(p.C1 + o, p.C2 + o, p.a, p.b, loss, **KW), "a b C1 C2", tol=10)
    add("fgw2-" + loss, lambda p, loss=loss, o=o: G.fused_gromov_wasserstein2(p.M, p.C1 + o, p.C2 + o, p.a, p.b, loss, alpha=p.alpha, **KW), "a b C1 C2 M alpha", tol=10)
    add("srgw2-" + loss, lambda p, loss=loss, o=o: G.semirelaxed_gromov_wasserstein2(p.C1 + o, p.C2 + o, p.a, loss, G0=p.a.detach()[:, None] * p.Rs.detach(), **KW), "C1 C2", tol=10)
    add("srfgw2-" + loss, lambda p, loss=loss, o=o: G.semirelaxed_fused_gromov_wasserstein2(p.M, p.C1 + o, p.C2 + o, p.a, loss, alpha=p.alpha, G0=p.a.detach()[:, None] * p.Rs.detach(), **KW), "C1 C2 M alpha", tol=10)
    add("pgw2-" + loss, lambda p, loss=loss, o=o: G.partial_gromov_wasserstein2(p.C1 + o, p.C2 + o, p.a, p.b, m=0.6, loss_fun=loss, numItermax=1000, tol=1e-14), "C1 C2", tol=10)
    add("pfgw2-" + loss, lambda p, loss=loss, o=o: G.partial_fused_gromov_wasserstein2(p.M, p.C1 + o, p.C2 + o, p.a, p.b, m=0.6, loss_fun=loss, alpha=p.alpha, numItermax=1000, tol=1e-14), "M C1 C2 alpha", tol=10)
add("gw2-asym", lambda p: G.gromov_wasserstein2(p.C1a, p.C2a, p.a, p.b, **KW), "a b C1a C2a", tol=10)
add("fgw2-float", lambda p: G.fused_gromov_wasserstein2(p.M, p.C1, p.C2, p.a, p.b, alpha=0.3, **KW), "a b C1 C2 M", tol=10)
add("solve_gromov", lambda p: ot.solve_gromov(p.C1, p.C2, p.M, p.a, p.b, alpha=0.5, max_iter=1000, tol=1e-14).value, "a b C1 C2 M", tol=10)
for s in ("PGD", "PPA"):
    add("egw2-" + s, lambda p, s=s: G.entropic_gromov_wasserstein2(p.C1, p.C2, p.a, p.b, epsilon=3.0, solver=s, max_iter=4, tol=0, **(dict(numItermax=3000, stopThr=1e-13))), "C1 C2 a b")
    add("efgw2-" + s, lambda p, s=s: G.entropic_fused_gromov_wasserstein2(p.M, p.C1, p.C2, p.a, p.b, epsilon=3.0, solver=s, max_iter=4, tol=0, **(dict(numItermax=3000, stopThr=1e-13))), "M C1 C2 a b")
add("coot2", lambda p: ot.coot.co_optimal_transport2(p.Xf, p.Yf, wx_samp=p.a, wy_samp=p.b, wx_feat=p.wf, wy_feat=p.vf, nits_bcd=1000, tol_bcd=1e-14), "Xf Yf a b wf vf", tol=10)
add("coot2-ent", lambda p: ot.coot.co_optimal_transport2(p.Xf, p.Yf, wx_samp=p.a, wy_samp=p.b, wx_feat=p.wf, wy_feat=p.vf, epsilon=2.0, nits_bcd=1000, tol_bcd=1e-14, tol_sinkhorn=1e-14, eval_bcd=1), "Xf Yf a b wf vf", tol=10)
for div in ("kl",):
    add("ucoot2-" + div, lambda p, div=div: G.unbalanced_co_optimal_transport2(p.Xf, p.Yf, wx_samp=p.a, wy_samp=p.b, wx_feat=p.wf, wy_feat=p.vf, reg_marginals=10, epsilon=1.0, divergence=div, unbalanced_solver="sinkhorn", max_iter=40, tol=1e-12, max_iter_ot=150, tol_ot=1e-13), "Xf Yf a_ b_ wf_ vf_", tol=10)
    add("fugw2-" + div, lambda p, div=div: G.fused_unbalanced_gromov_wasserstein2(p.C1, p.C2, p.a, p.b, reg_marginals=10, epsilon=1.0, divergence=div, unbalanced_solver="sinkhorn", alpha=0.5, M=p.M, max_iter=40, tol=1e-12, max_iter_ot=150, tol_ot=1e-13), "C1 C2 M a_ b_", tol=10)


class NS:
    pass


def arrays(c):
    r = g.rng(c["k"], 291)
    P = c28.extras(c28.problem(c))
    n, m = c["n"], c["m"]
    P["Rs"] = r.dirichlet(np.ones(m), n)
    P["alpha"] = np.array(0.2 + 0.6 * r.rand())
    P["C1a"], P["C2a"] = P["C1"] + r.rand(n, n), P["C2"] + r.rand(m, m)
    P["wf"], P["vf"] = r.dirichlet(np.ones(3) * 4) * 0.9 + 0.1 / 3, r.dirichlet(np.ones(4) * 4) * 0.9 + 0.1 / 4
    P["costs"] = r.randn(n)
    return P


def tens(P, var=None, d=None, h=0.0):
    p = NS()
    for k, v in P.items():
        setattr(p, k, torch.tensor(v if k != var or d is None else v + h * d, dtype=T64, requires_grad=d is None and k == var))
    return p


def check(name, c, rec):
    f, vs, tol, ok = S[name]
    if not vs:
        return rec.skip("no differentiable input")
    var = vs[c["j"] % len(vs)]
    P = arrays(c)
    free = var.endswith("_")
    var = var.rstrip("_")
    rec.label(name + "/" + var)
    d = direction(c["k"], var if not free else "any", P[var], P)
    if free:
        d = d * P[var]
    p = tens(P, var)
    val, bad = quiet(f, p)
    if bad and any("converge" in str(w).lower() for w in bad):
        return rec.skip("solver did not converge")
    if name in ENVELOPE and var != "Mb" and not val.requires_grad:
        return rec.known("batch-envelope-weights", "%s: no gradient with respect to %s" % (name, var))
    ensure(isinstance(val, torch.Tensor) and val.requires_grad, "%s: value does not depend on %s for automatic differentiation", name, var)
    x = getattr(p, var)
    (gr,) = torch.autograd.grad(val, x, allow_unused=True)
    ensure(gr is not None, "%s: no gradient with respect to %s", name, var)
    ensure(gr.shape == x.shape, "%s: gradient with respect to %s has shape %s instead of %s", name, var, tuple(gr.shape), tuple(x.shape))
    gr = gr.numpy()
    ensure(np.isfinite(gr).all(), "%s: gradient with respect to %s is not finite: %s", name, var, gr)
    slope = float((gr * d).sum())

    def F(h):
        with torch.no_grad():
            return float(quiet(f, tens(P, var, d, h))[0])

    f0 = float(val.detach())
    sc = 1 + abs(f0)
    est = []
    for h in (1e-4, 2e-5):
        up, dn = F(h), F(-h)
        est.append(((up - dn) / (2 * h), (up - f0) / h, (f0 - dn) / h))
    cen, fw, bw = est[1]
    t = 1e-4 * tol * max(sc, abs(cen))
    if abs(est[0][0] - cen) > t / 4 or abs(fw - bw) > 10 * t or abs(est[0][1] - est[0][2]) > 100 * t:
        return rec.skip("not a smooth point of the value")
    if abs(cen) > 10 * t:
        rec.nontrivial(True)
    if abs(slope - cen) > t and (name in ENVELOPE and var != "Mb" or name in ("circle", "sphere") and var in ("a", "b")):
        tag = "batch-envelope-weights" if name in ENVELOPE else "circle-weights"
        return rec.known(tag, "%s: derivative with respect to %s: %g instead of %g" % (name, var, slope, cen))
    close(slope, cen, t, "%s: derivative with respect to %s" % (name, var))


PROB = dict(n=st.integers(3, 6), m=st.integers(3, 6), d=st.integers(1, 3), k=g.seeds, j=st.integers(0, 7))


@facet(g.record(f=st.sampled_from(sorted(S)), **PROB), 1000, 20000, weight=4)
def values(c, rec):
    """derivative of the value along a random direction of one input"""
    check(c["f"], c, rec)


@facet(g.record(where=st.sampled_from(["solve", "log_sinkhorn", "sinkhorn"]), typ=st.sampled_from(["KL", "entropy"]), out=st.sampled_from(["value", "value_linear", "plan"]), reg=st.sampled_from([0.3, 1.0, 5.0]), **PROB), 200, 4000)
def last_step(c, rec):
    """'last_step' derivatives are those of one Sinkhorn iteration from the converged potentials"""
    P = arrays(c)
    reg, typ, out = c["reg"], c["typ"], c["out"]
    if c["where"] != "solve":
        P["M"] = P["M"] / P["M"].max() * 3
    var = "abM"[c["j"] % 3]
    rec.label(c["where"], out, var)
    d = direction(c["k"], var, P[var], P)
    W = np.random.RandomState(c["k"] + 1).randn(*P["M"].shape)

    def scalar(r):
        z = getattr(r, out)
        return (z * torch.tensor(W).reshape(z.shape)).sum() if out == "plan" else z.sum()

    def call(p, **kw):
        if c["where"] == "solve":
            return ot.solve(p.M, p.a, p.b, reg=reg, reg_type=typ, max_iter=20000, tol=1e-12, **kw)
        return ot.batch.solve_batch(p.M[None], reg, p.a[None], p.b[None], max_iter=3000, tol=1e-12, solver=c["where"], reg_type=typ, **kw)

    p = tens(P, var)
    r, bad = quiet(call, p, grad="last_step")
    if bad:
        return rec.skip("did not converge")
    val = scalar(r)
    (gr,) = torch.autograd.grad(val, getattr(p, var))
    slope = float((gr.numpy() * d).sum())
    with torch.no_grad():
        base, _ = quiet(call, tens(P), grad="detach")
    T0 = base.plan.numpy().reshape(P["M"].shape)
    # potentials of the converged plan, T0 = exp(u + v - M / reg)
    Z = np.log(T0) + P["M"] / reg
    u, v = Z.mean(1), Z.mean(0) - Z.mean()

    def F(h):
        Q = dict(P)
        Q[var] = P[var] + h * d
        logK = -Q["M"] / reg
        lse = lambda x, axis: np.log(np.exp(x - x.max()).sum(axis)) + x.max()
        if c["where"] == "solve":
            v1 = np.log(Q["b"]) - lse(logK + u[:, None], 0)
            u1 = np.log(Q["a"]) - lse(logK + v1[None], 1)
        else:
            u1 = np.log(Q["a"]) - lse(logK + v[None], 1)
            v1 = np.log(Q["b"]) - lse(logK + u1[:, None], 0)
        T = np.exp(logK + u1[:, None] + v1[None])
        if out == "plan":
            return (T * W).sum()
        lin = (T * Q["M"]).sum()
        if out == "value_linear":
            return lin
        return lin + reg * (T * np.log(T)).sum() if typ == "entropy" else lin + reg * (T * np.log(T / np.outer(Q["a"], Q["b"]))).sum()

    cen = (F(1e-5) - F(-1e-5)) / 2e-5
    t = 1e-4 * (1 + abs(float(val.detach())) + abs(cen))
    rec.nontrivial(abs(cen) > 10 * t)
    close(slope, cen, t, "last_step derivative of %s (%s, %s) with respect to %s" % (out, c["where"], typ, var))
