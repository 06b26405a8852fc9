"""C28: solvers give the same answer on every array library and dtype."""
import numpy as np
import ot
import ot.coot
from hypothesis import strategies as st
from ot.backend import get_backend, get_backend_list

import gen as g
import ref
from core import FACETS, close, ensure, facet
from checks.c23 import quiet

FACETS.clear()
META = {
    "backends": ["torch", "jax", "tf"],
    "rule": "non-trivial when both measures have at least three points",
    "assumptions": ["jax with 64-bit enabled and tensorflow with its NumPy behaviour; solvers that the test suite excludes for a library because of array assignment are not run there",
                    "problems are generic (no ties), so that optimal plans are unique; in single precision the tolerance is 2e-3 of the scale"],
}
NX = {}


def setup():
    for b in get_backend_list():
        NX[b.__name__] = b
    assert set(NX) == {"numpy", "torch", "jax", "tf"}, NX


def problem(c):
    """generic problem as float64 arrays; integer valued costs when c['int']"""
    r = g.rng(c["k"], 281)
    n, m, d = c["n"], c["m"], c["d"]
    P = dict(X=r.randn(n, d), Y=r.randn(m, d) + 0.3)
    P["a"], P["b"] = (r.dirichlet(np.ones(k) * 4) * 0.9 + 0.1 / k for k in (n, m))
    P["M"] = ref.cost_matrix(P["X"], P["Y"])
    P["C1"], P["C2"] = (ref.cost_matrix(Z, Z, "euclidean") for Z in (P["X"], P["Y"]))
    P["x"], P["y"] = P["X"][:, 0], P["Y"][:, 0]
    P["u"], P["v"] = r.rand(n), r.rand(m)
    P["proj"] = (lambda Z: Z / np.sqrt((Z ** 2).sum(0)))(r.randn(d, 4))
    P["A"] = r.dirichlet(np.ones(n), 3).T * 0.9 + 0.1 / n
    P["w"] = r.dirichlet(np.ones(3) * 3)
    P["Mnn"] = ref.cost_matrix(P["X"], P["X"])
    P["S1"], P["S2"] = (np.cov(r.randn(20, d).T).reshape(d, d) + 0.1 * np.eye(d) for _ in range(2))
    P["m1"], P["m2"] = r.randn(d), r.randn(d)
    P["ms"], P["Ss"] = r.randn(3, d), np.array([np.cov(r.randn(20, d).T).reshape(d, d) + 0.1 * np.eye(d) for _ in range(3)])
    P["mt"], P["St"] = r.randn(2, d), np.array([np.cov(r.randn(20, d).T).reshape(d, d) + 0.1 * np.eye(d) for _ in range(2)])
    P["w2"] = r.dirichlet(np.ones(2) * 3)
    P["G0"] = np.outer(P["a"], P["b"])
    P["img"] = (lambda Z: Z / Z.sum((1, 2), keepdims=True))(r.rand(2, 4, 5) + 0.1)
    P["Xs3"] = r.randn(n, 3)
    P["Xs3"] /= np.sqrt((P["Xs3"] ** 2).sum(1, keepdims=True))
    P["Ys3"] = r.randn(m, 3)
    P["Ys3"] /= np.sqrt((P["Ys3"] ** 2).sum(1, keepdims=True))
    P["proj3"] = np.array([np.linalg.qr(r.randn(3, 2))[0] for _ in range(4)])
    P["Mb"], P["ab"], P["bb"] = r.rand(2, n, m), r.dirichlet(np.ones(n), 2) * 0.9 + 0.1 / n, r.dirichlet(np.ones(m), 2) * 0.9 + 0.1 / m
    P["Z"] = r.randn(4, d)
    P["Gs"] = P["a"][:, None] * r.dirichlet(np.ones(m), n)
    P["cref"] = r.rand(n, m) + 0.2
    if c.get("int"):
        for k in ("M", "C1", "C2", "Mnn"):
            hi = r.permutation(60)[: P[k].size] + 1 if P[k].size <= 60 else r.randint(1, 60, P[k].size)
            C = hi.reshape(P[k].shape)
            P[k] = (np.triu(C, 1) + np.triu(C, 1).T if k in ("C1", "C2", "Mnn") else C).astype(float)
        for k in ("X", "Y", "x", "y"):
            P[k] = np.round(9 * P[k])
        for k in ("x", "y"):
            P[k] = np.array([7 * i + 3 * (k == "y") for i in r.permutation(len(P[k]))], dtype=float)
    return P


def seeded(nx, s):
    nx.seed(s)


S = {}


def solver(name=None, no=(), tol=1.0, f4=True, ints=False, skip4=False):
    """register a solver: no = libraries excluded by the test suite, f4 = compare values in single precision, ints = accepts integer costs"""

    def deco(f):
        S[name or f.__name__] = (f, no, tol, f4, ints)
        return f

    return deco


def add(name, f, **kw):
    solver(name, **kw)(f)


G = ot.gromov
B = ot.bregman
U = ot.unbalanced
J = ("jax", "tf")
T = ("tf",)
# linear programs
add("emd", lambda p, nx: ot.emd(p.a, p.b, p.M), ints=True)
add("emd2", lambda p, nx: ot.emd2(p.a, p.b, p.M), ints=True)
add("emd2-log", lambda p, nx: (lambda v, l: (v, l["G"], l["u"] - l["u"][0], l["v"] + l["u"][0]))(*ot.emd2(p.a, p.b, p.M, log=True, return_matrix=True)), ints=True)
add("solve-exact", lambda p, nx: ot.solve(p.M, p.a, p.b), ints=True)
add("solve_sample", lambda p, nx: ot.solve_sample(p.X, p.Y, p.a, p.b))
add("emd_1d", lambda p, nx: ot.emd_1d(p.x, p.y, p.a, p.b))
add("emd2_1d", lambda p, nx: ot.emd2_1d(p.x, p.y, p.a, p.b, p=1.5, metric="minkowski"))
add("wasserstein_1d", lambda p, nx: ot.wasserstein_1d(p.x, p.y, p.a, p.b, p=2))
add("wasserstein_circle", lambda p, nx: ot.wasserstein_circle(p.u, p.v, p.a, p.b, p=2), no=J)
add("wasserstein_circle1", lambda p, nx: ot.wasserstein_circle(p.u, p.v, p.a, p.b, p=1), no=J)
add("semidiscrete_circle", lambda p, nx: ot.semidiscrete_wasserstein2_unif_circle(p.u, p.a))
add("linear_circular", lambda p, nx: ot.linear_circular_ot(p.u, p.v, p.a, p.b), no=T)
add("dist", lambda p, nx: (ot.dist(p.X, p.Y), ot.dist(p.X, p.Y, "cityblock"), ot.dist(p.X, p.Y, "cosine"), ot.dist(p.X, p.Y, "euclidean"), ot.dist(p.X, p.Y, "minkowski", p=3)))
add("center_ot_dual", lambda p, nx: ot.lp._network_simplex.center_ot_dual(p.u, p.v, p.a, p.b))
# entropic
for meth in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized", "sinkhorn_epsilon_scaling", "greenkhorn"):
    add("sinkhorn-" + meth, lambda p, nx, meth=meth: ot.sinkhorn(p.a, p.b, p.M, 1.0, method=meth, numItermax=3000, stopThr=1e-7), no=J if meth not in ("sinkhorn", "sinkhorn_log") else (), ints=True, tol=20 if meth in ("greenkhorn", "sinkhorn_epsilon_scaling") else 1)
    if meth not in ("greenkhorn", "sinkhorn_epsilon_scaling"):
        add("sinkhorn2-" + meth, lambda p, nx, meth=meth: ot.sinkhorn2(p.a, p.b, p.M, 1.0, method=meth, numItermax=3000, stopThr=1e-7), no=J if meth not in ("sinkhorn", "sinkhorn_log") else (), ints=True)
add("sinkhorn-multi", lambda p, nx: ot.sinkhorn2(p.A[:, 0], p.A[:, 1:], p.Mnn, 1.0, numItermax=2000), ints=True)
add("empirical_sinkhorn", lambda p, nx: B.empirical_sinkhorn(p.X, p.Y, 1.0, p.a, p.b, stopThr=1e-7))
add("empirical_sinkhorn2", lambda p, nx: B.empirical_sinkhorn2(p.X, p.Y, 1.0, p.a, p.b, stopThr=1e-7))
add("empirical_sinkhorn-lazy", lambda p, nx: (lambda f, h: f[:, None] + h[None])(*B.empirical_sinkhorn(p.X, p.Y, 1.0, p.a, p.b, isLazy=True, batchSize=2, stopThr=1e-7)), no=J)
add("sinkhorn_divergence", lambda p, nx: B.empirical_sinkhorn_divergence(p.X, p.Y, 1.0, p.a, p.b, stopThr=1e-7))
add("nystroem", lambda p, nx: B.empirical_sinkhorn_nystroem2(p.X, p.Y, 3.0, anchors=2, a=p.a, b=p.b, random_state=0, numItermax=100), no=T, tol=1e3)
add("screenkhorn", lambda p, nx: B.screenkhorn(p.a, p.b, p.M, 1.0, ns_budget=len(p.a), nt_budget=len(p.b), uniform=False, maxiter=100), no=J, f4=False, tol=1e3)
add("barycenter", lambda p, nx: B.barycenter(p.A, p.Mnn, 1.0, p.w, numItermax=200, stopThr=0))
add("barycenter-log", lambda p, nx: B.barycenter(p.A, p.Mnn, 1.0, p.w, method="sinkhorn_log", numItermax=200, stopThr=0), no=J)
add("barycenter-stab", lambda p, nx: B.barycenter(p.A, p.Mnn, 1.0, p.w, method="sinkhorn_stabilized", numItermax=200, stopThr=0), no=J)
add("barycenter_debiased", lambda p, nx: B.barycenter_debiased(p.A, p.Mnn, 1.0, p.w, numItermax=200, stopThr=0))
add("barycenter_debiased-log", lambda p, nx: B.barycenter_debiased(p.A, p.Mnn, 1.0, p.w, method="sinkhorn_log", numItermax=200, stopThr=0), no=J)
add("conv_barycenter", lambda p, nx: B.convolutional_barycenter2d(p.img, 0.1, p.w2, numItermax=200, stopThr=0), no=T)
add("conv_barycenter-log", lambda p, nx: B.convolutional_barycenter2d(p.img, 0.1, p.w2, method="sinkhorn_log", numItermax=200, stopThr=0), no=J)
add("conv_debiased", lambda p, nx: B.convolutional_barycenter2d_debiased(p.img, 0.1, p.w2, numItermax=100, stopThr=0), no=T)
add("unmix", lambda p, nx: B.unmix(p.A[:, 0], p.A, p.Mnn, p.M33, p.w, 1.0, 1.0, alpha=0.01, numItermax=50))
add("free_support", lambda p, nx: ot.lp.free_support_barycenter([p.X, p.Y], [p.a, p.b], p.Z, numItermax=3, stopThr=-1))
add("generic_support", lambda p, nx: ot.lp.free_support_barycenter_generic_costs([p.X, p.Y], [p.a, p.b], p.Z, [lambda x, y: ot.dist(x, y)] * 2, ground_bary=lambda y: (y[0] + y[1]) / 2, numItermax=2, stopThr=-1), no=J)
add("free_support_sinkhorn", lambda p, nx: B.free_support_sinkhorn_barycenter([p.X, p.Y], [p.a, p.b], p.Z, 1.0, numItermax=3, stopThr=-1))
add("gcg", lambda p, nx: ot.optim.gcg(p.a, p.b, p.M, 1.0, 0.5, lambda G: nx.sum(G ** 2) / 2, lambda G: G, numItermax=10), tol=1e3)
add("cg", lambda p, nx: ot.optim.cg(p.a, p.b, p.M, 1.0, lambda G: nx.sum(G ** 2) / 2, lambda G: G, numItermax=50, stopThr=1e-7, stopThr2=1e-7), tol=100)
for meth in ("sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"):
    add("uot-" + meth, lambda p, nx, meth=meth: U.sinkhorn_unbalanced(p.a, p.b, p.M, 1.0, 2.0, method=meth, numItermax=3000, stopThr=1e-7), ints=True)
    add("uot2-" + meth, lambda p, nx, meth=meth: U.sinkhorn_unbalanced2(p.a, p.b, p.M, 1.0, (1.0, 3.0), method=meth, numItermax=3000, stopThr=1e-7), ints=True)
add("uot-entropy", lambda p, nx: U.sinkhorn_unbalanced2(p.a, p.b, p.M, 1.0, 1.0, reg_type="entropy", returnCost="total", numItermax=2000))
add("uot-c", lambda p, nx: U.sinkhorn_unbalanced(p.a, p.b, p.M, 1.0, 1.0, c=p.cref, numItermax=2000))
add("bary-unb", lambda p, nx: U.barycenter_unbalanced(p.A, p.Mnn, 1.0, 1.0, weights=p.w))
add("bary-unb-stab", lambda p, nx: U.barycenter_unbalanced(p.A, p.Mnn, 1.0, 1.0, weights=p.w, method="sinkhorn_stabilized"))
add("mm-kl", lambda p, nx: U.mm_unbalanced(p.a, p.b, p.M, 1.0, div="kl", numItermax=50, stopThr=0), ints=True)
add("mm-l2", lambda p, nx: U.mm_unbalanced2(p.a, p.b, p.M, (1.0, 10.0), div="l2", numItermax=50, stopThr=0), ints=True)
add("lbfgsb", lambda p, nx: U.lbfgsb_unbalanced(p.a, p.b, p.M, 1.0, 1.0, reg_div="kl", regm_div="l2", numItermax=20), no=T, ints=True, tol=3e3)
add("lbfgsb2", lambda p, nx: U.lbfgsb_unbalanced2(p.a, p.b, p.M, 1.0, 1.0, reg_div="l2", regm_div="kl", numItermax=20), no=T, ints=True, tol=3e3)
# partial
add("partial", lambda p, nx: ot.partial.partial_wasserstein(p.a, p.b, p.M, m=0.6), ints=True)
add("partial2", lambda p, nx: ot.partial.partial_wasserstein2(p.a, p.b, p.M, m=0.6), ints=True)
add("partial-lagrange", lambda p, nx: ot.partial.partial_wasserstein_lagrange(p.a, p.b, p.M, reg_m=4.5), ints=True)
add("partial-ent", lambda p, nx: ot.partial.entropic_partial_wasserstein(p.a, p.b, p.M, 1.0, m=0.6), ints=True)
# quadratic problems
add("gw", lambda p, nx: G.gromov_wasserstein(p.C1, p.C2, p.a, p.b, max_iter=3), f4=False)
add("gw2", lambda p, nx: G.gromov_wasserstein2(p.C1, p.C2, p.a, p.b, max_iter=3), f4=False)
add("gw-kl", lambda p, nx: G.gromov_wasserstein2(p.C1 + 1, p.C2 + 1, p.a, p.b, "kl_loss", max_iter=3), f4=False)
add("fgw", lambda p, nx: G.fused_gromov_wasserstein(p.M, p.C1, p.C2, p.a, p.b, max_iter=3), f4=False)
add("fgw2", lambda p, nx: G.fused_gromov_wasserstein2(p.M, p.C1, p.C2, p.a, p.b, max_iter=3), f4=False)
add("fgw-armijo", lambda p, nx: G.fused_gromov_wasserstein(p.M, p.C1, p.C2, p.a, p.b, armijo=True, max_iter=3), f4=False)
for s in ("PGD", "PPA", "BAPG"):
    add("egw-" + s, lambda p, nx, s=s: G.entropic_gromov_wasserstein(p.C1, p.C2, p.a, p.b, epsilon=3.0, solver=s, max_iter=5) if s != "BAPG" else G.BAPG_gromov_wasserstein(p.C1, p.C2, p.a, p.b, epsilon=3.0, max_iter=5), ints=True)
    add("efgw-" + s, lambda p, nx, s=s: G.entropic_fused_gromov_wasserstein2(p.M, p.C1, p.C2, p.a, p.b, epsilon=3.0, solver=s, max_iter=5) if s != "BAPG" else G.BAPG_fused_gromov_wasserstein2(p.M, p.C1, p.C2, p.a, p.b, epsilon=3.0, max_iter=5), ints=True)
add("srgw", lambda p, nx: G.semirelaxed_gromov_wasserstein(p.C1, p.C2, p.a, G0=p.Gs, max_iter=3), ints=True, f4=False)
add("srgw2", lambda p, nx: G.semirelaxed_gromov_wasserstein2(p.C1, p.C2, p.a, G0=p.Gs, max_iter=3), ints=True, f4=False)
add("srfgw2", lambda p, nx: G.semirelaxed_fused_gromov_wasserstein2(p.M, p.C1, p.C2, p.a, G0=p.Gs, max_iter=3), ints=True, f4=False)
add("esrgw", lambda p, nx: G.entropic_semirelaxed_gromov_wasserstein(p.C1, p.C2, p.a, epsilon=3.0, max_iter=5), ints=True)
add("esrfgw2", lambda p, nx: G.entropic_semirelaxed_fused_gromov_wasserstein2(p.M, p.C1, p.C2, p.a, epsilon=3.0, max_iter=5), ints=True)
add("pgw", lambda p, nx: G.partial_gromov_wasserstein(p.C1, p.C2, p.a, p.b, m=0.6, numItermax=30), f4=False)
add("pfgw2", lambda p, nx: G.partial_fused_gromov_wasserstein2(p.M, p.C1, p.C2, p.a, p.b, m=0.6, numItermax=30), f4=False)
add("epgw", lambda p, nx: G.entropic_partial_gromov_wasserstein(p.C1, p.C2, p.a, p.b, reg=3.0, m=0.6, numItermax=5), ints=True)
add("epfgw2", lambda p, nx: G.entropic_partial_fused_gromov_wasserstein2(p.M, p.C1, p.C2, p.a, p.b, reg=3.0, m=0.6, numItermax=5), ints=True)
for init in ("product", "kmeans", "fluid"):
    add("srgw-" + init, lambda p, nx, init=init: G.semirelaxed_gromov_wasserstein(p.C1, p.C2, p.a, G0=init, max_iter=1, random_state=0), f4=False)
add("gw_barycenter", lambda p, nx: G.gromov_barycenters(3, [p.C1, p.C2], [p.a, p.b], p.w3, [0.4, 0.6], max_iter=2, init_C=p.C3), f4=False)
add("fgw_barycenter", lambda p, nx: G.fgw_barycenters(3, [p.X, p.Y], [p.C1, p.C2], [p.a, p.b], [0.4, 0.6], alpha=0.5, p=p.w3, max_iter=2, init_C=p.C3, init_X=p.Z[:3]), f4=False)
add("egw_barycenter", lambda p, nx: G.entropic_gromov_barycenters(3, [p.C1, p.C2], [p.a, p.b], p.w3, [0.4, 0.6], epsilon=2.0, max_iter=2, init_C=p.C3))
add("efgw_barycenter", lambda p, nx: G.entropic_fused_gromov_barycenters(3, [p.X, p.Y], [p.C1, p.C2], [p.a, p.b], p.w3, [0.4, 0.6], epsilon=2.0, max_iter=2, init_C=p.C3, init_Y=p.Z[:3]))
add("srgw_barycenter", lambda p, nx: G.semirelaxed_gromov_barycenters(3, [p.C1, p.C2], [p.a, p.b], [0.4, 0.6], max_iter=2, init_C=p.C3), f4=False)
add("srfgw_barycenter", lambda p, nx: G.semirelaxed_fgw_barycenters(3, [p.X, p.Y], [p.C1, p.C2], [p.a, p.b], [0.4, 0.6], alpha=0.5, max_iter=2, init_C=p.C3, init_X=p.Z[:3]), f4=False)
add("ucoot", lambda p, nx: G.unbalanced_co_optimal_transport(p.Xf, p.Yf, wx_samp=p.a, wy_samp=p.b, reg_marginals=10, epsilon=1.0, unbalanced_solver="sinkhorn", max_iter=5, max_iter_ot=50), tol=100)
add("ucoot2-mm", lambda p, nx: G.unbalanced_co_optimal_transport2(p.Xf, p.Yf, wx_samp=p.a, wy_samp=p.b, reg_marginals=10, epsilon=0, unbalanced_solver="mm", max_iter=5, max_iter_ot=50), tol=100)
add("fugw", lambda p, nx: G.fused_unbalanced_gromov_wasserstein(p.C1, p.C2, p.a, p.b, reg_marginals=10, epsilon=1.0, alpha=0.5, M=p.M, max_iter=5, max_iter_ot=50), tol=100)
add("fugw2", lambda p, nx: G.fused_unbalanced_gromov_wasserstein2(p.C1, p.C2, p.a, p.b, reg_marginals=10, epsilon=1.0, alpha=0.5, M=p.M, max_iter=5, max_iter_ot=50), tol=100)
add("coot", lambda p, nx: ot.coot.co_optimal_transport(p.Xf, p.Yf, wx_samp=p.a, wy_samp=p.b, nits_bcd=2), f4=False)
add("coot2-ent", lambda p, nx: ot.coot.co_optimal_transport2(p.Xf, p.Yf, wx_samp=p.a, wy_samp=p.b, epsilon=3.0, nits_bcd=3))
add("lrgw", lambda p, nx: G.lowrank_gromov_wasserstein_samples(p.X, p.Y, p.a, p.b, rank=2, numItermax=3, warn=False, seed_init=1, rescale_cost=False), no=T, f4=False, tol=1e3)
# sliced
add("sliced", lambda p, nx: ot.sliced_wasserstein_distance(p.X, p.Y, p.a, p.b, projections=p.proj))
add("max_sliced", lambda p, nx: ot.max_sliced_wasserstein_distance(p.X, p.Y, p.a, p.b, projections=p.proj))
add("spherical", lambda p, nx: ot.sliced_wasserstein_sphere(p.Xs3, p.Ys3, p.a, p.b, projections=p.proj3), no=J)
add("spherical1", lambda p, nx: ot.sliced_wasserstein_sphere(p.Xs3, p.Ys3, p.a, p.b, p=1, projections=p.proj3), no=J)
add("linear_spherical", lambda p, nx: ot.linear_sliced_wasserstein_sphere(p.Xs3, p.Ys3, p.a, p.b, projections=p.proj3), no=T)
# Gaussians and mixtures
add("bures_distance", lambda p, nx: ot.gaussian.bures_wasserstein_distance(p.m1, p.m2, p.S1, p.S2))
add("bures_mapping", lambda p, nx: ot.gaussian.bures_wasserstein_mapping(p.m1, p.m2, p.S1, p.S2))
add("emp_bures_distance", lambda p, nx: ot.gaussian.empirical_bures_wasserstein_distance(p.X, p.Y, reg=0.1))
add("emp_bures_mapping", lambda p, nx: ot.gaussian.empirical_bures_wasserstein_mapping(p.X, p.Y, reg=0.1))
add("bures_barycenter", lambda p, nx: ot.gaussian.bures_wasserstein_barycenter(p.ms, p.Ss, p.w, num_iter=20))
add("gaussian_gw", lambda p, nx: ot.gaussian.gaussian_gromov_wasserstein_distance(p.S1, p.S2))
add("gaussian_gw_mapping", lambda p, nx: (lambda A: A @ A.T)(ot.gaussian.gaussian_gromov_wasserstein_mapping(p.m1, p.m2, p.S1, p.S2)[0]), no=T)
add("gmm_pdf", lambda p, nx: ot.gmm.gmm_pdf(p.X, p.ms, p.Ss, p.w))
add("gmm_dist", lambda p, nx: ot.gmm.dist_bures_squared(p.ms, p.mt, p.Ss, p.St))
add("gmm_loss", lambda p, nx: ot.gmm.gmm_ot_loss(p.ms, p.mt, p.Ss, p.St, p.w, p.w2))
add("gmm_plan", lambda p, nx: ot.gmm.gmm_ot_plan(p.ms, p.mt, p.Ss, p.St, p.w, p.w2))
add("gmm_map", lambda p, nx: ot.gmm.gmm_ot_apply_map(p.X, p.ms, p.mt, p.Ss, p.St, p.w, p.w2))
add("gmm_barycenter", lambda p, nx: ot.gmm.gmm_barycenter_fixed_point([p.ms, p.mt], [p.Ss, p.St], [p.w, p.w2], p.ms + 0.1, p.Ss * 1.0, p.w46, iterations=2), no=J)
# others
add("weak", lambda p, nx: ot.weak.weak_optimal_transport(p.X, p.Y, p.a, p.b, numItermax=5), f4=False)
add("factored", lambda p, nx: ot.factored_optimal_transport(p.X, p.Y, p.a, p.b, r=2, X0=p.Z[:2], numItermax=5, stopThr=0), f4=False)
add("lowrank", lambda p, nx: ot.lowrank.lowrank_sinkhorn(p.X, p.Y, p.a, p.b, reg=0.5, rank=2, numItermax=50, warn=False), no=T, f4=False, tol=1e3)
add("smooth", lambda p, nx: ot.smooth.smooth_ot_dual(p.a, p.b, p.M, 1.0), tol=1e4)
add("linear_map", lambda p, nx: ot.gaussian.empirical_bures_wasserstein_mapping(p.X, p.Y, ws=p.a[:, None], wt=p.b[:, None], reg=0.1, bias=True))
add("joint_linear", lambda p, nx: ot.da.joint_OT_mapping_linear(p.X, p.Y, mu=1, eta=0.1, bias=True, numItermax=5), f4=False, tol=1e3, no=J)
add("joint_kernel", lambda p, nx: ot.da.joint_OT_mapping_kernel(p.X, p.Y, mu=1, eta=0.1, sigma=1, numItermax=5), f4=False, tol=1e3, no=T)
add("da_emd", lambda p, nx: (lambda e: e.fit(Xs=p.X, Xt=p.Y).transform(p.X))(ot.da.EMDTransport()), no=J)
add("da_sinkhorn", lambda p, nx: (lambda e: e.fit(Xs=p.X, Xt=p.Y).transform(p.X))(ot.da.SinkhornTransport(reg_e=1.0)), no=J)
add("da_unb", lambda p, nx: (lambda e: e.fit(Xs=p.X, Xt=p.Y).transform(p.X))(ot.da.UnbalancedSinkhornTransport(reg_e=1.0)), no=J)
add("da_linear", lambda p, nx: (lambda e: e.fit(Xs=p.X, Xt=p.Y).transform(p.X))(ot.da.LinearTransport()), no=J, tol=1e2, f4=False)
add("batch", lambda p, nx: ot.batch.solve_batch(p.Mb, 0.5, p.ab, p.bb, max_iter=100, tol=0))
add("batch-sinkhorn", lambda p, nx: ot.batch.solve_batch(p.Mb, 0.5, p.ab, p.bb, max_iter=100, tol=0, solver="sinkhorn"))
add("batch-gw", lambda p, nx: ot.batch.solve_gromov_batch(p.C1[None], p.C2[None], reg=2.0, a=p.a[None], b=p.b[None], max_iter=3, tol=0))
add("solve-kl", lambda p, nx: ot.solve(p.M, p.a, p.b, reg=1.0, max_iter=2000, tol=1e-7), ints=True)
add("solve-l2", lambda p, nx: ot.solve(p.M, p.a, p.b, reg=1.0, reg_type="L2"), tol=1e4, f4=False)
add("solve-unb", lambda p, nx: ot.solve(p.M, p.a, p.b, unbalanced=1.0, max_iter=50), ints=True)
add("solve-uot", lambda p, nx: ot.solve(p.M, p.a, p.b, reg=1.0, unbalanced=1.0, max_iter=2000), ints=True)
add("solve_gromov", lambda p, nx: ot.solve_gromov(p.C1, p.C2, p.M, p.a, p.b, alpha=0.5, max_iter=3), f4=False)
add("solve_gromov-ent", lambda p, nx: ot.solve_gromov(p.C1, p.C2, p.M, p.a, p.b, alpha=0.5, reg=3.0, max_iter=5), ints=True)
add("multi_1d", lambda p, nx: ot.lp.dmmot_monge_1dgrid_loss(p.A * 1.0))
add("none-weights", lambda p, nx: (ot.emd2([], [], p.M), ot.sinkhorn2([], [], p.M, 1.0), ot.sinkhorn([], [], p.M, 1.0, method="sinkhorn_log")), ints=True)


WIDE = {"multi_1d", "cg", "gcg", "fugw", "fugw2", "joint_linear", "joint_kernel", "sinkhorn-sinkhorn_epsilon_scaling", "srgw_barycenter", "srfgw_barycenter"}  # known finding
RANDOM = {"lowrank", "lrgw", "nystroem"}  # random numbers of the library
# integer samples
add("wasserstein_1d-int", lambda p, nx: ot.wasserstein_1d(p.x, p.y, p=2), ints=True)
add("emd_1d-int", lambda p, nx: (ot.emd_1d(p.x, p.y), ot.emd2_1d(p.x, p.y)), ints=True)
add("sliced-int", lambda p, nx: (ot.sliced_wasserstein_distance(p.X, p.Y, projections=p.proj), ot.max_sliced_wasserstein_distance(p.X, p.Y, projections=p.proj)), ints=True)
add("empirical-int", lambda p, nx: (B.empirical_sinkhorn2(p.X, p.Y, 3.0, stopThr=1e-7), B.empirical_sinkhorn_divergence(p.X, p.Y, 3.0, stopThr=1e-7)), ints=True)
add("solve_sample-int", lambda p, nx: (ot.solve_sample(p.X, p.Y), ot.solve_sample(p.X, p.Y, reg=3.0, tol=1e-7)), ints=True)
add("free_support-int", lambda p, nx: ot.lp.free_support_barycenter([p.X, p.Y], [p.a, p.b], p.Z, numItermax=2, stopThr=-1), ints=True)
add("weak-int", lambda p, nx: ot.weak.weak_optimal_transport(p.X, p.Y, numItermax=5), f4=False, ints=True)
add("bures-int", lambda p, nx: ot.gaussian.empirical_bures_wasserstein_distance(p.X, p.Y, reg=0.1), ints=True)
add("da-int", lambda p, nx: ot.da.EMDTransport().fit(Xs=p.X, Xt=p.Y).transform(p.X), no=J, ints=True)


class NS:
    pass


def extras(P):
    r = np.random.RandomState(0)
    P["M33"] = np.array([[0, 1.0, 2.0], [1.0, 0, 1.5], [2.0, 1.5, 0]])
    P["w3"] = np.array([0.2, 0.5, 0.3])
    P["w46"] = np.array([0.4, 0.6])
    P["C3"] = np.array([[0, 1.0, 2.0], [1.0, 0, 1.3], [2.0, 1.3, 0]])
    d = P["X"].shape[1]
    P["Xf"], P["Yf"] = P["X"] @ r.randn(d, 3), P["Y"] @ r.randn(d, 4)
    return P


def conv(P, nx, dt, ints=()):
    p = NS()
    for k, v in P.items():
        x = v.astype(np.int64) if k in ints else v.astype(dt)
        setattr(p, k, nx.from_numpy(x))
    return p


def flat(x):
    if isinstance(x, ot.utils.OTResult):
        pot = x.potentials
        u = [] if pot is None or pot[0] is None else [pot[0][..., :, None] + pot[1][..., None, :]]
        return flat([x.plan, x.value, x.value_linear] + u)
    if isinstance(x, dict):
        return []
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [] if x is None else [x]


def compare(name, c, lib, dt, ints, rec):
    f, no, tol, f4, _ = S[name]
    P = extras(problem(c))
    ref_, bad = quiet(f, conv(P, NX["numpy"], np.float64), NX["numpy"])
    W = flat(ref_)
    nx = NX[lib]
    try:
        out, bad2 = quiet(f, conv(P, nx, dt, ints), nx)
    except Exception as e:
        if lib == "tf" and dt == np.float32 and name in WIDE and "double" in str(e):
            return rec.known("single-precision-promoted", "%s with single precision tensorflow tensors mixes precisions: %s" % (name, e))
        raise
    H = flat(out)
    what = "%s on %s %s%s" % (name, lib, np.dtype(dt).name, " with integer costs" if ints else "")
    ensure(len(W) == len(H), "%s: %d results instead of %d", what, len(H), len(W))
    for i, (w, h) in enumerate(zip(W, H)):
        w = np.asarray(w, dtype=float)
        if isinstance(h, (float, int, bool)) and not isinstance(h, np.generic):
            ensure(lib == "numpy", "%s: result %d is a Python number", what, i)
            h = np.asarray(h, dtype=dt)
        else:
            ensure(isinstance(h, nx.__type__) or nx.issparse(h) or (lib == "numpy" and isinstance(h, np.generic)), "%s: result %d is a %s", what, i, type(h).__name__)
            h = np.asarray(h) if isinstance(h, (np.ndarray, np.generic)) else np.asarray(nx.to_numpy(h))
        if not ints:
            if h.dtype == np.float64 and dt == np.float32 and lib in ("numpy", "jax") and name in WIDE:
                rec.known("single-precision-promoted", "%s: result %d is in double precision" % (what, i))
                h = h.astype(dt)
            ensure(h.dtype == dt, "%s: result %d has dtype %s", what, i, h.dtype)
        ensure(h.shape == w.shape, "%s: result %d has shape %s instead of %s", what, i, h.shape, w.shape)
        if not np.isfinite(w).all():
            return rec.skip("reference result is not finite")
        sc = 1 + np.abs(w).max()
        if name in RANDOM and lib != "numpy":
            ensure(np.isfinite(h).all(), "%s: result %d is not finite", what, i)
        elif dt == np.float64:
            close(h, w, 1e-8 * tol * sc, "%s: result %d differs from NumPy" % (what, i))
        elif f4 and not bad and not bad2:
            close(h, w, 2e-3 * sc * max(1, min(tol, 10)), "%s: result %d differs from NumPy" % (what, i))
        else:
            ensure(np.isfinite(h).all(), "%s: result %d is not finite", what, i)


PROB = dict(n=st.integers(3, 6), m=st.integers(3, 6), d=st.integers(1, 3), k=g.seeds)


@facet(g.record(f=st.sampled_from(sorted(k for k in S if not k.endswith("-int"))), lib=st.sampled_from(["numpy", "torch", "torch", "jax", "tf"]), f4=st.booleans(), **PROB), 900, 20000, weight=4)
def libraries(c, rec):
    """values, array library and dtype of the result against NumPy in double precision"""
    name, lib = c["f"], c["lib"]
    if lib in S[name][1]:
        lib = "torch"
    if lib == "numpy" and not c["f4"]:
        lib = "torch"
    rec.label(lib, "f4" if c["f4"] else "f8")
    rec.nontrivial(True)
    compare(name, c, lib, np.float32 if c["f4"] else np.float64, (), rec)


@facet(g.record(f=st.sampled_from(sorted(k for k in S if S[k][4])), **PROB), 400, 8000, weight=2)
def integers(c, rec):
    """integer-valued costs given as integer arrays give the result of the same costs as floats"""
    rec.nontrivial(True)
    compare(c["f"], dict(c, int=True), "numpy", np.float64, ("M", "C1", "C2", "Mnn", "X", "Y", "x", "y"), rec)


@facet(g.record(f=st.sampled_from(sorted(WIDE)), **PROB), 30, 200)
def promoted(c, rec):
    """single precision NumPy inputs of the solvers of the known finding"""
    rec.nontrivial(True)
    compare(c["f"], c, "numpy", np.float32, (), rec)
