"""C31: calls leave their inputs unchanged, and deterministic or seeded calls are reproducible."""
import contextlib
import io

import numpy as np
import ot
import ot.coot
import ot.dr
import ot.sgot
import scipy.sparse as sp
from hypothesis import strategies as st

import gen as g
from core import FACETS, close, ensure, facet
from checks import c28
from checks.c23 import quiet

FACETS.clear()
META = {
    "backends": ["torch"],
    "rule": "non-trivial when the call returned a result (inputs were then compared bit by bit) and, for histories, when another solver ran in between",
    "assumptions": ["results of repeated calls are compared up to 1e-8 relative: BLAS may sum in a different order for differently aligned arrays"],
}
S = {}
SEEDED = {}
G, B, U, L, D = ot.gromov, ot.bregman, ot.unbalanced, ot.lp, ot.da
NX = {}


def setup():
    for b in ot.backend.get_backend_list():
        NX[b.__name__] = b


def add(name, f, torch=False):
    S[name] = (f, torch)


def seeded(name, f, torch=True):
    """f(p, nx, seed)"""
    SEEDED[name] = (f, torch)


BUILTIN = [k for k in c28.S if not k.endswith("-int")]
for k in BUILTIN:
    add(k, lambda p, nx, f=c28.S[k][0]: f(p, nx), torch=True)

# warm starts, initial plans and options handed over by the caller
add("emd-warm", lambda p, nx: ot.emd(p.a, p.b, p.M, potentials_init=p.duals), True)
add("emd-list", lambda p, nx: (ot.emd(p.la, p.lb, p.M), ot.emd2(p.la, p.lb, p.M), ot.emd2(p.la, [p.lb, p.lb2], p.M) if 0 else 0))
add("emd-mass", lambda p, nx: ot.emd(p.a, p.b, p.M, check_marginals=False), True)
add("emd2-many", lambda p, nx: ot.emd2(p.A[:, 0], p.A, p.Mnn))
add("emd-sparse", lambda p, nx: (ot.emd(p.a, p.b, p.Msp), ot.emd2(p.a, p.b, p.Msp)))
add("emd-zero", lambda p, nx: ot.emd(p.a0, p.b0, p.M, log=True), True)
add("emd2-zero", lambda p, nx: ot.emd2(p.a0, p.b0, p.M, log=True, return_matrix=True), True)
add("emd2-loss", lambda p, nx: ot.emd2(p.a, p.b, p.M, processes=1))
add("emd2-lazy", lambda p, nx: ot.lp.emd2_lazy(p.X, p.Y, p.a, p.b, log=True))
add("solve_sample-lazy", lambda p, nx: (ot.solve_sample(p.X, p.Y, p.a, p.b, reg=1.0, lazy=True, batch_size=2).lazy_plan[:], ot.solve_sample(p.X, p.Y, p.a, p.b, lazy=True).value), True)
add("emd_1d-sq", lambda p, nx: (ot.emd_1d(p.x[:, None], p.y[:, None], p.a, p.b, log=True), ot.wasserstein_1d(p.X, p.Y, p.a, p.b), ot.wasserstein_1d(p.X, p.Y, p.A1, p.B1, p=3)), True)
add("circle-sorted", lambda p, nx: (ot.lp.solver_circle.wasserstein1_circle(p.u, p.v, p.a, p.b), ot.binary_search_circle(p.u, p.v, p.a, p.b, p=2)), True)
for meth in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"):
    add("warm-" + meth, lambda p, nx, meth=meth: ot.sinkhorn(p.a, p.b, p.M, 1.0, method=meth, warmstart=p.warm, log=True)[0], True)
add("warm-greenkhorn", lambda p, nx: B.greenkhorn(p.a, p.b, p.M, 1.0, numItermax=30, warmstart=p.warm), True)
add("warm-eps", lambda p, nx: B.sinkhorn_epsilon_scaling(p.a, p.b, p.M, 1.0, warmstart=p.warm), True)
add("sinkhorn-list", lambda p, nx: ot.sinkhorn(p.la, p.lb, p.M, 1.0))
add("warm-empirical", lambda p, nx: (B.empirical_sinkhorn(p.X, p.Y, 1.0, p.a, p.b, warmstart=p.warm), B.empirical_sinkhorn(p.X, p.Y, 1.0, p.a, p.b, warmstart=p.warm, isLazy=True)), True)
add("solve-init", lambda p, nx: (ot.solve(p.M, p.a, p.b, reg=1.0, potentials_init=p.warm, plan_init=p.G0), ot.solve(p.M, p.a, p.b, reg=1.0, unbalanced=1.0, potentials_init=p.warm), ot.solve(p.M, p.a, p.b, unbalanced=p.regm, plan_init=p.G0), ot.solve(p.M, p.a, p.b, reg=1.0, reg_type="L2", plan_init=p.G0)), True)
add("solve-c", lambda p, nx: ot.solve(p.M, p.a, p.b, reg=1.0, unbalanced=1.0, c=p.cref), True)
add("solve-func", lambda p, nx: ot.solve(p.M, p.a, p.b, reg=0.5, reg_type=p.funcs, plan_init=p.G0, max_iter=20))
for meth in ("sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"):
    add("uwarm-" + meth, lambda p, nx, meth=meth: U.sinkhorn_unbalanced(p.a, p.b, p.M, 1.0, p.regm, method=meth, warmstart=p.warm, c=p.cref), True)
add("uot-many", lambda p, nx: U.sinkhorn_unbalanced2(p.A[:, 0], p.A, p.Mnn, 1.0, p.regm), True)
for div in ("kl", "l2"):
    add("mm-G0-" + div, lambda p, nx, div=div: U.mm_unbalanced(p.a, p.b, p.M, p.regm, c=p.cref, reg=0.1, div=div, G0=p.G0, numItermax=30), True)
    add("lbfgsb-G0-" + div, lambda p, nx, div=div: U.lbfgsb_unbalanced(p.a, p.b, p.M, 0.5, p.regm, c=p.cref, reg_div=div, regm_div="kl", G0=p.G0, numItermax=30), True)
add("lbfgsb-tuple", lambda p, nx: U.lbfgsb_unbalanced(p.a, p.b, p.M, 0.5, p.regm, reg_div=p.funcs, numItermax=10))
add("uot_1d", lambda p, nx: (U.uot_1d(p.x, p.y, p.regm, u_weights=p.a, v_weights=p.b, numItermax=5, log=True)[0:3]) if nx.__name__ != "numpy" else None, True)
add("sliced-uot", lambda p, nx: None if nx.__name__ == "numpy" else (U.sliced_unbalanced_ot(p.X, p.Y, 1.0, p.a, p.b, projections=p.proj, numItermax=4), U.unbalanced_sliced_ot(p.X, p.Y, 1.0, p.a, p.b, projections=p.proj, numItermax=4)), True)
add("partial-nb", lambda p, nx: (ot.partial.partial_wasserstein(p.a, p.b, p.M, m=0.5, nb_dummies=2), ot.partial.partial_wasserstein_lagrange(p.a, p.b, p.M, reg_m=2.0, nb_dummies=2), ot.partial.entropic_partial_wasserstein(p.a, p.b, p.M, 0.5, m=0.5)))
add("partial-1d", lambda p, nx: ot.partial.partial_wasserstein_1d(p.x, p.y, 2))
# quadratic problems
for nm, f in dict(
    gw=lambda p: G.gromov_wasserstein(p.C1, p.C2, p.a, p.b, G0=p.G0, max_iter=3),
    gw_asym=lambda p: G.gromov_wasserstein2(p.C1a, p.C2a, p.a, p.b, G0=p.G0, max_iter=3, log=True)[0],
    fgw=lambda p: G.fused_gromov_wasserstein(p.M, p.C1, p.C2, p.a, p.b, G0=p.G0, max_iter=3),
    fgw2=lambda p: G.fused_gromov_wasserstein2(p.M, p.C1a, p.C2a, p.a, p.b, G0=p.G0, max_iter=3, loss_fun="kl_loss" if 0 else "square_loss"),
    egw=lambda p: G.entropic_gromov_wasserstein(p.C1, p.C2, p.a, p.b, epsilon=2.0, G0=p.G0, max_iter=5, warmstart=True, log=True)[0],
    efgw=lambda p: G.entropic_fused_gromov_wasserstein(p.M, p.C1, p.C2, p.a, p.b, epsilon=2.0, G0=p.G0, max_iter=5, warmstart=True),
    bapg=lambda p: G.BAPG_gromov_wasserstein(p.C1, p.C2, p.a, p.b, epsilon=2.0, G0=p.G0, max_iter=5, marginal_loss=True),
    bapfgw=lambda p: G.BAPG_fused_gromov_wasserstein2(p.M, p.C1, p.C2, p.a, p.b, epsilon=2.0, G0=p.G0, max_iter=5),
    srgw=lambda p: G.semirelaxed_gromov_wasserstein(p.C1, p.C2, p.a, G0=p.Gs, max_iter=3),
    srfgw=lambda p: G.semirelaxed_fused_gromov_wasserstein(p.M, p.C1, p.C2, p.a, G0=p.Gs, max_iter=3, log=True)[0],
    esrgw=lambda p: G.entropic_semirelaxed_gromov_wasserstein(p.C1, p.C2, p.a, epsilon=2.0, G0=p.Gs, max_iter=5),
    pgw=lambda p: G.partial_gromov_wasserstein(p.C1, p.C2, p.a, p.b, m=0.5, G0=p.Gp, tol=1e-3),
    pgw_old=lambda p: (ot.partial.partial_gromov_wasserstein(p.C1, p.C2, p.a, p.b, m=0.5, G0=p.Gp), ot.partial.entropic_partial_gromov_wasserstein(p.C1, p.C2, p.a, p.b, 2.0, m=0.5, G0=p.Gp, numItermax=10)),
    pfgw=lambda p: G.partial_fused_gromov_wasserstein(p.M, p.C1, p.C2, p.a, p.b, m=0.5, G0=p.Gp),
    epgw=lambda p: G.entropic_partial_gromov_wasserstein(p.C1, p.C2, p.a, p.b, reg=2.0, m=0.5, G0=p.Gp, numItermax=5),
    epfgw=lambda p: G.entropic_partial_fused_gromov_wasserstein2(p.M, p.C1, p.C2, p.a, p.b, reg=2.0, m=0.5, G0=p.Gp, numItermax=5),
    solve_gromov=lambda p: [ot.solve_gromov(p.C1, p.C2, p.M, p.a, p.b, alpha=0.4, plan_init=p.G0, max_iter=3, **kw) for kw in ({}, dict(reg=2.0), dict(unbalanced_type="semirelaxed", unbalanced=1) if 0 else {})],
    solve_gromov_p=lambda p: ot.solve_gromov(p.C1, p.C2, p.M, p.a, p.b, alpha=0.4, unbalanced=0.5, unbalanced_type="partial", plan_init=p.Gp, max_iter=3),
    solve_gromov_sr=lambda p: ot.solve_gromov(p.C1, p.C2, p.M, p.a, p.b, alpha=0.4, unbalanced_type="semirelaxed", unbalanced=1.0, plan_init=p.Gs, max_iter=3),
    lists_gw_bary=lambda p: G.gromov_barycenters(3, p.Cs, p.ps, p.w3, p.lam, max_iter=2, init_C=p.C3, warmstartT=True, log=True)[0],
    lists_egw_bary=lambda p: G.entropic_gromov_barycenters(3, p.Cs, p.ps, p.w3, p.lam, epsilon=2.0, max_iter=2, init_C=p.C3, warmstartT=True),
    lists_fgw_bary=lambda p: G.fgw_barycenters(3, p.Ys, p.Cs, p.ps, p.lam, alpha=0.5, p=p.w3, max_iter=2, init_C=p.C3, init_X=p.X3, warmstartT=True),
    fixed_fgw_bary=lambda p: (G.fgw_barycenters(3, p.Ys, p.Cs, p.ps, p.lam, alpha=0.5, p=p.w3, max_iter=2, fixed_structure=True, init_C=p.C3, init_X=p.X3), G.fgw_barycenters(3, p.Ys, p.Cs, p.ps, p.lam, alpha=0.5, p=p.w3, max_iter=2, fixed_features=True, init_C=p.C3, init_X=p.X3)),
    lists_efgw_bary=lambda p: G.entropic_fused_gromov_barycenters(3, p.Ys, p.Cs, p.ps, p.w3, p.lam, epsilon=2.0, max_iter=2, init_C=p.C3, init_Y=p.X3),
    lists_srgw_bary=lambda p: G.semirelaxed_gromov_barycenters(3, p.Cs, p.ps, p.lam, max_iter=2, init_C=p.C3, G0="product"),
    lists_srfgw_bary=lambda p: G.semirelaxed_fgw_barycenters(3, p.Ys, p.Cs, p.ps, p.lam, alpha=0.5, max_iter=2, init_C=p.C3, init_X=p.X3, G0="product"),
    coot_warm=lambda p: ot.coot.co_optimal_transport(p.Xf, p.Yf, wx_samp=p.a, wy_samp=p.b, alpha=p.regm, M_samp=p.M, warmstart=p.cwarm, epsilon=2.0, nits_bcd=2),
    coot_exact=lambda p: ot.coot.co_optimal_transport(p.Xf, p.Yf, wx_samp=p.a, wy_samp=p.b, M_samp=p.M, warmstart=p.cwarm, nits_bcd=2),
    ucoot_init=lambda p: G.unbalanced_co_optimal_transport(p.Xf, p.Yf, wx_samp=p.a, wy_samp=p.b, reg_marginals=p.regm, epsilon=1.0, init_pi=p.ipi, init_duals=p.iduals, max_iter=3, max_iter_ot=20),
    ucoot_mm=lambda p: G.unbalanced_co_optimal_transport(p.Xf, p.Yf, wx_samp=p.a, wy_samp=p.b, reg_marginals=p.regm, epsilon=0.0, unbalanced_solver="mm", init_pi=p.ipi, max_iter=3, max_iter_ot=20, log=True)[0],
    fugw_init=lambda p: G.fused_unbalanced_gromov_wasserstein(p.C1, p.C2, p.a, p.b, reg_marginals=p.regm, epsilon=1.0, alpha=0.3, M=p.M, init_pi=p.G0, init_duals=p.warm, max_iter=3, max_iter_ot=20),
    gw_dict=lambda p: G.gromov_wasserstein_dictionary_learning(p.Cs, 2, 3, reg=0.1, ps=p.ps, q=p.w3, epochs=1, batch_size=1, Cdict_init=p.Cd, max_iter_outer=2, random_state=0),
    fgw_dict=lambda p: G.fused_gromov_wasserstein_dictionary_learning(p.Cs, p.Ys, 2, 3, 0.5, reg=0.1, ps=p.ps, q=p.w3, epochs=1, batch_size=1, Cdict_init=p.Cd, Ydict_init=p.Yd, max_iter_outer=2, random_state=0),
    gw_unmix=lambda p: G.gromov_wasserstein_linear_unmixing(p.C1, p.Cd, reg=0.1, p=p.a, q=p.w3, max_iter_outer=2),
    fgw_unmix=lambda p: G.fused_gromov_wasserstein_linear_unmixing(p.C1, p.X, p.Cd, p.Yd, 0.5, reg=0.1, p=p.a, q=p.w3, max_iter_outer=2),
    gw_est=lambda p: G.GW_distance_estimation(p.C1, p.C2, p.a, p.b, p.lossf, p.G0, random_state=0),
    gw_point=lambda p: G.pointwise_gromov_wasserstein(p.C1, p.C2, p.a, p.b, p.lossf, max_iter=5, random_state=0),
    gw_samp=lambda p: G.sampled_gromov_wasserstein(p.C1, p.C2, p.a, p.b, p.lossf, max_iter=5, epsilon=1.0, random_state=0),
    quantized=lambda p: G.quantized_fused_gromov_wasserstein(p.C1, p.C2, 2, 2, p.a, p.b, F1=p.X, F2=p.Y, alpha=0.5, part_method="fluid", rep_method="random", random_state=0)[0],
    quantized_samples=lambda p: G.quantized_fused_gromov_wasserstein_samples(p.X, p.Y, 2, 2, p.a, p.b, F1=p.X, F2=p.Y, alpha=0.5, method="kmeans", random_state=0)[0],
).items():
    add("g:" + nm, lambda p, nx, f=f: f(p), nm not in ("pgw_old", "gw_est", "gw_point", "gw_samp", "gw_dict", "fgw_dict", "quantized", "quantized_samples"))
# barycenters
for nm, f in dict(
    bary=lambda p: [B.barycenter(p.A, p.Mnn, 1.0, p.w, method=m, numItermax=20) for m in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized")],
    free=lambda p: L.free_support_barycenter(p.Ys, p.ps, p.X3, p.w3, p.lam, numItermax=2),
    generic=lambda p: L.free_support_barycenter_generic_costs(p.Ys, p.ps, p.X3, p.costs, ground_bary=lambda y: (y[0] + y[1]) / 2, numItermax=2),
    generic_glue=lambda p: L.free_support_barycenter_generic_costs(p.Ys, p.ps, p.X3, p.costs, ground_bary=lambda y: (y[0] + y[1]) / 2, numItermax=2, method="true_fixed_point", clean_measure=True),
    generalized=lambda p: L.generalized_free_support_barycenter(p.Ys, p.ps, p.Ps, 3, Y_init=p.X3, b=p.w3, weights=p.lam, numItermax=2),
    lp_bary=lambda p: L.barycenter(p.A, p.Mnn, p.w),
    sink_free=lambda p: B.free_support_sinkhorn_barycenter(p.Ys, p.ps, p.X3, 1.0, p.w3, p.lam, numItermax=2),
    jcpot=lambda p: B.jcpot_barycenter(p.Xlist, p.ylist, p.Y, 1.0, numItermax=5),
    bures=lambda p: (ot.gaussian.bures_wasserstein_barycenter(p.ms, p.Ss, p.w, num_iter=5), ot.gaussian.bures_barycenter_fixpoint(p.Ss, p.w, num_iter=5), ot.gaussian.bures_barycenter_gradient_descent(p.Ss, p.w, num_iter=3)),
    emp_bures=lambda p: ot.gaussian.empirical_bures_wasserstein_barycenter(p.Xs2, num_iter=4),
    gluing=lambda p: L.NorthWestMMGluing(p.plans),
    energy=lambda p: L.ot_barycenter_energy(p.Ys, p.ps, p.X3, p.w3, p.costs),
    unmix=lambda p: B.unmix(p.A[:, 0], p.A, p.Mnn, p.M33, p.w, 1.0, 1.0, 0.1, numItermax=10),
    ub=lambda p: (U.barycenter_unbalanced(p.A, p.Mnn, 1.0, 1.0, weights=p.w, numItermax=10), U.barycenter_unbalanced(p.A, p.Mnn, 1.0, 1.0, weights=p.w, numItermax=10, method="sinkhorn_stabilized")),
).items():
    add("b:" + nm, lambda p, nx, f=f: f(p), nm not in ("lp_bary", "gluing", "jcpot", "generic", "generic_glue", "energy"))
add("b:gmm", lambda p, nx: ot.gmm.gmm_barycenter_fixed_point(p.gm, p.gC, p.gw, p.gm0, p.gC0, p.w46, iterations=1))
# domain adaptation and mappings
for nm, f in dict(
    lpl1=lambda p: D.sinkhorn_lpl1_mm(p.a, p.lab, p.b, p.M, 1.0, 0.1, numItermax=3),
    l1l2=lambda p: D.sinkhorn_l1l2_gl(p.a, p.lab, p.b, p.M, 1.0, 0.1, numItermax=3),
    laplace=lambda p: D.emd_laplace(p.a, p.b, p.X, p.Y, p.M, sim="knn", sim_param=2, numItermax=3),
    laplace_gauss=lambda p: D.emd_laplace(p.a, p.b, p.X, p.Y, p.M, sim="gauss", reg="disp", numItermax=3),
    joint=lambda p: (ot.mapping.joint_OT_mapping_linear(p.X, p.Y, mu=1, eta=0.1, bias=True, numItermax=3), ot.mapping.joint_OT_mapping_kernel(p.X, p.Y, mu=1, eta=0.1, bias=True, numItermax=3)),
    linear=lambda p: (ot.gaussian.empirical_bures_wasserstein_mapping(p.X, p.Y, ws=p.ac, wt=p.bc), ot.gaussian.empirical_gaussian_gromov_wasserstein_distance(p.X, p.Y, p.ac, p.bc), ot.gaussian.empirical_bures_wasserstein_distance(p.X, p.Y, ws=p.ac, wt=p.bc)),
    normalize=lambda p: [ot.utils.cost_normalization(p.M, nm) for nm in ("median", "max", "log", "loglog")],
    scaler=lambda p: [ot.utils.DataScaler(nm).fit_transform([p.X, p.Y]) for nm in ("standard", "minmax", "l2")],
    lab=lambda p: (ot.utils.label_normalization(p.lab, 3), ot.utils.labels_to_masks(p.lab)),
    proj=lambda p: (ot.utils.proj_simplex(p.A), ot.utils.projection_sparse_simplex(p.M, 2, axis=1), ot.utils.proj_SDP(p.C1)),
    dist=lambda p: [ot.dist(p.X, p.Y, m) for m in ("euclidean", "sqeuclidean", "cityblock", "cosine", "correlation")] + [ot.dist(p.X), ot.utils.kernel(p.X, p.Y), ot.utils.laplacian(p.C1)],
).items():
    add("d:" + nm, lambda p, nx, f=f: f(p), nm in ("normalize", "scaler", "lab", "proj", "dist", "linear", "lpl1", "l1l2"))
add("d:nearest", lambda p, nx: ot.mapping.nearest_brenier_potential_fit(p.X, p.X2, p.lab, p.a, p.a2, its=2), False)
CLS = dict(EMDTransport=dict(norm="max"), SinkhornTransport=dict(norm="median"), SinkhornLpl1Transport={}, SinkhornL1l2Transport={}, EMDLaplaceTransport=dict(similarity_param=2), UnbalancedSinkhornTransport={}, MappingTransport=dict(max_iter=3), LinearTransport={}, LinearGWTransport={}, SinkhornTransport_log=dict(log=True), EMDTransport_limit=dict(limit_max=5))
# others
for nm, f in dict(
    weak=lambda p: ot.weak.weak_optimal_transport(p.X, p.Y, p.a, p.b, G0=p.G0, numItermax=4),
    factored=lambda p: ot.factored_optimal_transport(p.X, p.Y, p.a, p.b, X0=p.X3, r=3, numItermax=3),
    lowrank=lambda p: ot.lowrank.lowrank_sinkhorn(p.X, p.Y, p.a, p.b, reg=0.5, rank=2, numItermax=10, warn=False, seed_init=3),
    lowrank_gw=lambda p: G.lowrank_gromov_wasserstein_samples(p.X, p.Y, p.a, p.b, rank=2, numItermax=3, warn=False),
    nystroem=lambda p: ot.lowrank.sinkhorn_low_rank_kernel(p.K1, p.K2, p.a, p.b, warmstart=p.warm, numItermax=10, warn=False),
    smooth=lambda p: [ot.smooth.smooth_ot_dual(p.a, p.b, p.M, 1.0, reg_type=t) for t in ("l2", "kl")] + [ot.smooth.smooth_ot_semi_dual(p.a, p.b, p.M, 1.0, reg_type=t, max_nz=2) for t in ("l2", "kl", "sparsity_constrained")],
    cg=lambda p: (ot.optim.cg(p.a, p.b, p.M, 1.0, p.funcs[0], p.funcs[1], G0=p.G0, numItermax=5), ot.optim.gcg(p.a, p.b, p.M, 1.0, 0.5, p.funcs[0], p.funcs[1], G0=p.G0, numItermax=3), ot.optim.semirelaxed_cg(p.a, p.b, p.M, 1.0, p.funcs[0], p.funcs[1], G0=p.Gs, numItermax=3)),
    regpath=lambda p: (ot.regpath.regularization_path(p.a, p.b, p.M + 0.1, reg=1e-2), ot.regpath.regularization_path(p.a, p.b, p.M + 0.1, reg=1e-2, semi_relaxed=True)),
    dual_loss=lambda p: [h(p.u, p.v, p.X, p.Y, 1.0, ws=p.a, wt=p.b) for h in (ot.stochastic.loss_dual_entropic, ot.stochastic.plan_dual_entropic, ot.stochastic.loss_dual_quadratic, ot.stochastic.plan_dual_quadratic)],
    plans=lambda p: (ot.sliced.sliced_plans(p.X, p.X2, p.a, p.a, projections=p.proj)[0:2], ot.min_sliced_transport_plan(p.X, p.X2, p.a, p.a, projections=p.proj), ot.expected_sliced_plan(p.X, p.X2, p.a, p.a, projections=p.proj, beta=1.0)),
    sliced_scaler=lambda p: (ot.sliced_wasserstein_distance(p.X, p.Y, p.a, p.b, projections=p.proj, scaler=ot.utils.DataScaler().fit([p.X, p.Y])), ot.sliced_wasserstein_sphere_unif(p.Xs3, p.a, projections=p.proj3)),
    dmmot=lambda p: ot.lp.dmmot_monge_1dgrid_loss(p.A, log=True)[0],
    dmmot_opt=lambda p: ot.lp.dmmot_monge_1dgrid_optimize(p.A, niters=3),
    batch=lambda p: [ot.batch.solve_gromov_batch(p.Cb1, p.Cb2, reg=1.0, M=p.Mb, alpha=0.5, a=p.ab, b=p.bb, T_init=p.Tb, max_iter=3), ot.batch.solve_batch(p.Mb, 1.0, p.ab, p.bb, max_iter=10), ot.batch.loss_quadratic_samples_batch(p.ab, p.bb, p.Cb1, p.Cb2, p.Tb)],
    sgot=lambda p: [ot.sgot.sgot_metric(p.Ds, p.Rs, p.Ls, p.Dt, p.Rt, p.Lt, grassmann_metric=m) for m in ("chordal", "geodesic", "procrustes", "martin")],
    wda=lambda p: (ot.dr.fda(p.X3d, p.lab3, p=2)[0], ot.dr.wda(p.X3d, p.lab3, p=1, reg=1.0, k=3, maxiter=2, P0=p.P0)[0]),
    prw=lambda p: ot.dr.projection_robust_wasserstein(p.X3d, p.Y3d, p.wu, p.wv, tau=0.002, U0=p.U0, reg=1.0, k=2, maxiter=3),
    ewca=lambda p: ot.dr.ewca(p.X3d, U0=p.U0, reg=1.0, k=2, maxiter=2, maxiter_sink=5),
    gmm=lambda p: (ot.gmm.gmm_ot_apply_map(p.X, p.ms, p.mt, p.Ss, p.St, p.w, p.w2, plan=p.gplan), ot.gmm.gmm_ot_plan_density(p.X, p.Y, p.ms, p.mt, p.Ss, p.St, p.w, p.w2, plan=p.gplan)),
).items():
    add("o:" + nm, lambda p, nx, f=f: f(p), nm in ("weak", "factored", "lowrank", "dual_loss", "sliced_scaler", "gmm", "batch", "nystroem", "sgot"))

# functions with a seed
for nm, f in dict(
    sliced=lambda p, s: ot.sliced_wasserstein_distance(p.X, p.Y, p.a, p.b, n_projections=5, seed=s),
    max_sliced=lambda p, s: ot.max_sliced_wasserstein_distance(p.X, p.Y, p.a, p.b, n_projections=5, seed=s),
    sphere=lambda p, s: ot.sliced_wasserstein_sphere(p.Xs3, p.Ys3, p.a, p.b, n_projections=4, seed=s),
    sphere_unif=lambda p, s: ot.sliced_wasserstein_sphere_unif(p.Xs3, p.a, n_projections=4, seed=s),
    linear_sphere=lambda p, s: ot.linear_sliced_wasserstein_sphere(p.Xs3, p.Ys3, p.a, p.b, n_projections=4, seed=s),
    usot=lambda p, s: None if isinstance(p.X, np.ndarray) else (U.unbalanced_sliced_ot(p.X, p.Y, 1.0, p.a, p.b, n_projections=4, seed=s, numItermax=3), U.sliced_unbalanced_ot(p.X, p.Y, 1.0, p.a, p.b, n_projections=4, seed=s, numItermax=3)),
    min_plan=lambda p, s: (ot.min_sliced_transport_plan(p.X, p.X2, p.a, p.a, n_projections=4, seed=s)[1], ot.expected_sliced_plan(p.X, p.X2, p.a, p.a, n_projections=4, seed=s)[1]),
    lowrank=lambda p, s: ot.lowrank.lowrank_sinkhorn(p.X, p.Y, p.a, p.b, reg=0.5, rank=2, init="random", numItermax=5, warn=False, seed_init=s),
    lowrank_km=lambda p, s: ot.lowrank.lowrank_sinkhorn(p.X, p.Y, p.a, p.b, reg=0.5, rank=2, init="kmeans", numItermax=5, warn=False, seed_init=s),
    lowrank_gw=lambda p, s: G.lowrank_gromov_wasserstein_samples(p.X, p.Y, p.a, p.b, rank=2, numItermax=2, warn=False, seed_init=s),
    nystroem=lambda p, s: (B.empirical_sinkhorn_nystroem2(p.X, p.Y, 3.0, anchors=2, a=p.a, b=p.b, numItermax=10, warn=False, random_state=s), ot.lowrank.kernel_nystroem(p.X, p.Y, 2, random_state=s)),
    solve_sample=lambda p, s: [ot.solve_sample(p.X, p.Y, p.a, p.b, reg=3.0, method="nystroem", rank=2, max_iter=10, random_state=s).value],
    solve_lowrank=lambda p, s: ot.solve_sample(p.X, p.Y, p.a, p.b, reg=1.0, method="lowrank", rank=2, max_iter=10, random_state=s).value,
    srgw=lambda p, s: [G.semirelaxed_gromov_wasserstein(p.C1, p.C2, p.a, G0=i, max_iter=2, random_state=s) for i in ("random", "random_product", "kmeans", "fluid", "spectral")],
    srfgw=lambda p, s: [G.semirelaxed_fused_gromov_wasserstein2(p.M, p.C1, p.C2, p.a, G0=i, max_iter=2, random_state=s) for i in ("random", "random_product", "kmeans")],
    esrgw=lambda p, s: [G.entropic_semirelaxed_gromov_wasserstein2(p.C1, p.C2, p.a, epsilon=1.0, G0=i, max_iter=2, random_state=s) for i in ("random", "random_product")],
    gwb=lambda p, s: G.gromov_barycenters(3, p.Cs, p.ps, p.w3, p.lam, max_iter=2, random_state=s),
    egwb=lambda p, s: G.entropic_gromov_barycenters(3, p.Cs, p.ps, p.w3, p.lam, epsilon=2.0, max_iter=2, random_state=s),
    fgwb=lambda p, s: G.fgw_barycenters(3, p.Ys, p.Cs, p.ps, p.lam, p=p.w3, max_iter=2, random_state=s),
    efgwb=lambda p, s: G.entropic_fused_gromov_barycenters(3, p.Ys, p.Cs, p.ps, p.w3, p.lam, epsilon=2.0, max_iter=2, random_state=s),
    srgwb=lambda p, s: G.semirelaxed_gromov_barycenters(3, p.Cs, p.ps, p.lam, max_iter=2, random_state=s, G0="random"),
    srfgwb=lambda p, s: G.semirelaxed_fgw_barycenters(3, p.Ys, p.Cs, p.ps, p.lam, max_iter=2, random_state=s, G0="random"),
    gw_est=lambda p, s: G.GW_distance_estimation(p.C1, p.C2, p.a, p.b, p.lossf, p.G0, random_state=s),
    gw_point=lambda p, s: G.pointwise_gromov_wasserstein(p.C1, p.C2, p.a, p.b, p.lossf, max_iter=4, random_state=s),
    gw_samp=lambda p, s: G.sampled_gromov_wasserstein(p.C1, p.C2, p.a, p.b, p.lossf, nb_samples_grad=2, max_iter=4, epsilon=1.0, random_state=s),
    gw_dict=lambda p, s: G.gromov_wasserstein_dictionary_learning(p.Cs, 2, 3, epochs=1, batch_size=1, max_iter_outer=2, random_state=s),
    fgw_dict=lambda p, s: G.fused_gromov_wasserstein_dictionary_learning(p.Cs, p.Ys, 2, 3, 0.5, epochs=1, batch_size=1, max_iter_outer=2, random_state=s),
    quantized=lambda p, s: [G.quantized_fused_gromov_wasserstein(p.C1, p.C2, 2, 2, p.a, p.b, part_method=m, rep_method="random", random_state=s)[0] for m in ("random", "louvain", "fluid", "spectral")],
    quantized_s=lambda p, s: [G.quantized_fused_gromov_wasserstein_samples(p.X, p.Y, 2, 2, p.a, p.b, method=m, random_state=s)[0] for m in ("random", "kmeans")],
    prw=lambda p, s: ot.dr.projection_robust_wasserstein(p.X3d, p.Y3d, p.wu, p.wv, tau=0.002, reg=1.0, k=2, maxiter=3, random_state=s),
    stoch=lambda p, s: (ot.stochastic.sag_entropic_transport(p.a, p.b, p.M, 1.0, numItermax=20, random_state=s), ot.stochastic.averaged_sgd_entropic_transport(p.a, p.b, p.M, 1.0, numItermax=20, random_state=s), ot.stochastic.sgd_entropic_regularization(p.a, p.b, p.M, 1.0, 2, 20, 0.1, random_state=s)),
    gmm_map=lambda p, s: ot.gmm.gmm_ot_apply_map(p.X, p.ms, p.mt, p.Ss, p.St, p.w, p.w2, method="rand", seed=s),
    proj=lambda p, s: (ot.sliced.get_random_projections(3, 4, seed=s), ot.sliced.get_projections_sphere(3, 4, seed=s), ot.datasets.make_2D_samples_gauss(3, np.zeros(2), np.eye(2), random_state=s)),
).items():
    seeded(nm, lambda p, nx, s, f=f: f(p, s), nm in ("sliced", "max_sliced", "sphere", "sphere_unif", "lowrank", "nystroem", "usot", "gwb", "fgwb", "srgw", "srgwb", "gmm_map"))


class NS:
    pass


def build(c, lib):
    """everything the entries need, as arrays of lib plus lists, tuples and dictionaries"""
    P = c28.extras(c28.problem(c))
    nx = NX[lib]
    r = g.rng(c["k"], 311)
    n, m, d = len(P["a"]), len(P["b"]), P["X"].shape[1]
    P.update(Gp=0.5 * P["G0"], K1=r.rand(n, 2), K2=r.rand(m, 2), X2=r.randn(n, d), a2=P["a"].copy(), a0=P["a"].copy(), b0=P["b"].copy(), A1=r.dirichlet(np.ones(n), d).T, B1=r.dirichlet(np.ones(m), d).T)
    for k in ("a0", "b0"):
        P[k][r.randint(len(P[k]))] = 0
        P[k] /= P[k].sum()
    P["C1a"], P["C2a"] = r.rand(n, n), r.rand(m, m)
    P["ac"], P["bc"] = P["a"][:, None], P["b"][:, None]
    P["X3"] = r.randn(3, d)
    P["Cd"], P["Yd"] = (lambda Z: (Z + Z.transpose(0, 2, 1)) / 2)(r.rand(2, 3, 3)), r.randn(2, 3, d)
    P["Cb1"], P["Cb2"], P["Tb"] = np.stack([P["C1"]] * 2), np.stack([P["C2"]] * 2), P["ab"][:, :, None] * P["bb"][:, None, :]
    P["X3d"], P["Y3d"] = r.randn(6, 3), r.randn(5, 3)
    P["wu"], P["wv"] = r.dirichlet(np.ones(6)), r.dirichlet(np.ones(5))
    P["U0"], P["P0"] = np.linalg.qr(r.randn(3, 2))[0], np.linalg.qr(r.randn(3, 1))[0]
    P["gplan"] = np.outer(P["w"], P["w2"])
    P["Xs2"] = r.randn(2, 6, d)
    p = NS()
    for k, v in P.items():
        setattr(p, k, nx.from_numpy(v.copy()))
    p.lab = nx.from_numpy(np.arange(n) % 2)
    p.lab3 = np.arange(6) % 2
    p.la, p.lb, p.lb2 = P["a"].tolist(), P["b"].tolist(), P["b"].tolist()
    p.duals = (nx.from_numpy(r.randn(n)), nx.from_numpy(r.randn(m)))
    p.warm = (nx.from_numpy(0.1 * r.randn(n)), nx.from_numpy(0.1 * r.randn(m)))
    p.regm = (1.5, 4.0)
    p.Msp = sp.coo_array(P["M"])
    p.funcs = (lambda Z: (Z**2).sum() / 2, lambda Z: Z)
    p.Cs, p.ps, p.lam, p.Ys = [p.C1, p.C2], [p.a, p.b], [0.4, 0.6], [p.X, p.Y]
    p.Xlist, p.ylist = [P["X"].copy(), P["X2"].copy()], [np.arange(n) % 2, (np.arange(n) + 1) % 2]
    p.costs = [lambda x, y: ot.dist(x, y)] * 2
    p.Ps = [nx.from_numpy(np.eye(d)), nx.from_numpy(np.eye(d))]
    k1, k2 = p.Xf.shape[1], p.Yf.shape[1]
    p.cwarm = {"duals_sample": (nx.from_numpy(np.zeros(n)), nx.from_numpy(np.zeros(m))), "duals_feature": (nx.from_numpy(np.zeros(k1)), nx.from_numpy(np.zeros(k2))), "pi_sample": nx.from_numpy(P["G0"].copy()), "pi_feature": nx.from_numpy(np.ones((k1, k2)) / k1 / k2)}
    p.ipi = (p.cwarm["pi_sample"], p.cwarm["pi_feature"])
    p.iduals = (p.cwarm["duals_sample"], p.cwarm["duals_feature"])
    p.plans = [np.outer(P["a"], P["b"]), np.outer(P["a"], P["w3"])]
    p.gm, p.gC, p.gw = [p.ms, p.mt], [p.Ss, p.St], [p.w, p.w2]
    p.gm0, p.gC0 = nx.from_numpy(P["ms"] + 0.1), nx.from_numpy(P["Ss"].copy())
    p.lossf = lambda x, y: np.abs(x - y)
    for s, k in (("s", 2), ("t", 3)):
        Q = r.randn(4, k) + 1j * r.randn(4, k)
        setattr(p, "D" + s, nx.from_numpy(r.rand(k) + 1j * r.randn(k)))
        setattr(p, "R" + s, nx.from_numpy(Q))
        setattr(p, "L" + s, nx.from_numpy(np.linalg.pinv(Q).conj().T.copy()))
    return p


def snap(x):
    """nested copy that can be compared bit by bit"""
    if isinstance(x, NS):
        return {k: snap(v) for k, v in vars(x).items()}
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [snap(v) for v in x]
    if sp.issparse(x):
        return ["sparse", snap(np.asarray(x.toarray()))]
    if hasattr(x, "detach"):
        return ["torch", bool(x.requires_grad), snap(x.detach().cpu().numpy())]
    if isinstance(x, np.ndarray):
        return (x.dtype.str, x.shape, x.strides, x.tobytes())
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    return id(x)


def changed(s, t, path=""):
    if type(s) is not type(t):
        return path
    if isinstance(s, dict):
        if set(s) != set(t):
            return path + " keys"
        for k in s:
            q = changed(s[k], t[k], path + "." + str(k))
            if q:
                return q
        return None
    if isinstance(s, list):
        if len(s) != len(t):
            return path + " length"
        for i, (u, v) in enumerate(zip(s, t)):
            q = changed(u, v, path + ("[%d]" % (i - 1)))
            if q:
                return q
        return None
    return None if s == t else path


def numbers(x):
    """all numeric results of a call"""
    if isinstance(x, ot.utils.OTResult):
        return numbers([x.plan if x._plan is not None else None, x.value, x.value_linear])
    if isinstance(x, dict):
        return [z for k in sorted(x, key=str) for z in numbers(x[k])]
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in numbers(y)]
    if x is None or callable(x) or isinstance(x, str):
        return []
    if sp.issparse(x):
        x = x.toarray()
    if hasattr(x, "detach"):
        x = x.detach()
        x = (x.to_dense() if x.is_sparse else x).cpu().numpy()
    return [np.asarray(x)]


def same(W, H, msg):
    ensure(len(W) == len(H), "%s: %d results instead of %d", msg, len(H), len(W))
    for w, h in zip(W, H):
        ensure(w.shape == h.shape and w.dtype == h.dtype, "%s: shape or dtype differs", msg)
        if w.dtype.kind not in "fc":
            ensure((w == h).all(), msg)
            continue
        ensure((np.isnan(w) == np.isnan(h)).all(), "%s: NaN pattern differs", msg)
        f = np.isfinite(w)
        ensure((f == np.isfinite(h)).all(), "%s: not finite", msg)
        if f.any():
            sc = 1 + np.abs(w[f]).max()
            ensure(np.abs(w[f] - h[f]).max() <= 1e-8 * sc, "%s: differ by %g", msg, np.abs(w[f] - h[f]).max())


def silent(f, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return quiet(f, *a)[0]


PROB = dict(n=st.integers(3, 6), m=st.integers(3, 6), d=st.integers(2, 3), k=g.seeds)
NAMES = sorted(S)


@facet(g.record(f=st.sampled_from(NAMES), torch=st.booleans(), **PROB), 900, 20000, weight=3)
def inputs(c, rec):
    """arrays, lists, tuples and dictionaries passed by the caller are bit by bit unchanged after the call"""
    f, tt = S[c["f"]]
    lib = "torch" if c["torch"] and tt else "numpy"
    p = build(c, lib)
    before = snap(p)
    out = silent(f, p, NX[lib])
    q = changed(before, snap(p))
    rec.nontrivial(len(numbers(out)) > 0)
    rec.label(lib, c["f"].split(":")[0] if ":" in c["f"] else "solver")
    if c["f"] == "b:gmm" and q in (".gm0", ".gC0"):
        return rec.known("gmm-init", "gmm_barycenter_fixed_point overwrites %s" % q)
    ensure(q is None, "%s modifies its input %s (%s)", c["f"], q, lib)


@facet(g.record(f=st.sampled_from(NAMES), h=st.lists(st.sampled_from(NAMES), min_size=1, max_size=3), k2=g.seeds, seed=g.seeds, shared=st.booleans(), **PROB), 600, 12000, weight=6)
def histories(c, rec):
    """a call returns the same result after any other calls, with any global random state, on the same or on equal arrays; earlier results are not modified"""
    f, _ = S[c["f"]]
    if c["shared"] and "b:gmm" in [c["f"]] + c["h"]:
        return rec.skip("known finding gmm-init: the shared initialisation is overwritten")
    p = build(c, "numpy")
    np.random.seed(c["seed"] % 1000)
    first = numbers(silent(f, p, NX["numpy"]))
    kept = snap(first)
    mid = build(dict(c, k=c["k2"]), "numpy") if not c["shared"] else p
    for h in c["h"]:
        silent(S[h][0], mid, NX["numpy"])
    np.random.seed(c["seed"] % 1000 + 7)
    again = numbers(silent(f, p if c["shared"] else build(c, "numpy"), NX["numpy"]))
    rec.nontrivial(len(first) > 0)
    rec.label("shared arrays" if c["shared"] else "fresh arrays")
    same(first, again, "%s after %s" % (c["f"], c["h"]))
    q = changed(kept, snap(first))
    ensure(q is None, "result of %s is modified by later calls %s", c["f"], c["h"] + [c["f"]])


def relayout(x, how):
    """equal values, other memory layout"""
    if isinstance(x, NS):
        y = NS()
        for k, v in vars(x).items():
            setattr(y, k, relayout(v, how))
        return y
    if isinstance(x, dict):
        return {k: relayout(v, how) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(relayout(v, how) for v in x)
    if not isinstance(x, np.ndarray):
        return x
    if how == "strided":
        big = np.full(tuple(2 * k for k in x.shape), -7.5, dtype=x.dtype)
        v = big[tuple(slice(None, None, 2) for _ in x.shape)]
    elif how == "reversed":
        v = np.empty(x.shape, dtype=x.dtype)[tuple(slice(None, None, -1) for _ in x.shape)]
    else:
        v = np.empty(x.shape, dtype=x.dtype, order="F")
    v[...] = x
    if how == "readonly":
        v.setflags(write=False)
    return v


@facet(g.record(f=st.sampled_from(NAMES), how=st.sampled_from(["strided", "reversed", "fortran", "readonly"]), **PROB), 600, 12000, weight=2)
def layouts(c, rec):
    """the result depends on the values of the arrays only: strided, reversed, Fortran-ordered and read-only arrays give the same"""
    f, _ = S[c["f"]]
    W = numbers(silent(f, build(c, "numpy"), NX["numpy"]))
    if c["f"] == "b:gmm" and c["how"] == "readonly":
        return rec.skip("known finding gmm-init")
    H = numbers(silent(f, relayout(build(c, "numpy"), c["how"]), NX["numpy"]))
    rec.nontrivial(len(W) > 0)
    rec.label(c["how"])
    same(W, H, "%s on %s arrays" % (c["f"], c["how"]))


@facet(g.record(f=st.sampled_from(sorted(SEEDED)), torch=st.booleans(), seed=st.integers(0, 10**6), inst=st.booleans(), **PROB), 400, 10000, weight=3)
def seeds(c, rec):
    """a seeded call depends on the seed only, and leaves the global random states alone"""
    f, tt = SEEDED[c["f"]]
    lib = "torch" if c["torch"] and tt else "numpy"
    p = build(c, lib)
    nx = NX[lib]
    s = c["seed"]
    np.random.seed(1)
    if lib == "torch":
        import torch

        torch.manual_seed(1)
    state = np.random.get_state()
    before = snap(p)
    A = numbers(silent(f, p, nx, s))
    after = np.random.get_state()
    ensure(after[2] == state[2] and (after[1] == state[1]).all(), "%s with a seed consumes the global random state", c["f"])
    if lib == "torch":
        t0 = torch.random.get_rng_state()
        torch.manual_seed(1)
        ensure((torch.random.get_rng_state() == t0).all(), "%s with a seed consumes the global torch random state", c["f"])
    ensure(changed(before, snap(p)) is None, "%s modifies its inputs", c["f"])
    np.random.seed(s % 100 + 2)
    np.random.rand(3)
    nx.seed(s % 50)
    Bn = numbers(silent(f, p, nx, s))
    rec.nontrivial(len(A) > 0)
    rec.label(c["f"], lib)
    same(A, Bn, "%s with the same seed (%s)" % (c["f"], lib))


@facet(g.record(cls=st.sampled_from(sorted(CLS)), cost=st.booleans(), lab=st.booleans(), refit=st.booleans(), **PROB), 300, 6000)
def estimators(c, rec):
    """fitting a domain adaptation estimator changes neither the data nor its parameters; refitting after other data gives the same transport"""
    name = c["cls"].split("_")[0]
    e = getattr(ot.da, name)(**CLS[c["cls"]])
    p = build(dict(c, m=c["n"]) if name == "MappingTransport" and 0 else c, "numpy")
    q = build(dict(c, k=c["k"] + 1), "numpy")
    kw = dict(Xs=p.X, Xt=p.Y)
    if c["lab"] or name in ("SinkhornLpl1Transport", "SinkhornL1l2Transport"):
        kw["ys"] = p.lab
    before, par = snap(p), snap({k: v for k, v in e.get_params().items()})
    silent(lambda: e.fit(**kw))
    T1 = np.array(silent(lambda: e.transform(p.X)))
    rec.nontrivial(True)
    rec.label(name)
    bad = changed(before, snap(p))
    ensure(bad is None, "%s.fit modifies its input %s", name, bad)
    bad = changed(par, snap(e.get_params()))
    ensure(bad is None, "%s.fit modifies its own parameter %s", name, bad)
    if c["refit"]:
        silent(lambda: e.fit(Xs=q.X, Xt=q.Y, ys=q.lab if "ys" in kw else None))
        silent(lambda: e.transform(q.X))
        silent(lambda: e.fit(**kw))
        same([T1], [np.array(silent(lambda: e.transform(p.X)))], "%s refitted on the first data" % name)
