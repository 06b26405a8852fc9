"""C32: invalid problems are rejected; extreme valid ones are solved."""

import contextlib
import io
import warnings

import numpy as np
import ot
import ot.coot
import ot.dr
import ot.sgot
from hypothesis import strategies as st

import gen as g
from core import FACETS, close, ensure, facet
from checks import c31

FACETS.clear()
META = {
    "backends": ["torch"],
    "rule": "non-trivial when an invalid call was really attempted (its arguments do violate the precondition), or when a solver returned a result for a boundary input",
    "assumptions": ["unknown names of options that are documented to be ignored in the configuration at hand are not required to raise"],
}
G, B, U, D = ot.gromov, ot.bregman, ot.unbalanced, ot.da


def setup():
    c31.setup()


def table(p, t):
    """invalid calls, by name: p holds NumPy arrays of one problem, t the same arrays of PyTorch"""
    I = {}

    def bad(n, f):
        I[n] = f

    # dimension mismatches
    for nm, f in dict(
        emd=lambda a, b, M: ot.emd(a, b, M),
        emd2=lambda a, b, M: ot.emd2(a, b, M),
        sinkhorn=lambda a, b, M: ot.sinkhorn(a, b, M, 1.0),
        sinkhorn_log=lambda a, b, M: ot.sinkhorn(a, b, M, 1.0, method="sinkhorn_log"),
        stab=lambda a, b, M: ot.sinkhorn(a, b, M, 1.0, method="sinkhorn_stabilized"),
        eps=lambda a, b, M: ot.sinkhorn(a, b, M, 1.0, method="sinkhorn_epsilon_scaling"),
        green=lambda a, b, M: ot.sinkhorn(a, b, M, 1.0, method="greenkhorn"),
        sinkhorn2=lambda a, b, M: ot.sinkhorn2(a, b, M, 1.0),
        unb=lambda a, b, M: U.sinkhorn_unbalanced(a, b, M, 1.0, 1.0),
        unbs=lambda a, b, M: U.sinkhorn_unbalanced(a, b, M, 1.0, 1.0, method="sinkhorn_stabilized"),
        unbt=lambda a, b, M: U.sinkhorn_unbalanced(a, b, M, 1.0, 1.0, method="sinkhorn_translation_invariant"),
        mm=lambda a, b, M: U.mm_unbalanced(a, b, M, 1.0),
        lb=lambda a, b, M: U.lbfgsb_unbalanced(a, b, M, 1.0, 1.0),
        part=lambda a, b, M: ot.partial.partial_wasserstein(a, b, M, m=0.5),
        epart=lambda a, b, M: ot.partial.entropic_partial_wasserstein(a, b, M, 1.0, m=0.5),
        lag=lambda a, b, M: ot.partial.partial_wasserstein_lagrange(a, b, M, 1.0),
        solve=lambda a, b, M: ot.solve(M, a, b),
        solver=lambda a, b, M: ot.solve(M, a, b, reg=1.0),
        solveu=lambda a, b, M: ot.solve(M, a, b, reg=1.0, unbalanced=1.0),
        smooth=lambda a, b, M: ot.smooth.smooth_ot_dual(a, b, M, 1.0),
        smooths=lambda a, b, M: ot.smooth.smooth_ot_semi_dual(a, b, M, 1.0),
        screen=lambda a, b, M: B.screenkhorn(a, b, M, 1.0),
        cg=lambda a, b, M: ot.optim.cg(a, b, M, 1.0, *p.funcs),
        gcg=lambda a, b, M: ot.optim.gcg(a, b, M, 1.0, 1.0, *p.funcs),
        sag=lambda a, b, M: ot.stochastic.solve_semi_dual_entropic(a, b, M, 1.0, "sag", numItermax=10),
        dual=lambda a, b, M: ot.stochastic.solve_dual_entropic(a, b, M, 1.0, 2, numItermax=10),
        regpath=lambda a, b, M: ot.regpath.regularization_path(a, b, M + 0.1, 0.01),
    ).items():
        bad("dim-a-" + nm, lambda f=f: f(p.a[:-1] / p.a[:-1].sum(), p.b, p.M))
        bad("dim-b-" + nm, lambda f=f: f(p.a, np.append(p.b, 0.1) / 1.1, p.M))
        bad("dim-T-" + nm, lambda f=f: f(p.a, p.b, p.M.T))
        bad("mix-" + nm, lambda f=f: f(t.a, p.b, p.M))
        bad("mix2-" + nm, lambda f=f: f(p.a, p.b, t.M))
    for nm, f in dict(
        gw=lambda C1, C2, a, b: G.gromov_wasserstein(C1, C2, a, b),
        gw2=lambda C1, C2, a, b: G.gromov_wasserstein2(C1, C2, a, b),
        egw=lambda C1, C2, a, b: G.entropic_gromov_wasserstein(C1, C2, a, b, epsilon=1.0),
        bapg=lambda C1, C2, a, b: G.BAPG_gromov_wasserstein(C1, C2, a, b, epsilon=1.0),
        fgw=lambda C1, C2, a, b: G.fused_gromov_wasserstein(p.M, C1, C2, a, b),
        pgw=lambda C1, C2, a, b: G.partial_gromov_wasserstein(C1, C2, a, b, m=0.5),
        epgw=lambda C1, C2, a, b: G.entropic_partial_gromov_wasserstein(C1, C2, a, b, m=0.5),
        srgw=lambda C1, C2, a, b: G.semirelaxed_gromov_wasserstein(C1, C2, a),
        solve=lambda C1, C2, a, b: ot.solve_gromov(C1, C2, a=a, b=b),
        fugw=lambda C1, C2, a, b: G.fused_unbalanced_gromov_wasserstein(C1, C2, a, b, epsilon=1.0),
    ).items():
        bad("gdim-a-" + nm, lambda f=f: f(p.C1, p.C2, p.a[:-1] / p.a[:-1].sum(), p.b))
        bad("gdim-b-" + nm, lambda f=f: f(p.C1, p.C2, p.a, np.append(p.b, 0.1) / 1.1)) if nm != "srgw" else 0
        bad("gdim-C-" + nm, lambda f=f: f(p.C1, p.M, p.a, p.b))
        bad("gmix-" + nm, lambda f=f: f(p.C1, t.C2, p.a, p.b))
    # masses
    for nm, f in dict(
        emd=lambda a, b, M: ot.emd(a, b, M),
        emd2=lambda a, b, M: ot.emd2(a, b, M),
        solve=lambda a, b, M: ot.solve(M, a, b),
        lazy=lambda a, b, M: ot.lp.emd2_lazy(p.X, p.Y, a, b),
        sample=lambda a, b, M: ot.solve_sample(p.X, p.Y, a, b),
    ).items():
        bad("mass-" + nm, lambda f=f: f(p.a, 1.1 * p.b, p.M))
    for nm, f in dict(
        pw=lambda m: ot.partial.partial_wasserstein(p.a, p.b, p.M, m=m),
        pw2=lambda m: ot.partial.partial_wasserstein2(p.a, p.b, p.M, m=m),
        epw=lambda m: ot.partial.entropic_partial_wasserstein(p.a, p.b, p.M, 1.0, m=m),
        pgw=lambda m: G.partial_gromov_wasserstein(p.C1, p.C2, p.a, p.b, m=m),
        pgw2=lambda m: G.partial_gromov_wasserstein2(p.C1, p.C2, p.a, p.b, m=m),
        pfgw=lambda m: G.partial_fused_gromov_wasserstein(p.M, p.C1, p.C2, p.a, p.b, m=m),
        epgw=lambda m: G.entropic_partial_gromov_wasserstein(p.C1, p.C2, p.a, p.b, m=m),
        epfgw=lambda m: G.entropic_partial_fused_gromov_wasserstein(p.M, p.C1, p.C2, p.a, p.b, m=m),
        old=lambda m: ot.partial.partial_gromov_wasserstein(p.C1, p.C2, p.a, p.b, m=m),
        olde=lambda m: ot.partial.entropic_partial_gromov_wasserstein(p.C1, p.C2, p.a, p.b, 1.0, m=m),
        sg=lambda m: ot.solve_gromov(p.C1, p.C2, a=p.a, b=p.b, unbalanced=m, unbalanced_type="partial"),
    ).items():
        bad("m-neg-" + nm, lambda f=f: f(-0.1))
        bad("m-big-" + nm, lambda f=f: f(1.3))
    bad("m-1dneg", lambda: ot.partial.partial_wasserstein_1d(p.x, p.y, -1))
    # names
    X = "nonsense"
    for nm, f in {
        "sinkhorn": lambda: ot.sinkhorn(p.a, p.b, p.M, 1.0, method=X),
        "sinkhorn2": lambda: ot.sinkhorn2(p.a, p.b, p.M, 1.0, method=X),
        "uot": lambda: U.sinkhorn_unbalanced(p.a, p.b, p.M, 1.0, 1.0, method=X),
        "uot2": lambda: U.sinkhorn_unbalanced2(p.a, p.b, p.M, 1.0, 1.0, method=X),
        "uot_rt": lambda: U.sinkhorn_unbalanced(p.a, p.b, p.M, 1.0, 1.0, reg_type=X),
        "uot_rc": lambda: U.sinkhorn_unbalanced2(p.a, p.b, p.M, 1.0, 1.0, returnCost=X),
        "mm": lambda: U.mm_unbalanced(p.a, p.b, p.M, 1.0, div=X),
        "lb": lambda: U.lbfgsb_unbalanced(p.a, p.b, p.M, 1.0, 1.0, reg_div=X),
        "lbm": lambda: U.lbfgsb_unbalanced(p.a, p.b, p.M, 1.0, 1.0, regm_div=X),
        "bary": lambda: B.barycenter(p.A, p.Mnn, 1.0, method=X),
        "baryd": lambda: B.barycenter_debiased(p.A, p.Mnn, 1.0, method=X),
        "conv": lambda: B.convolutional_barycenter2d(p.img, 0.1, method=X),
        "convd": lambda: B.convolutional_barycenter2d_debiased(p.img, 0.1, method=X),
        "ub": lambda: U.barycenter_unbalanced(p.A, p.Mnn, 1.0, 1.0, method=X),
        "gw": lambda: G.gromov_wasserstein(p.C1, p.C2, loss_fun=X),
        "gw2": lambda: G.gromov_wasserstein2(p.C1, p.C2, loss_fun=X),
        "egw": lambda: G.entropic_gromov_wasserstein(p.C1, p.C2, loss_fun=X, epsilon=1.0),
        "egws": lambda: G.entropic_gromov_wasserstein(p.C1, p.C2, epsilon=1.0, solver=X),
        "efgws": lambda: G.entropic_fused_gromov_wasserstein(p.M, p.C1, p.C2, epsilon=1.0, solver=X),
        "bapg": lambda: G.BAPG_gromov_wasserstein(p.C1, p.C2, loss_fun=X),
        "srgw": lambda: G.semirelaxed_gromov_wasserstein(p.C1, p.C2, loss_fun=X),
        "srgwi": lambda: G.semirelaxed_gromov_wasserstein(p.C1, p.C2, G0=X),
        "pgw": lambda: G.partial_gromov_wasserstein(p.C1, p.C2, m=0.5, loss_fun=X),
        "epgw": lambda: G.entropic_partial_gromov_wasserstein(p.C1, p.C2, m=0.5, loss_fun=X),
        "gwb": lambda: G.gromov_barycenters(3, p.Cs, p.ps, p.w3, p.lam, loss_fun=X),
        "gwbs": lambda: G.gromov_barycenters(3, p.Cs, p.ps, p.w3, p.lam, stop_criterion=X),
        "fgwbs": lambda: G.fgw_barycenters(3, p.Ys, p.Cs, p.ps, p.lam, stop_criterion=X),
        "fgwb": lambda: G.fgw_barycenters(3, p.Ys, p.Cs, p.ps, p.lam, loss_fun=X),
        "egwb": lambda: G.entropic_gromov_barycenters(3, p.Cs, p.ps, p.w3, p.lam, loss_fun=X),
        "egwbs": lambda: G.entropic_gromov_barycenters(3, p.Cs, p.ps, p.w3, p.lam, stop_criterion=X),
        "efgwbs": lambda: G.entropic_fused_gromov_barycenters(3, p.Ys, p.Cs, p.ps, p.w3, p.lam, stop_criterion=X),
        "srgwb": lambda: G.semirelaxed_gromov_barycenters(3, p.Cs, p.ps, p.lam, stop_criterion=X),
        "srgwbl": lambda: G.semirelaxed_gromov_barycenters(3, p.Cs, p.ps, p.lam, loss_fun=X),
        "srfgwb": lambda: G.semirelaxed_fgw_barycenters(3, p.Ys, p.Cs, p.ps, p.lam, stop_criterion=X),
        "ucoot": lambda: G.unbalanced_co_optimal_transport(p.Xf, p.Yf, unbalanced_solver=X, epsilon=1.0),
        "ucootd": lambda: G.unbalanced_co_optimal_transport(p.Xf, p.Yf, divergence=X, epsilon=1.0),
        "fugwd": lambda: G.fused_unbalanced_gromov_wasserstein(p.C1, p.C2, divergence=X, epsilon=1.0),
        "fugwr": lambda: G.fused_unbalanced_gromov_wasserstein(p.C1, p.C2, reg_type=X, epsilon=1.0),
        "fugws": lambda: G.fused_unbalanced_gromov_wasserstein(p.C1, p.C2, unbalanced_solver=X, epsilon=1.0),
        "qp": lambda: G.quantized_fused_gromov_wasserstein(p.C1, p.C2, 2, 2, part_method=X),
        "qs": lambda: G.quantized_fused_gromov_wasserstein_samples(p.X, p.Y, 2, 2, method=X),
        "dist": lambda: ot.dist(p.X, p.Y, X),
        "distt": lambda: ot.dist(t.X, t.Y, "canberra"),
        "emd1d": lambda: ot.emd_1d(p.x, p.y, metric=X),
        "emd21d": lambda: ot.emd2_1d(p.x, p.y, metric=X),
        "solve_rt": lambda: ot.solve(p.M, p.a, p.b, reg=1.0, reg_type=X),
        "solve_ut": lambda: ot.solve(p.M, p.a, p.b, reg=1.0, unbalanced=1.0, unbalanced_type=X),
        "solve_ut0": lambda: ot.solve(p.M, p.a, p.b, unbalanced=1.0, unbalanced_type=X),
        "ss_met": lambda: ot.solve_sample(p.X, p.Y, metric=X),
        "sg_l": lambda: ot.solve_gromov(p.C1, p.C2, loss=X),
        "sg_m": lambda: ot.solve_gromov(p.C1, p.C2, reg=1.0, method=X),
        "sg_rt": lambda: ot.solve_gromov(p.C1, p.C2, reg=1.0, reg_type=X),
        "sg_ut": lambda: ot.solve_gromov(p.C1, p.C2, unbalanced=0.5, unbalanced_type=X),
        "sb_rt": lambda: ot.batch.solve_batch(p.Mb, 1.0, reg_type=X),
        "sb_s": lambda: ot.batch.solve_batch(p.Mb, 1.0, solver=X),
        "sgb_l": lambda: ot.batch.solve_gromov_batch(p.Cb1, p.Cb2, reg=1.0, loss=X),
        "db": lambda: ot.batch.dist_batch(p.Cb1, p.Cb1, metric=X),
        "smooth": lambda: ot.smooth.smooth_ot_dual(p.a, p.b, p.M, 1.0, reg_type=X),
        "smooths": lambda: ot.smooth.smooth_ot_semi_dual(p.a, p.b, p.M, 1.0, reg_type=X),
        "sag": lambda: ot.stochastic.solve_semi_dual_entropic(p.a, p.b, p.M, 1.0, X),
        "wda": lambda: ot.dr.wda(p.X3d, p.lab3, sinkhorn_method=X, maxiter=1),
        "ewca": lambda: ot.dr.ewca(p.X3d, U0=p.U0, k=2, method=X, maxiter=1),
        "ewcas": lambda: ot.dr.ewca(p.X3d, U0=p.U0, k=2, sinkhorn_method=X, maxiter=1),
        "bures": lambda: ot.gaussian.bures_wasserstein_barycenter(p.ms, p.Ss, method=X),
        "gmmmap": lambda: ot.gmm.gmm_ot_apply_map(p.X, p.ms, p.mt, p.Ss, p.St, p.w, p.w2, method=X),
        "gmmb": lambda: ot.gmm.gmm_barycenter_fixed_point(p.gm, p.gC, p.gw, p.gm0, p.gC0, p.w46, barycentric_proj_method=X),
        "gen": lambda: ot.lp.free_support_barycenter_generic_costs(p.Ys, p.ps, p.X3, p.costs, method=X),
        "lowinit": lambda: ot.lowrank.lowrank_sinkhorn(p.X, p.Y, rank=2, init=X),
        "lap": lambda: D.emd_laplace(p.a, p.b, p.X, p.Y, p.M, sim=X),
        "lapr": lambda: D.emd_laplace(p.a, p.b, p.X, p.Y, p.M, sim_param=2, reg=X),
        "norm": lambda: ot.utils.cost_normalization(p.M, X),
        "scaler": lambda: ot.utils.DataScaler(X),
        "oos2": lambda: D.SinkhornTransport(out_of_sample_map=X),
        "ubt": lambda: D.UnbalancedSinkhornTransport(method=X).fit(Xs=p.X, Xt=p.Y),
        "mapk": lambda: D.MappingTransport(kernel=X).fit(Xs=p.X, Xt=p.Y),
        "nbp": lambda: ot.mapping.nearest_brenier_potential_fit(p.X, p.X2, its=1, init_method=X),
        "sgot": lambda: ot.sgot.sgot_metric(p.Ds, p.Rs, p.Ls, p.Dt, p.Rt, p.Lt, grassmann_metric=X),
        "sgotE": lambda: ot.sgot.sgot_metric(p.Ds, p.Rs, p.Ls, p.Dt, p.Rt, p.Lt, eigen_scaling=X),
        "uot1d": lambda: U.uot_1d(t.x, t.y, 1.0, returnCost=X),
        "coot_ls": lambda: ot.coot.co_optimal_transport(p.Xf, p.Yf, method_sinkhorn=X, epsilon=1.0),
        "geom": lambda: B.empirical_sinkhorn2_geomloss(p.X, p.Y, 1.0, metric=X),
        "emp": lambda: B.empirical_sinkhorn(p.X, p.Y, 1.0, metric=X),
        "bapgl": lambda: G.BAPG_fused_gromov_wasserstein(p.M, p.C1, p.C2, loss_fun=X),
        "kern": lambda: ot.utils.kernel(p.X, p.Y, method=X),
    }.items():
        bad("name-" + nm, f)
    # options
    for nm, f in {
        "lazy-grad": lambda: ot.solve_sample(p.X, p.Y, lazy=True, reg=1.0, unbalanced=1.0),
        "lowrank-unb": lambda: ot.solve_sample(p.X, p.Y, method="lowrank", unbalanced=1.0),
        "fact-unb": lambda: ot.solve_sample(p.X, p.Y, method="factored", unbalanced=1.0),
        "fact-metric": lambda: ot.solve_sample(p.X, p.Y, method="factored", metric="euclidean", reg=1.0),
        "gauss-metric": lambda: ot.solve_sample(p.X, p.Y, method="gaussian", metric="euclidean"),
        "nx": lambda: ot.backend.get_backend("a"),
        "nx0": lambda: ot.backend.get_backend(),
        "nx2": lambda: ot.backend.get_backend(3.0),
        "screen1": lambda: B.screenkhorn(p.a, p.b, p.M, 1.0, ns_budget=40),
        "lowrankneg": lambda: ot.lowrank.lowrank_sinkhorn(p.X, p.Y, rank=-1),
        "lralpha": lambda: ot.lowrank.lowrank_sinkhorn(p.X, p.Y, rank=2, alpha=0.9),
        "dd": lambda: ot.wasserstein_1d(p.x, p.Y),
        "p<1": lambda: ot.wasserstein_1d(p.x, p.y, p=0.5),
        "circ-p": lambda: ot.wasserstein_circle(p.u, p.v, p=0.5),
        "sl-dim": lambda: ot.sliced_wasserstein_distance(p.X, p.Xs3),
        "msl-dim": lambda: ot.max_sliced_wasserstein_distance(p.X, p.Xs3),
        "sph": lambda: ot.sliced_wasserstein_sphere(5 * p.Xs3, p.Ys3),
        "sphd": lambda: ot.sliced_wasserstein_sphere(p.X, p.Ys3),
        "lsph": lambda: ot.linear_sliced_wasserstein_sphere(5 * p.Xs3, p.Ys3),
        "uni": lambda: ot.sliced_wasserstein_sphere_unif(5 * p.Xs3),
        "dist-dim": lambda: ot.dist(p.X, p.Xs3),
        "emd1-dim": lambda: ot.emd_1d(p.X, p.Y),
        "plans": lambda: ot.sliced.sliced_plans(p.X, p.Xs3),
        "srgw-fused": lambda: G.semirelaxed_fused_gromov_wasserstein(p.M.T, p.C1, p.C2, p.a),
        "fgw-M": lambda: G.fused_gromov_wasserstein(p.M.T, p.C1, p.C2, p.a, p.b),
        "solve_gromov-M": lambda: ot.solve_gromov(p.C1, p.C2, p.M.T, p.a, p.b),
        "gmm-d": lambda: ot.gmm.gmm_ot_loss(p.ms, p.mt[:, :1], p.Ss, p.St, p.w, p.w2),
        "uot-regm3": lambda: U.sinkhorn_unbalanced(p.a, p.b, p.M, 1.0, (1.0, 2.0, 3.0)),
        "mm-regm3": lambda: U.mm_unbalanced(p.a, p.b, p.M, (1.0, 2.0, 3.0)),
        "list3": lambda: ot.utils.get_parameter_pair([1.0, 2.0, 3.0]),
        "emd-4": lambda: ot.emd(p.a, p.b, np.zeros((4, 5, 2))),
        "nan-backend": lambda: ot.emd(p.a, p.b, "M"),
    }.items():
        bad("opt-" + nm, f)
    return I


LOOSE = {"dim-T-regpath", "mix-regpath", "mix2-regpath"}


class Dummy:
    """stands for the arrays while the names of the calls are collected"""

    def __getattr__(self, k):
        return self


NAMES_BAD = sorted(k for k in table(Dummy(), Dummy()) if k not in LOOSE)


@facet(g.record(f=st.lists(st.sampled_from(NAMES_BAD), min_size=3, max_size=8), n=st.integers(3, 5), up=st.integers(1, 3), swap=st.booleans(), d=st.sampled_from([2, 4]), k=g.seeds), 260, 6000, weight=3)
def invalid(c, rec):
    """a call violating a precondition raises; it never returns a result"""
    n, m = c["n"], c["n"] + c["up"]
    if c["swap"]:
        n, m = m, n
    pr = dict(n=n, m=m, d=c["d"], k=c["k"])
    p, t = c31.build(pr, "numpy"), c31.build(pr, "torch")
    I = table(p, t)
    for f in c["f"]:
        try:
            with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = I[f]()
        except Exception as e:
            rec.nontrivial(True)
            rec.label(f.split("-")[0], type(e).__name__)
            continue
        ensure(False, "%s is accepted (%d x %d) and returns %r", f, n, m, str(out)[:200])


def uniform(k):
    return np.ones(k) / k


# ---------------------------------------------------------------- boundary inputs
# balanced solvers: with one atom on a side, or with a constant cost and an entropic method, the plan is the product
PLAN = {
    "emd": lambda a, b, M: ot.emd(a, b, M),
    "emd-sparse": lambda a, b, M: ot.emd(a, b, __import__("scipy.sparse", fromlist=["x"]).coo_matrix(M + 1.0)).toarray(),
    "emd2": lambda a, b, M: ot.emd2(a, b, M, return_matrix=True, log=True)[1]["G"],
    "solve": lambda a, b, M: ot.solve(M, a, b).plan,
    "solve-grad": lambda a, b, M: ot.solve(M, a, b, reg=1.0, tol=1e-12).plan,
    "solve-l2": lambda a, b, M: ot.solve(M, a, b, reg=1.0, reg_type="L2").plan,
    "solve-entropy": lambda a, b, M: ot.solve(M, a, b, reg=1.0, reg_type="entropy").plan,
    "cg": lambda a, b, M: ot.optim.cg(a, b, M, 1.0, lambda G: 0.5 * np.sum(G**2), lambda G: G),
    "gcg": lambda a, b, M: ot.optim.gcg(a, b, M, 1.0, 1.0, lambda G: 0.5 * np.sum(G**2), lambda G: G),
    "smooth-kl": lambda a, b, M: ot.smooth.smooth_ot_dual(a, b, M, 1.0, reg_type="kl"),
    "smooth-semi-kl": lambda a, b, M: ot.smooth.smooth_ot_semi_dual(a, b, M, 1.0, reg_type="kl"),
    "smooth-semi-l2": lambda a, b, M: ot.smooth.smooth_ot_semi_dual(a, b, M, 1.0, reg_type="l2"),
    "partial-all": lambda a, b, M: ot.partial.partial_wasserstein(a, b, M, m=min(a.sum(), b.sum())),
    "gw": lambda a, b, M: G.gromov_wasserstein(M @ M.T, M.T @ M, a, b),
    "fgw": lambda a, b, M: G.fused_gromov_wasserstein(M, M @ M.T, M.T @ M, a, b),
    "egw": lambda a, b, M: G.entropic_gromov_wasserstein(M @ M.T, M.T @ M, a, b, epsilon=1.0),
    "egw-ppa": lambda a, b, M: G.entropic_gromov_wasserstein(M @ M.T, M.T @ M, a, b, epsilon=1.0, solver="PPA"),
    "bapg": lambda a, b, M: G.BAPG_gromov_wasserstein(M @ M.T, M.T @ M, a, b, epsilon=1.0),
    "pgw-all": lambda a, b, M: G.partial_gromov_wasserstein(M @ M.T, M.T @ M, a, b, m=min(a.sum(), b.sum())),
    "solve_gromov": lambda a, b, M: ot.solve_gromov(M @ M.T, M.T @ M, M, a, b).plan,
    "solve_gromov-reg": lambda a, b, M: ot.solve_gromov(M @ M.T, M.T @ M, M, a, b, reg=1.0).plan,
    "batch": lambda a, b, M: np.asarray(ot.batch.solve_batch(M[None], 1.0, a=a[None], b=b[None], tol=1e-12).plan)[0],
    "stabilized-0.3": lambda a, b, M: ot.sinkhorn(a, b, M, 0.3, method="sinkhorn_stabilized"),
}
for meth in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized", "sinkhorn_epsilon_scaling", "greenkhorn"):
    PLAN[meth] = lambda a, b, M, meth=meth: ot.sinkhorn(a, b, M, 1.0, method=meth, stopThr=1e-12)
ENTROPIC = ["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized", "sinkhorn_epsilon_scaling", "greenkhorn", "solve-grad", "solve-entropy", "smooth-kl", "smooth-semi-kl", "batch", "stabilized-0.3"]
SAMPLES = {
    "solve_sample": lambda a, b, X, Y: ot.solve_sample(X, Y, a, b).plan,
    "solve_sample-reg": lambda a, b, X, Y: ot.solve_sample(X, Y, a, b, reg=1.0, tol=1e-12).plan,
    "solve_sample-lazy": lambda a, b, X, Y: ot.solve_sample(X, Y, a, b, reg=1.0, lazy=True, tol=1e-12).lazy_plan[:],
    "emd2_lazy": lambda a, b, X, Y: ot.lp.emd2_lazy(X, Y, a, b, log=True, return_matrix=True)[1]["G"],
    "empirical": lambda a, b, X, Y: B.empirical_sinkhorn(X, Y, 1.0, a, b, stopThr=1e-12),
    "emd_1d": lambda a, b, X, Y: ot.emd_1d(X[:, 0], Y[:, 0], a, b),
}
SIDE = dict(n=st.integers(1, 4), m=st.integers(1, 4), zero=st.booleans(), k=g.seeds)


def sides(c, one):
    n, m = c["n"], c["m"]
    if one == "left":
        n = 1
    if one == "right":
        m = 1
    if one == "both":
        n = m = 1
    r = g.rng(c["k"], 321)
    a, b = (r.dirichlet(np.ones(k) * 3) * 0.9 + 0.1 / k for k in (n, m))
    if c["zero"] and one == "left" and m > 1:
        b[r.randint(m)] = 0
        b /= b.sum()
    if c["zero"] and one == "right" and n > 1:
        a[r.randint(n)] = 0
        a /= a.sum()
    a[-1] += 1 - a.sum()
    b[-1] += 1 - b.sum()
    return r, np.maximum(a, 0), np.maximum(b, 0)


@facet(g.record(f=st.sampled_from(sorted(set(PLAN) - {"bapg"}) + sorted(SAMPLES)), one=st.sampled_from(["left", "right", "both"]), cost=st.sampled_from(["random", "zero", "huge", "tiny"]), **SIDE), 700, 14000, weight=2)
def single(c, rec):
    """with a single atom on a side the product of the weights is the only coupling: every balanced solver returns it, whatever the cost"""
    r, a, b = sides(c, c["one"])
    if (a == 0).any() or (b == 0).any():
        if c["f"] not in ("emd", "emd2", "solve", "emd-sparse", "emd2_lazy", "solve_sample", "emd_1d", "partial-all", "sinkhorn_log", "gw", "fgw", "pgw-all", "solve_gromov", "cg", "solve-l2"):
            return rec.skip("zero weights for a solver that takes logarithms")
    sc = dict(random=1.0, zero=0.0, huge=1e6, tiny=1e-9)[c["cost"]]
    if c["cost"] == "huge" and c["f"] not in ("emd", "emd2", "solve", "emd-sparse", "emd2_lazy", "solve_sample", "emd_1d"):
        sc = 1.5 if "gw" in c["f"] or "bapg" in c["f"] or "gromov" in c["f"] else 5.0
    if c["f"] in PLAN:
        T, w = quiet32(PLAN[c["f"]], a, b, r.rand(len(a), len(b)) * sc)
    else:
        X, Y = r.randn(len(a), 2) * min(sc, 1e3), r.randn(len(b), 2) * min(sc, 1e3)
        T, w = quiet32(SAMPLES[c["f"]], a, b, X, Y)
    rec.nontrivial(True)
    rec.label(c["one"], c["cost"], c["f"])
    T = np.asarray(T.toarray() if hasattr(T, "toarray") else T, dtype=float)
    close(T, np.outer(a, b), 1e-3 if "l2" in c["f"] or "smooth" in c["f"] else 1e-6, "%s with a single atom (%s) is not the product coupling" % (c["f"], c["one"]))


def quiet32(f, *args):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        return f(*args), w


@facet(g.record(f=st.sampled_from(sorted(PLAN) + sorted(SAMPLES)), const=st.sampled_from([0.0, 0.0, 1.0, 50.0]), n=st.integers(1, 5), m=st.integers(1, 5), k=g.seeds, zero=st.just(False)), 350, 10000, weight=2)
def constant(c, rec):
    """a constant cost: plans are feasible, entropic plans are the product of the weights"""
    r, a, b = sides(c, "none")
    n, m = len(a), len(b)
    if c["f"] in PLAN:
        # the quadratic problems use the square of the cost, with regularisation 1
        v = min(c["const"], 1.0) if "gw" in c["f"] or "bapg" in c["f"] or "gromov" in c["f"] else c["const"]
        T, w = quiet32(PLAN[c["f"]], a, b, np.full((n, m), v))
    else:
        T, w = quiet32(SAMPLES[c["f"]], a, b, np.full((n, 2), c["const"]), np.full((m, 2), c["const"]))
    T = np.asarray(T.toarray() if hasattr(T, "toarray") else T, dtype=float)
    rec.nontrivial(n > 1 and m > 1)
    rec.label(c["f"])
    ensure(T.shape == (n, m) and np.isfinite(T).all(), "%s of a constant cost %s: %s", c["f"], c["const"], T)
    tol = 1e-3 if c["f"].startswith("smooth") or c["f"] == "solve-l2" else 1e-5 if c["f"] == "bapg" else 1e-6
    ensure(T.min() > -1e-12, "%s: negative plan", c["f"])
    close(T.sum(1), a, tol, "%s: first marginal of a constant cost problem" % c["f"])
    close(T.sum(0), b, tol, "%s: second marginal of a constant cost problem" % c["f"])
    if c["f"] in ENTROPIC or c["f"] in ("solve_sample-reg", "solve_sample-lazy", "empirical"):
        close(T, np.outer(a, b), tol, "%s: entropic plan of a constant cost" % c["f"])


# iterative solvers stopped after one or zero... few iterations
FEW = {
    "sinkhorn": lambda p, k: ot.sinkhorn(p.a, p.b, p.M, 1.0, numItermax=k),
    "sinkhorn_log": lambda p, k: ot.sinkhorn(p.a, p.b, p.M, 1.0, method="sinkhorn_log", numItermax=k),
    "stabilized": lambda p, k: ot.sinkhorn(p.a, p.b, p.M, 1.0, method="sinkhorn_stabilized", numItermax=k),
    "epsilon": lambda p, k: ot.sinkhorn(p.a, p.b, p.M, 1.0, method="sinkhorn_epsilon_scaling", numItermax=k),
    "greenkhorn": lambda p, k: ot.sinkhorn(p.a, p.b, p.M, 1.0, method="greenkhorn", numItermax=k),
    "sinkhorn2": lambda p, k: ot.sinkhorn2(p.a, p.b, p.M, 1.0, numItermax=k),
    "emd": lambda p, k: ot.emd(p.a, p.b, p.M, numItermax=k),
    "emd2": lambda p, k: ot.emd2(p.a, p.b, p.M, numItermax=k),
    "unb": lambda p, k: [U.sinkhorn_unbalanced(p.a, p.b, p.M, 1.0, 1.0, method=m, numItermax=k) for m in ("sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant")],
    "mm": lambda p, k: U.mm_unbalanced(p.a, p.b, p.M, 1.0, numItermax=k),
    "mm-l2": lambda p, k: U.mm_unbalanced(p.a, p.b, p.M, 1.0, div="l2", numItermax=k),
    "lbfgsb": lambda p, k: U.lbfgsb_unbalanced(p.a, p.b, p.M, 1.0, 1.0, numItermax=k),
    "epartial": lambda p, k: ot.partial.entropic_partial_wasserstein(p.a, p.b, p.M, 1.0, m=0.5, numItermax=k),
    "gw": lambda p, k: [G.gromov_wasserstein(p.C1, p.C2, p.a, p.b, max_iter=k), G.gromov_wasserstein2(p.C1, p.C2, p.a, p.b, max_iter=k)],
    "fgw": lambda p, k: G.fused_gromov_wasserstein(p.M, p.C1, p.C2, p.a, p.b, max_iter=k),
    "egw": lambda p, k: [G.entropic_gromov_wasserstein(p.C1, p.C2, p.a, p.b, epsilon=2.0, max_iter=k, solver=s) for s in ("PGD", "PPA")],
    "bapg": lambda p, k: G.BAPG_gromov_wasserstein(p.C1, p.C2, p.a, p.b, epsilon=2.0, max_iter=k),
    "srgw": lambda p, k: [G.semirelaxed_gromov_wasserstein(p.C1, p.C2, p.a, max_iter=k), G.entropic_semirelaxed_gromov_wasserstein(p.C1, p.C2, p.a, epsilon=2.0, max_iter=k)],
    "pgw": lambda p, k: G.partial_gromov_wasserstein(p.C1, p.C2, p.a, p.b, m=0.5),
    "epgw": lambda p, k: G.entropic_partial_gromov_wasserstein(p.C1, p.C2, p.a, p.b, reg=2.0, m=0.5, numItermax=k),
    "fugw": lambda p, k: G.fused_unbalanced_gromov_wasserstein(p.C1, p.C2, p.a, p.b, epsilon=1.0, max_iter=k, max_iter_ot=5)[:2],
    "ucoot": lambda p, k: G.unbalanced_co_optimal_transport(p.Xf, p.Yf, epsilon=1.0, max_iter=k, max_iter_ot=5)[:2],
    "coot": lambda p, k: ot.coot.co_optimal_transport(p.Xf, p.Yf, nits_bcd=k),
    "barycenter": lambda p, k: [B.barycenter(p.A, p.Mnn, 1.0, method=m, numItermax=k) for m in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized")],
    "debiased": lambda p, k: B.barycenter_debiased(p.A, p.Mnn, 1.0, numItermax=k),
    "free": lambda p, k: ot.lp.free_support_barycenter(p.Ys, p.ps, p.X3, p.w3, p.lam, numItermax=k),
    "smooth": lambda p, k: [ot.smooth.smooth_ot_dual(p.a, p.b, p.M, 1.0, numItermax=k), ot.smooth.smooth_ot_semi_dual(p.a, p.b, p.M, 1.0, numItermax=k)],
    "cg": lambda p, k: [ot.optim.cg(p.a, p.b, p.M, 1.0, *p.funcs, numItermax=k), ot.optim.gcg(p.a, p.b, p.M, 1.0, 1.0, *p.funcs, numItermax=k)],
    "solve": lambda p, k: [ot.solve(p.M, p.a, p.b, reg=1.0, max_iter=k).plan, ot.solve(p.M, p.a, p.b, reg=1.0, reg_type="L2", max_iter=k).plan, ot.solve(p.M, p.a, p.b, unbalanced=1.0, max_iter=k).plan],
    "solve_gromov": lambda p, k: [ot.solve_gromov(p.C1, p.C2, p.M, p.a, p.b, max_iter=k, **kw).plan for kw in ({}, dict(reg=2.0), dict(unbalanced_type="semirelaxed", unbalanced=1.0))],
    "lowrank": lambda p, k: ot.lowrank.lowrank_sinkhorn(p.X, p.Y, p.a, p.b, rank=2, init="random", seed_init=0, numItermax=k)[:3],
    "factored": lambda p, k: ot.factored.factored_optimal_transport(p.X, p.Y, p.a, p.b, r=2, numItermax=k)[:3],
    "batch": lambda p, k: np.asarray(ot.batch.solve_batch(p.Mb, 1.0, max_iter=k).plan),
    "gwb": lambda p, k: G.gromov_barycenters(3, p.Cs, p.ps, p.w3, p.lam, max_iter=k, random_state=0),
    "fgwb": lambda p, k: G.fgw_barycenters(3, p.Ys, p.Cs, p.ps, p.lam, alpha=0.5, max_iter=k, random_state=0),
    "bures": lambda p, k: ot.gaussian.bures_wasserstein_barycenter(p.ms, p.Ss, num_iter=k),
    "jcpot": lambda p, k: B.jcpot_barycenter(p.Xlist, p.ylist, p.Y, 1.0, numItermax=k),
    "mapping": lambda p, k: ot.mapping.joint_OT_mapping_linear(p.X, p.Y, max_iter=k, max_inner_iter=2),
    "laplace": lambda p, k: D.emd_laplace(p.a, p.b, p.X, p.Y, p.M, sim_param=2, numItermax=k, numInnerItermax=10),
    "sag": lambda p, k: ot.stochastic.solve_semi_dual_entropic(p.a, p.b, p.M, 1.0, "sag", numItermax=k),
    "asgd": lambda p, k: ot.stochastic.solve_semi_dual_entropic(p.a, p.b, p.M, 1.0, "asgd", numItermax=k),
    "dual": lambda p, k: ot.stochastic.solve_dual_entropic(p.a, p.b, p.M, 1.0, 2, numItermax=k),
    "conv": lambda p, k: B.convolutional_barycenter2d(p.img, 0.1, numItermax=k),
    "unmix": lambda p, k: B.unmix(p.A[:, 0], p.A, p.Mnn, p.M33, p.w, 1.0, 1.0, 0.1, numItermax=k),
}


@facet(g.record(f=st.sampled_from(sorted(FEW)), it=st.sampled_from([1, 1, 1, 2, 3, 11]), n=st.integers(3, 6), m=st.integers(3, 6), d=st.integers(1, 3), k=g.seeds), 400, 10000, weight=2)
def stopped(c, rec):
    """a solver stopped by its iteration limit still returns finite numbers"""
    p = c31.build(c, "numpy")
    out, w = quiet32(FEW[c["f"]], p, c["it"])
    vals = c31.numbers(out)
    rec.nontrivial(len(vals) > 0)
    rec.label(c["f"], "it=%d" % c["it"])
    for v in vals:
        v = np.asarray(v)
        if v.dtype.kind in "fc":
            ensure(np.isfinite(v).all(), "%s stopped after %d iterations returns %s", c["f"], c["it"], v)
