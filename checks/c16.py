"""C16: semi-relaxed and partial (fused) Gromov-Wasserstein."""
import warnings

import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from checks.c07 import run
from checks.c12 import feasible
from checks.c14 import SYM, scale
from core import settle, FACETS, arr, close, ensure, facet, leq, num

FACETS.clear()
META = {
    "backends": [],
    "rule": "non-trivial when both graphs have >=3 nodes and the solver moved away from its start (helpers: both sizes >= 2)",
    "assumptions": ["entropic solvers: positive weights", "kl_loss: positive structure entries", "stationarity judged against the accuracy implied by the stopping rule",
                    "partitioning starts: enough distinct nodes, connected graph for fluid communities"],
}


@st.composite
def pair(draw, nmax=7, zeros=True, masses=(1.0,)):
    n, m = draw(st.integers(1, nmax)), draw(st.integers(1, nmax))
    loss = draw(st.sampled_from(["square_loss", "square_loss", "kl_loss"]))
    kinds = draw(st.sampled_from([SYM, SYM, ("asym",)])) if loss == "square_loss" else draw(st.sampled_from([("pos",), ("posasym",)]))
    c = dict(n=n, m=m, loss=loss, C1=draw(g.c_spec(n, kinds=kinds)), C2=draw(g.c_spec(m, kinds=kinds)), p=draw(st.one_of(st.none(), g.w_spec(n, zeros=zeros))), q=draw(st.one_of(st.none(), g.w_spec(m, zeros=zeros))), k=draw(g.seeds),
             ma=draw(st.sampled_from(list(masses))), mb=draw(st.sampled_from(list(masses))), G0=draw(st.sampled_from([None, None, "random", "vertex"])), sym=draw(st.sampled_from([None, None, False, "claim"])),
             same=draw(st.sampled_from([False, False, True])), iters=draw(st.sampled_from([1, 11, 300, 300])), rel=draw(st.sampled_from([0.03, 0.1, 0.5, 2.0])), frac=draw(st.sampled_from([0.1, 0.5, 0.9, 0.999, 1.0, None])), nb=draw(st.sampled_from([1, 1, 2, 4])),
             init=draw(st.sampled_from(["product", "random_product", "random", "kmeans", "kmeans_soft", "spectral", "spectral_soft", "fluid", "fluid_soft"])))
    c["fused"] = draw(st.booleans())
    if c["fused"]:
        c.update(M=draw(g.m_spec(n, m, scale=False)), alpha=draw(g.around([0.0, 0.1, 0.5, 0.9, 1.0], 0.01, 0.99)))
    return c


def unpack(c):
    C1, C2 = g.mk_c(c["C1"]), g.mk_c(c["C2"])
    p = np.ones(c["n"]) / c["n"] if c["p"] is None else g.mk_w(c["p"], c["ma"])
    q = np.ones(c["m"]) / c["m"] if c["q"] is None else g.mk_w(c["q"], c["mb"])
    M = g.mk_m(c["M"]) if c["fused"] else np.zeros((c["n"], c["m"]))
    if c["same"] and c["n"] == c["m"]:
        r = g.rng(c["k"], 72).permutation(c["n"])
        C2 = C1[np.ix_(r, r)]
    al = c["alpha"] if c["fused"] else 1.0
    issym = bool(np.allclose(C1, C1.T) and np.allclose(C2, C2.T))
    s = scale(C1, C2, c["loss"]) + np.abs(M).max()
    return C1, C2, p, q, M, al, issym, s


def value(C1, C2, M, al, T, loss):
    return (1 - al) * (M * T).sum() + al * ref.gw_loss4(C1, C2, T, loss)


def grad(C1, C2, M, al, T, loss):
    return (1 - al) * M + al * (ref.gw_tensor(C1, C2, T, loss) + ref.gw_tensor(C1.T, C2.T, T, loss))


def copies(kw):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}


def sr_start(kind, p, m, k):
    r = g.rng(k, 76)
    n = len(p)
    if kind is None:
        return None
    if kind == "vertex":
        G = np.zeros((n, m))
        G[np.arange(n), r.randint(0, m, n)] = p
        return G
    U = r.rand(n, m) + 0.01
    return U * (p / U.sum(1))[:, None]


def parts(c, l2, al, M, C1, C2, T, s, tol, name):
    if c["fused"]:
        close(num(l2["lin_loss"]), (1 - al) * (M * T).sum(), tol, f"{name}: linear part")
        close(num(l2["quad_loss"]), al * ref.gw_loss4(C1, C2, T, c["loss"]), tol, f"{name}: quadratic part")


def init_ok(c, C1, C2):
    """Can the partitioning initialisation be used on these structures?"""
    if c["init"] in ("product", "random_product", "random"):
        return True
    n, m = len(C1), len(C2)
    C = C1 if n > m else C2
    k = min(n, m)
    if n == m:
        return True
    if "kmeans" in c["init"]:
        return len(np.unique(C.round(9), axis=0)) >= k
    return c["C1"][0] in ("pos", "posasym") and k >= 2 and "fluid" in c["init"] or (c["C1"][0] == "pos" and k >= 2)


@facet(pair(), 400, 20000)
def semirelaxed(c, rec):
    """semirelaxed_(fused_)gromov_wasserstein(2): source marginal, value = four-index objective, losses never increase from the start (given, named or default), row-wise first-order stationary, entry points agree."""
    C1, C2, p, _, M, al, issym, s = unpack(c)
    n, m = c["n"], c["m"]
    G0 = sr_start(c["G0"], p, m, c["k"])
    named = c["G0"] == "vertex" and c["k"] % 2 and p.min() > 0 and init_ok(c, C1, C2)
    kw = dict(loss_fun=c["loss"], symmetric=issym if c["sym"] == "claim" else c["sym"], G0=c["init"] if named else G0, random_state=c["k"] % 1000, max_iter=c["iters"])
    args = (None,) if c["p"] is None else (p,)
    f, f2 = (ot.gromov.semirelaxed_fused_gromov_wasserstein, ot.gromov.semirelaxed_fused_gromov_wasserstein2) if c["fused"] else (ot.gromov.semirelaxed_gromov_wasserstein, ot.gromov.semirelaxed_gromov_wasserstein2)
    pos = (M, C1, C2) if c["fused"] else (C1, C2)
    if c["fused"]:
        kw["alpha"] = al
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        T, lg = f(*pos, *args, log=True, **copies(kw))
        v, l2 = f2(*pos, *args, log=True, **copies(kw))
        v1 = f2(*pos, *args, **copies(kw))
        T1 = f(*pos, *args, **copies(kw))
        if named:
            kk = dict(M=M, alpha=al) if c["fused"] else {}
            first = arr(ot.gromov.semirelaxed_init_plan(C1, C2, p, method=c["init"], random_state=c["k"] % 1000, **kk), (n, m))
            close(first.sum(1), p, 1e-9, f"source marginal of the {c['init']} start")
            leq(-first, 0, 1e-12, "negative start")
        else:
            first = np.outer(p, np.ones(m) / m) if G0 is None else G0
    T = arr(T, (n, m))
    leq(-T, 0, 1e-12, "negative plan")
    close(T.sum(1), p, 1e-9, "source marginal")
    rec.label("fused" if c["fused"] else "gw", c["loss"], "symmetric" if issym else "asymmetric", "start:%s" % (c["init"] if named else c["G0"]))
    rec.nontrivial(min(n, m) > 2 and np.abs(T - first).max() > 1e-6)
    d = num(lg["srfgw_dist" if c["fused"] else "srgw_dist"])
    val = value(C1, C2, M, al, T, c["loss"])
    close(d, val, 1e-8 * s, "reported value is not the objective at the plan")
    close(num(v), val, 1e-8 * s, "value-only entry point")
    close(num(v1), val, 1e-8 * s, "value depends on log")
    close(T1, T, 1e-12, "plan depends on log")
    close(arr(l2["T"], (n, m)), T, 1e-12, "plan of the value-only entry point")
    parts(c, l2, al, M, C1, C2, T, s, 1e-8 * s, "semi-relaxed")
    seq = np.array([num(x) for x in lg["loss"]])
    close(seq[0], value(C1, C2, M, al, first, c["loss"]), 1e-8 * s, "first recorded loss")
    leq(np.diff(seq), 0, 1e-9 * s, "recorded loss increases")
    if len(seq) <= c["iters"]:
        def gap(T):
            gr = grad(C1, C2, M, al, T, c["loss"])
            return (gr * T).sum() - (p * gr.min(1)).sum()

        settle(T, gap, lambda T: f(*pos, *args, **dict(kw, G0=T)), 6 * np.sqrt(s * al * (1e-9 * abs(val) + 1e-9)) + 1e-7 * s, "not first-order stationary")
    if al == 0:
        close(val, (p * M.min(1)).sum(), 1e-8 * s, "alpha=0: every node goes to its cheapest target")
    # relabelling both graphs
    r = g.rng(c["k"], 77)
    i, j = r.permutation(n), r.permutation(m)
    kr = dict(kw, G0=T[np.ix_(i, j)].copy())
    pr = (M[np.ix_(i, j)], C1[np.ix_(i, i)], C2[np.ix_(j, j)]) if c["fused"] else (C1[np.ix_(i, i)], C2[np.ix_(j, j)])
    w = f2(*pr, p[i], **kr)
    leq(num(w), val, 1e-8 * s, "relabelled problem started at the relabelled plan ends worse")
    if c["same"] and n == m and not c["fused"]:  # identical graphs: the relabelling is a zero
        P = np.zeros((n, n))
        P[g.rng(c["k"], 72).permutation(n), np.arange(n)] = 1
        w, lw = f2(*pos, p, log=True, **dict(kw, G0=p[:, None] * P))
        close(num(w), 0, 1e-8 * s, "isomorphic graphs started at the isomorphism")


@facet(pair(zeros=False), 250, 10000)
def semirelaxed_entropic(c, rec):
    """entropic_semirelaxed_(fused_)gromov_wasserstein(2): source marginal, value, one documented mirror-descent step per iteration, fixed point on convergence."""
    C1, C2, p, _, M, al, issym, s = unpack(c)
    n, m = c["n"], c["m"]
    G0 = sr_start("random" if c["G0"] else None, p, m, c["k"])
    eps = c["rel"] * s
    kw = dict(loss_fun=c["loss"], symmetric=issym if c["sym"] == "claim" else c["sym"], G0=G0, epsilon=eps, max_iter=c["iters"])
    args = (None,) if c["p"] is None else (p,)
    f, f2 = (ot.gromov.entropic_semirelaxed_fused_gromov_wasserstein, ot.gromov.entropic_semirelaxed_fused_gromov_wasserstein2) if c["fused"] else (ot.gromov.entropic_semirelaxed_gromov_wasserstein, ot.gromov.entropic_semirelaxed_gromov_wasserstein2)
    pos = (M, C1, C2) if c["fused"] else (C1, C2)
    if c["fused"]:
        kw["alpha"] = al
    (T, lg), _ = run(f, *pos, *args, log=True, **copies(kw))
    T = np.asarray(T)
    if not np.isfinite(T).all():
        rec.skip("underflow")
        return
    T = arr(T, (n, m))
    ensure(T.min() >= 0, "negative plan")
    close(T.sum(1), p, 1e-9, "source marginal")
    first = np.outer(p, np.ones(m) / m) if G0 is None else G0
    rec.label("fused" if c["fused"] else "gw", c["loss"], "symmetric" if issym else "asymmetric")
    rec.nontrivial(min(n, m) > 2 and np.abs(T - first).max() > 1e-6)
    val = value(C1, C2, M, al, T, c["loss"])
    close(num(lg["srfgw_dist" if c["fused"] else "srgw_dist"]), val, 1e-8 * s, "reported value is not the objective at the plan")
    (v, l2), _ = run(f2, *pos, *args, log=True, **copies(kw))
    close(num(v), val, 1e-8 * s, "value-only entry point")
    close(arr(l2["T"], (n, m)), T, 1e-12, "plan of the value-only entry point")
    parts(c, l2, al, M, C1, C2, T, s, 1e-8 * s, "entropic semi-relaxed")
    close(run(f, *pos, *args, **copies(kw))[0], T, 1e-12, "plan depends on log")
    close(num(run(f2, *pos, *args, **copies(kw))[0]), val, 1e-8 * s, "value depends on log")

    def step(Z):
        K = Z * np.exp(-grad(C1, C2, M, al, Z, c["loss"]) / eps)
        return K * (p / K.sum(1))[:, None]
    if c["iters"] == 1:
        rec.label("one step")
        close(T, step(first), 1e-8, "a step is not the mirror descent step")
    elif num(lg["err"][-1]) <= 1e-9:
        rec.label("converged")
        close(step(T), T, 1e-7 * (1 + 1 / c["rel"]), "converged plan is not a fixed point")


def part_start(kind, p, q, mass, k):
    if kind is None or mass > 0.95 * min(p.sum(), q.sum()):
        return None
    r = g.rng(k, 78)
    G = ref.lp_partial(p * (1 - 1e-6), q * (1 - 1e-6), r.rand(len(p), len(q)), mass * (1 + 1e-9))
    if G is None:
        return None
    G = np.maximum(G[1], 0)
    if kind == "random":
        G = 0.5 * G + 0.5 * np.outer(p, q) * mass / (p.sum() * q.sum())
    return G * (mass / G.sum())


@facet(pair(masses=(1.0, 0.4, 3.0)), 300, 20000)
def partial(c, rec):
    """partial_(fused_)gromov_wasserstein(2): requested mass under both marginals, value = four-index objective, losses never increase, first-order stationary among partial plans (independent LP), entry points agree."""
    C1, C2, p, q, M, al, issym, s = unpack(c)
    n, m = c["n"], c["m"]
    top = min(p.sum(), q.sum())
    f_ = c["frac"]
    mass = top if f_ is None else min(f_, 1 - 1e-12) * top
    G0 = part_start(c["G0"], p, q, mass, c["k"])
    tot = max(p.sum(), q.sum())
    s = s * max(1.0, mass) ** 2
    kw = dict(m=None if f_ is None else mass, loss_fun=c["loss"], symmetric=issym if c["sym"] == "claim" else c["sym"], G0=G0, nb_dummies=c["nb"], numItermax=1000)
    args = (None if c["p"] is None else p, None if c["q"] is None else q)
    f, f2 = (ot.gromov.partial_fused_gromov_wasserstein, ot.gromov.partial_fused_gromov_wasserstein2) if c["fused"] else (ot.gromov.partial_gromov_wasserstein, ot.gromov.partial_gromov_wasserstein2)
    pos = (M, C1, C2) if c["fused"] else (C1, C2)
    if c["fused"]:
        kw["alpha"] = al
    with np.errstate(all="ignore"):
        T, lg = f(*pos, *args, log=True, **copies(kw))
        v, l2 = f2(*pos, *args, log=True, tol=1e-8, **copies(kw))
        v1 = f2(*pos, *args, tol=1e-8, **copies(kw))
        T1 = f(*pos, *args, **copies(kw))
    T = feasible(T, p, q, mass, 1e-7 * tot, "plan")
    first = np.outer(p, q) * mass / (p.sum() * q.sum()) if G0 is None else G0
    rec.label("fused" if c["fused"] else "gw", c["loss"], "symmetric" if issym else "asymmetric", "start:" + str(c["G0"] if G0 is not None else None), "all" if mass == top else "part")
    rec.nontrivial(min(n, m) > 2 and 0 < mass < top and np.abs(T - first).max() > 1e-6)
    val = value(C1, C2, M, al, T, c["loss"])
    d = num(lg["partial_fgw_dist" if c["fused"] else "partial_gw_dist"])
    close(d, val, 1e-8 * s, "reported value is not the objective at the plan")
    close(num(v), val, 1e-8 * s, "value-only entry point")
    close(num(v1), val, 1e-8 * s, "value depends on log")
    close(T1, T, 1e-10, "plan depends on log")
    close(arr(l2["T"], (n, m)), T, 1e-10, "plan of the value-only entry point")
    parts(c, l2, al, M, C1, C2, T, s, 1e-8 * s, "partial")
    seq = np.array([num(x) for x in lg["loss"]])
    close(seq[0], value(C1, C2, M, al, first, c["loss"]), 1e-8 * s, "first recorded loss")
    leq(np.diff(seq), 0, 1e-9 * s, "recorded loss increases")
    def gap(T):
        gr = grad(C1, C2, M, al, T, c["loss"])
        best = ref.lp_partial(p, q, gr, mass * (1 - 1e-12))
        return -np.inf if best is None else (gr * T).sum() - best[0]

    if len(seq) <= 1000:
        settle(T, gap, lambda T: f(*pos, *args, **dict(kw, G0=T)), 6 * np.sqrt(s * al * 1e-8 * abs(val)) + 2e-7 * s * max(1, tot), "not first-order stationary among the plans of this mass")
    if al == 0:
        close(val, num(ot.partial.partial_wasserstein2(p, q, M, m=mass * (1 - 1e-12))), 1e-7 * s, "alpha=0 is not partial OT")
    r = g.rng(c["k"], 79)
    i, j = r.permutation(n), r.permutation(m)
    Tr = T[np.ix_(i, j)] * (1 - 1e-12)
    if (Tr.sum(1) <= p[i]).all() and (Tr.sum(0) <= q[j]).all():
        pr = (M[np.ix_(i, j)], C1[np.ix_(i, i)], C2[np.ix_(j, j)]) if c["fused"] else (C1[np.ix_(i, i)], C2[np.ix_(j, j)])
        with np.errstate(all="ignore"):
            w = f2(*pr, p[i], q[j], **dict(kw, G0=Tr))
        leq(num(w), val, 1e-8 * s, "relabelled problem started at the relabelled plan ends worse")
        rec.label("relabelled")


@facet(pair(zeros=False, masses=(1.0, 0.5)), 60, 5000)
def partial_entropic(c, rec):
    """entropic_partial_(fused_)gromov_wasserstein(2): requested mass, value at the plan, one documented step per iteration (entropic partial OT of the linearised cost), marginals respected."""
    C1, C2, p, q, M, al, issym, s = unpack(c)
    n, m = c["n"], c["m"]
    top = min(p.sum(), q.sum())
    f_ = c["frac"]
    mass = top * (1 - 1e-12) if f_ is None or f_ == 1.0 else f_ * top
    reg = max(c["rel"], 0.1) * s * max(1, mass)
    G0 = np.outer(p, q) * mass / (p.sum() * q.sum()) * (1 + 0 * M)
    iters = 1 if c["iters"] == 1 else 12
    kw = dict(reg=reg, m=mass, loss_fun=c["loss"], symmetric=issym if c["sym"] == "claim" else c["sym"], numItermax=iters)
    if c["G0"]:
        G0 = part_start("random", p, q, mass, c["k"])
        if G0 is None:
            G0 = np.outer(p, q) * mass / (p.sum() * q.sum())
        kw["G0"] = G0
    args = (None if c["p"] is None else p, None if c["q"] is None else q)
    f, f2 = (ot.gromov.entropic_partial_fused_gromov_wasserstein, ot.gromov.entropic_partial_fused_gromov_wasserstein2) if c["fused"] else (ot.gromov.entropic_partial_gromov_wasserstein, ot.gromov.entropic_partial_gromov_wasserstein2)
    pos = (M, C1, C2) if c["fused"] else (C1, C2)
    if c["fused"]:
        kw["alpha"] = al
    (T, lg), bad = run(f, *pos, *args, log=True, **copies(kw))
    T = np.asarray(T)
    if bad or not np.isfinite(T).all():
        rec.skip("numerical breakdown")
        return
    T = arr(T, (n, m))
    ensure(T.min() >= 0, "negative plan")
    close(T.sum(), mass, 1e-8 * mass, "mass")
    rec.label("fused" if c["fused"] else "gw", c["loss"], "symmetric" if issym else "asymmetric")
    rec.nontrivial(min(n, m) > 2 and np.abs(T - G0).max() > 1e-6)
    val = value(C1, C2, M, al, T, c["loss"])
    close(num(lg["partial_fgw_dist" if c["fused"] else "partial_gw_dist"]), val, 1e-8 * s, "reported value is not the objective at the plan")
    (v, l2), _ = run(f2, *pos, *args, log=True, **copies(kw))
    close(num(v), val, 1e-8 * s, "value-only entry point")
    close(arr(l2["T"], (n, m)), T, 1e-12, "plan of the value-only entry point")
    parts(c, l2, al, M, C1, C2, T, s, 1e-8 * s, "entropic partial")
    close(run(f, *pos, *args, **copies(kw))[0], T, 1e-12, "plan depends on log")
    Z = G0 if iters == 1 else np.asarray(run(f, *pos, *args, **dict(copies(kw), numItermax=iters - 1))[0])
    if iters == 1 or len(lg["err"]) == 2:  # all iterations were run: the last one is one step from the plan before it
        gr = grad(C1, C2, M, al, Z, c["loss"])
        (P, pl), b2 = run(ot.partial.entropic_partial_wasserstein, p, q, gr, reg, mass, log=True)
        if not b2:
            rec.label("one step")
            close(T, P, 1e-6, "a step is not entropic partial OT of the linearised cost")
            (P2, _), b3 = run(ot.partial.entropic_partial_wasserstein, p, q, gr, reg, mass, numItermax=20000, stopThr=1e-14, log=True)
            if not b3 and np.abs(P2 - P).max() < 1e-8:
                leq(T.sum(1), p, 1e-6, "source marginal exceeded")
                leq(T.sum(0), q, 1e-6, "target marginal exceeded")


@facet(pair(masses=(1.0, 0.4)), 60, 4000)
def deprecated(c, rec):
    """ot.partial.(entropic_)partial_gromov_wasserstein(2) (deprecated entry points): requested mass under both marginals, half the objective, not above the start."""
    if c["loss"] == "kl_loss":
        c = dict(c, C1=["sym"] + c["C1"][1:], C2=["sym"] + c["C2"][1:])
    if c["C1"][0] == "asym":
        c = dict(c, C1=["int"] + c["C1"][1:], C2=["int"] + c["C2"][1:])
    c["fused"] = False
    C1, C2, p, q, M, al, issym, s = unpack(c)
    f_ = c["frac"]
    top = min(p.sum(), q.sum())
    mass = top if f_ is None else min(f_, 1 - 1e-12) * top
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        T, lg = ot.partial.partial_gromov_wasserstein(C1, C2, p, q, m=None if f_ is None else mass, nb_dummies=c["nb"], log=True)
        v = ot.partial.partial_gromov_wasserstein2(C1, C2, p, q, m=None if f_ is None else mass, nb_dummies=c["nb"])
    T = feasible(T, p, q, mass, 1e-7, "plan")
    first = np.outer(p, q) * mass / (p.sum() * q.sum())
    rec.nontrivial(min(T.shape) > 2 and np.abs(T - first).max() > 1e-6)
    val = ref.gw_loss4(C1, C2, T) / 2
    close(num(lg["partial_gw_dist"]), val, 1e-9 * s, "reported value")
    close(num(v), val, 1e-9 * s, "value-only entry point")
    leq(val, ref.gw_loss4(C1, C2, first) / 2, 1e-9 * s, "worse than the start")
    if p.min() > 0 and q.min() > 0:
        reg = max(c["rel"], 0.1) * s
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            (T, lg), bad = run(ot.partial.entropic_partial_gromov_wasserstein, C1, C2, p, q, reg, m=mass * (1 - 1e-12), numItermax=12, log=True)
        if not bad and np.isfinite(T).all():
            rec.label("entropic")
            close(T.sum(), mass, 1e-8, "entropic: mass")
            close(num(lg["partial_gw_dist"]), ref.gw_loss4(C1, C2, T) / 2, 1e-9 * s, "entropic: value")


@facet(pair(zeros=False), 250, 8000)
def starts(c, rec):
    """semirelaxed_init_plan: every named start has the source marginal, is non-negative, reproducible, and mixes in the cheapest-feature plan with weight 1 - alpha."""
    C1, C2, p, _, M, al, issym, s = unpack(c)
    n, m = c["n"], c["m"]
    if not init_ok(c, C1, C2):
        rec.skip("partitioning undefined for this structure")
        return
    rec.label(c["init"])
    rec.nontrivial(min(n, m) > 1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        T = ot.gromov.semirelaxed_init_plan(C1, C2, p, method=c["init"], random_state=c["k"] % 1000)
        T2 = ot.gromov.semirelaxed_init_plan(C1, C2, p, method=c["init"], random_state=c["k"] % 1000)
        F = ot.gromov.semirelaxed_init_plan(C1, C2, p, M=M, alpha=al, method=c["init"], random_state=c["k"] % 1000) if c["fused"] else None
        U = ot.gromov.semirelaxed_init_plan(C1, C2, p, method=c["init"], use_target=False, random_state=c["k"] % 1000)
    for Z, what in ((T, "start"), (F, "fused start"), (U, "start without target")):
        if Z is not None:
            Z = arr(Z, (n, m))
            close(Z.sum(1), p, 1e-9, f"source marginal of the {what}")
            leq(-Z, 0, 1e-12, f"negative {what}")
    close(T2, T, 1e-12, "not a function of the seed")
    if F is not None:
        B = (M == M.min(1, keepdims=True)).astype(float)
        B *= (p / B.sum(1))[:, None]
        close(F, al * np.asarray(T) + (1 - al) * B, 1e-9, "features are not mixed in with weight 1 - alpha")
    if c["init"] == "product":
        close(T, np.outer(p, np.ones(m) / m), 1e-12, "product")
