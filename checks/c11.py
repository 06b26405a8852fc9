"""C11: unbalanced OT solvers minimise the documented objective."""
import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from checks.c07 import run
from core import FACETS, arr, close, coupling, ensure, facet, leq, num

FACETS.clear()
META = {
    "backends": ["torch"],
    "rule": "non-trivial when the solver converged, both measures have >=2 atoms and (unless a penalty is infinite) different masses or a plan that is not their product",
    "assumptions": ["positive measures", "regularisation and penalties >= 0.05 of the cost range", "quasi-Newton solver: the reported objective and the gradient it follows, and improvement over the start, are checked, not its precision (scipy L-BFGS-B stops early on some strictly convex quadratics here)",
                    ],
}
INF = float("inf")


@st.composite
def pairs(draw, inf=True):
    v = [0.1, 0.5, 1.0, 3.0, 20.0]
    k = draw(st.sampled_from(["same", "pair", "pair"] + (["semi1", "semi2", "inf"] if inf else [])))
    x, y = draw(st.sampled_from(v)), draw(st.sampled_from(v))
    return {"same": [x], "pair": [x, y], "semi1": [INF, y], "semi2": [x, INF], "inf": [INF, INF]}[k]


@st.composite
def problem(draw, neg=True, inf=True):
    n, m = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    return dict(a=draw(g.w_spec(n, zeros=False)), b=draw(g.w_spec(m, zeros=False)), ma=draw(st.sampled_from([1.0, 0.3, 2.5])), mb=draw(st.sampled_from([1.0, 0.5, 4.0])),
                M=draw(g.m_spec(n, m, neg=neg, scale=False)), reg=draw(st.sampled_from([0.1, 0.3, 1.0, 5.0])), rm=draw(pairs(inf)), form=draw(st.sampled_from(["scalar", "list", "tuple", "array"])),
                c=draw(st.sampled_from([False, False, True])), k=draw(g.seeds))


def mk_rm(c):
    rm = c["rm"]
    if len(rm) == 1:
        return (rm[0], rm[0]), (rm[0] if c["form"] == "scalar" else [rm[0]] if c["form"] != "array" else np.array(rm))
    return tuple(rm), (tuple(rm) if c["form"] == "tuple" else np.array(rm) if c["form"] == "array" else list(rm))


def unpack(c):
    (r1, r2), rm = mk_rm(c)
    a, b, M = g.mk_w(c["a"], c["ma"]), g.mk_w(c["b"], c["mb"]), g.mk_m(c["M"])
    if r1 == INF and r2 == INF:
        b = b / b.sum() * a.sum()
    C = g.rng(c["k"], 51).rand(*M.shape) + 0.1 if c["c"] else None
    return a, b, M, r1, r2, rm, C


def kl_objective(G, M, reg, Cref, entropy, r1, r2, a, b):
    v = (G * M).sum()
    if reg:
        v += reg * ((ref.entropy(G) - G.sum()) if entropy else ref.kl(G, Cref))
    if r1 != INF:
        v += r1 * ref.kl(G.sum(1), a)
    if r2 != INF:
        v += r2 * ref.kl(G.sum(0), b)
    return v


def iterations(r1, r2, reg, M):
    """Iterations after which the contraction by the marginal penalties guarantees 1e-13; (0, _) when too many."""
    lam = (1 if r1 == INF else r1 / (r1 + reg)) * (1 if r2 == INF else r2 / (r2 + reg))
    if lam == 1:
        return 800, False
    it = int(np.log(1e-14 / (1 + np.abs(M).max() / reg)) / np.log(lam)) + 5
    return (it, True) if it <= 2500 else (0, True)


@st.composite
def scal(draw):
    c = draw(problem())
    c.update(method=draw(st.sampled_from(["sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant", "sinkhorn_reg_scaling"])), rt=draw(st.sampled_from(["kl", "entropy"])), tau=draw(st.sampled_from([1e5, 1.5, 3.0, 30.0])),
             warm=draw(st.booleans()))
    return c


DIRECT = {"sinkhorn": "sinkhorn_knopp_unbalanced", "sinkhorn_reg_scaling": "sinkhorn_knopp_unbalanced", "sinkhorn_stabilized": "sinkhorn_stabilized_unbalanced", "sinkhorn_translation_invariant": "sinkhorn_unbalanced_translation_invariant"}


@facet(scal(), 700, 25000)
def scaling(c, rec):
    """Scaling solvers: stationarity of the returned plan for the documented objective (exact marginals on infinite-penalty sides), costs of the returned plan, entry points agree."""
    a, b, M, r1, r2, rm, C = unpack(c)
    n, m = M.shape
    reg = c["reg"] * max(1e-3, np.ptp(M), 0.1 * np.abs(M).max())
    me = c["method"]
    ent = c["rt"] == "entropy"
    it, sure = iterations(r1, r2, reg, M)
    if not it:
        rec.skip("slow contraction")
        return
    kw = dict(numItermax=it, stopThr=0, reg_type=c["rt"], c=C)
    if me == "sinkhorn_stabilized":
        kw["tau"] = c["tau"]
    if c["warm"]:
        r = g.rng(c["k"], 52)
        kw["warmstart"] = (r.randn(n), r.randn(m))
    rec.label(me, c["rt"], "semi" if INF in (r1, r2) else "unequal penalties" if r1 != r2 else "equal penalties")
    (G, lg), bad = run(ot.unbalanced.sinkhorn_unbalanced, a, b, M, reg, rm, method=me, log=True, **kw)
    if bad:
        rec.skip("numerical breakdown reported")
        return
    G = arr(G, (n, m))
    if not sure and np.abs(G.sum(1) - a).max() + np.abs(G.sum(0) - b).max() > 1e-10 * a.sum():
        rec.skip("not converged")
        return
    ensure(G.min() >= 0, "negative entry")
    Cref = np.ones((n, m)) if ent else (np.outer(a, b) if C is None else C)
    rec.nontrivial(n > 1 and m > 1)
    tol = 1e-6 * max(reg, 1e-6) * (1 + max(r for r in (r1, r2, 0) if r != INF) / reg)
    if c["tau"] < 1e5 and me == "sinkhorn_stabilized":
        rec.label("absorbing")
    if G.min() > 1e-200:
        R = M + reg * np.log(G / Cref)
        if r1 != INF:
            R = R + r1 * np.log(G.sum(1) / a)[:, None]
        if r2 != INF:
            R = R + r2 * np.log(G.sum(0) / b)[None]
        if r1 == INF:
            R = R - R[:, :1]
        if r2 == INF:
            R = R - R[:1]
        close(R, 0, tol, f"{me}: gradient of the objective does not vanish")
    if r1 == INF:
        close(G.sum(1), a, 1e-7 * a.sum(), f"{me}: source marginal with infinite penalty")
    if r2 == INF:
        close(G.sum(0), b, 1e-7 * b.sum(), f"{me}: target marginal with infinite penalty")
    s = max(1.0, np.abs(M).max()) * max(G.sum(), 1.0) + reg + sum(r for r in (r1, r2) if r != INF)
    close(num(lg["cost"]), (G * M).sum(), 1e-9 * s, "reported linear cost")
    tot = kl_objective(G, M, reg, Cref, ent, r1, r2, a, b)
    close(num(lg["total_cost"]), tot, 1e-8 * s * (1 + G.size), "reported total cost is not the objective of the plan")
    lu, lv = arr(lg["logu"], (n,)), arr(lg["logv"], (m,))
    close(np.exp(lu[:, None] + lv[None] - M / reg) * Cref, G, 1e-9 * max(1, G.max()), "plan is not the scaled kernel of the returned log scalings", rtol=1e-6)
    G2, _ = run(getattr(ot.unbalanced, DIRECT[me]), a, b, M, reg, rm, **kw)
    close(G2, G, 1e-12 * max(1, G.max()), "direct call differs from the dispatcher")
    v, _ = run(ot.unbalanced.sinkhorn_unbalanced2, a, b, M, reg, rm, method=me, returnCost="linear", **kw)
    close(num(v), (G * M).sum(), 1e-9 * s, "sinkhorn_unbalanced2 linear cost")
    v, _ = run(ot.unbalanced.sinkhorn_unbalanced2, a, b, M, reg, rm, method=me, returnCost="total", log=True, **kw)
    close(num(v[0]), tot, 1e-8 * s * (1 + G.size), "sinkhorn_unbalanced2 total cost")


@st.composite
def sev(draw):
    c = draw(problem())
    k = draw(st.integers(1, 3))
    c.update(bs=[draw(g.w_spec(c["M"][2], zeros=False)) for _ in range(k)], method=draw(st.sampled_from(["sinkhorn", "sinkhorn_stabilized", "sinkhorn_translation_invariant"])), log=draw(st.booleans()), fn=draw(st.booleans()),
             tau=draw(st.sampled_from([1e5, 3.0])))
    return c


@facet(sev(), 300, 8000)
def several_targets(c, rec):
    """Several targets: per column the linear cost of that column's own (entropy-regularised) problem."""
    a, b, M, r1, r2, rm, C = unpack(c)
    M = np.abs(M) if c["method"] == "sinkhorn_stabilized" else M  # logarithm of the cost
    B = np.stack([g.mk_w(s, c["mb"] if INF not in (r1, r2) or r1 != r2 else a.sum()) for s in c["bs"]], 1)
    reg = max(0.3, c["reg"]) * max(1e-3, np.ptp(M), 0.1 * np.abs(M).max())
    me = c["method"]
    if max(r for r in (r1, r2, 0) if r != INF) > 100 * reg:
        rec.skip("scalings overflow")
        return
    kw = dict(method=me, numItermax=3000, stopThr=1e-12)
    if me == "sinkhorn_stabilized":
        kw["tau"] = c["tau"]
    f = ot.unbalanced.sinkhorn_unbalanced if c["fn"] else ot.unbalanced.sinkhorn_unbalanced2
    out, bad = run(f, a, B, M, reg, rm, log=c["log"], **kw)
    if bad:
        rec.skip("not converged")
        return
    v = arr(out[0] if c["log"] else out, (B.shape[1],))
    rec.nontrivial(B.shape[1] > 1 and M.shape[0] > 1)
    rec.label(me)
    fi = [1.0 if r == INF else r / (r + reg) for r in (r1, r2)]
    from scipy.special import logsumexp
    for k in range(B.shape[1]):
        x, y = np.zeros(len(a)), np.zeros(M.shape[1])
        for _ in range(3000):
            x0, x = x, fi[0] * (np.log(a) - logsumexp(y[None] - M / reg, axis=1))
            y = fi[1] * (np.log(B[:, k]) - logsumexp(x[:, None] - M / reg, axis=0))
            if np.abs(x - x0).max() < 1e-13:
                break
        else:
            rec.skip("reference not converged")
            return
        P = np.exp(x[:, None] + y[None] - M / reg)
        s = max(np.abs(M).max(), 1e-9) * max(P.sum(), 1e-3)
        close(v[k], (P * M).sum(), 1e-6 * s, f"{me}: column {k} is not the value of its own problem")
        if c["log"]:
            Q = np.exp(np.asarray(out[1]["logu"])[:, k][:, None] + np.asarray(out[1]["logv"])[:, k][None] - M / reg)
            close(Q, P, 1e-6 * max(P.max(), 1e-3), f"{me}: scalings of column {k}")


@st.composite
def mmc(draw):
    c = draw(problem(neg=False, inf=False))
    c.update(div=draw(st.sampled_from(["kl", "l2", "KL"])), zero=draw(st.booleans()), G0=draw(st.booleans()))
    return c


def smooth_gap(G, grad, s):
    """For a convex objective: F(G) - F* <= <grad, G> + max(0, -min grad) * mass(G*)."""
    return abs((grad * G).sum()) + np.abs(grad * G).sum() * 0.0, max(0.0, -grad.min())


@facet(mmc(), 300, 8000)
def majorisation(c, rec):
    """mm_unbalanced: objective never increases along the iterations; at convergence first-order optimal for the documented objective; costs reported are those of the plan."""
    a, b, M, r1, r2, rm, C = unpack(c)
    reg = 0.0 if c["zero"] else c["reg"]
    div = c["div"]
    kl = div.lower() == "kl"
    G0 = g.rng(c["k"], 53).rand(*M.shape) + 0.05 if c["G0"] else None
    Cref = np.outer(a, b) if C is None else C
    kw = dict(c=C, reg=reg, div=div, G0=None if G0 is None else G0.copy(), numItermax=2000, stopThr=1e-13)
    G, lg = ot.unbalanced.mm_unbalanced(a, b, M, rm, log=True, **kw)
    G = arr(G, M.shape)
    ensure(G.min() >= 0, "negative entry")
    rec.label("kl" if kl else "l2", "reg=0" if reg == 0 else "reg>0")
    rec.nontrivial(M.shape[0] > 1 and M.shape[1] > 1)

    def obj(G):
        if kl:
            return kl_objective(G, M, reg, Cref, False, r1, r2, a, b)
        return (G * M).sum() + r1 / 2 * ((G.sum(1) - a) ** 2).sum() + r2 / 2 * ((G.sum(0) - b) ** 2).sum() + reg / 2 * ((G - Cref) ** 2).sum()

    s = obj(np.outer(a, b)) + 1 + r1 * a.sum() + r2 * b.sum()
    close(num(lg["cost"]), (G * M).sum(), 1e-9 * s, "reported linear cost")
    close(num(lg["total_cost"]), obj(G), 1e-8 * s, "reported total cost")
    seq = [obj(np.outer(a, b) if G0 is None else G0)] + [obj(x) for x in lg["G"][:60]] + [obj(G)]
    leq(np.diff(seq), 0, 1e-10 * s, "an iteration increases the objective")
    for rc, want in (("linear", (G * M).sum()), ("total", obj(G))):
        v = ot.unbalanced.mm_unbalanced2(a, b, M, rm, returnCost=rc, **kw)
        close(num(v), want, 1e-8 * s, f"mm_unbalanced2 {rc}")
    if not lg["err"][-1] < 1e-13:
        rec.label("not converged")
        tol = 1e-2
    else:
        tol = 1e-5
    P = G + 1e-300
    if kl:
        gr = M + r1 * np.log(P.sum(1) / a)[:, None] + r2 * np.log(P.sum(0) / b)[None] + (reg * np.log(P / Cref) if reg else 0)
    else:
        gr = M + r1 * (G.sum(1) - a)[:, None] + r2 * (G.sum(0) - b)[None] + reg * (G - Cref)
    close(gr * G, 0, tol * s, "not stationary: gradient does not vanish on the support")
    if tol < 1e-3 and G.min() > 1e-12:
        leq(-gr, 0, tol * s / min(1, G.min() * 1e6) + 1e-3, "not optimal: negative gradient")


@st.composite
def lb(draw):
    c = draw(problem(neg=False, inf=False))
    c.update(rd=draw(st.sampled_from(["kl", "l2", "entropy", "tuple", "KL"])), md=draw(st.sampled_from(["kl", "l2", "tv", "L2"])), zero=draw(st.sampled_from([False, False, True])), G0=draw(st.booleans()))
    return c


@facet(lb(), 400, 12000)
def quasi_newton(c, rec):
    """lbfgsb_unbalanced: total cost is the documented objective of the plan, never above its start, and (smooth penalties) driven by its gradient."""
    a, b, M, r1, r2, rm, C = unpack(c)
    reg = 0.0 if c["zero"] else c["reg"]
    rd, md = c["rd"], c["md"].lower()
    T = g.rng(c["k"], 55).rand(*M.shape)
    div = rd
    if rd == "tuple":
        div = (lambda G: 0.5 * np.sum((G - T) ** 2), lambda G: G - T)
    rd = rd.lower()
    G0 = g.rng(c["k"], 53).rand(*M.shape) + 0.05 if c["G0"] else None
    Cref = np.outer(a, b) if C is None else C
    kw = dict(c=C, reg_div=div, regm_div=c["md"], G0=None if G0 is None else G0.copy(), numItermax=2000)
    (G, lg), _ = run(ot.unbalanced.lbfgsb_unbalanced, a, b, M, reg, rm, log=True, **kw)
    G = arr(G, M.shape)
    ensure(G.min() >= 0, "negative entry")
    rec.label(rd if reg else "reg=0", md)
    rec.nontrivial(M.shape[0] > 1 and M.shape[1] > 1)
    if "ABNORMAL" in str(lg["res"].message):
        rec.skip("line search of scipy broke down")
        return

    def obj(G):
        v = (G * M).sum()
        if reg:
            v += reg * {"kl": lambda: ref.kl(G, Cref), "l2": lambda: ((G - Cref) ** 2).sum() / 2, "entropy": lambda: ref.entropy(G) - G.sum(), "tuple": lambda: ((G - T) ** 2).sum() / 2}[rd]()
        x, y = G.sum(1), G.sum(0)
        if md == "kl":
            return v + r1 * ref.kl(x, a) + r2 * ref.kl(y, b)
        if md == "l2":
            return v + r1 / 2 * ((x - a) ** 2).sum() + r2 / 2 * ((y - b) ** 2).sum()
        return v + r1 * np.abs(x - a).sum() + r2 * np.abs(y - b).sum()

    s = 1 + abs(obj(np.outer(a, b))) + r1 * a.sum() + r2 * b.sum() + reg
    F = obj(G)
    close(num(lg["cost"]), (G * M).sum(), 1e-9 * s, "reported linear cost")
    close(num(lg["total_cost"]), F, 1e-8 * s, "reported total cost is not the documented objective of the plan")
    leq(F, obj(np.outer(a, b) if G0 is None else G0), 1e-9 * s, "worse than the starting plan")
    for rc, want in (("linear", (G * M).sum()), ("total", F)):
        v, _ = run(ot.unbalanced.lbfgsb_unbalanced2, a, b, M, reg, rm, returnCost=rc, **kw)
        close(num(v), want, 1e-8 * s, f"lbfgsb_unbalanced2 {rc}")
    if md == "tv":
        return
    P = np.maximum(G, 0)
    gr = M.copy()
    x, y = P.sum(1), P.sum(0)
    if md == "kl":
        gr = gr + r1 * np.log(x / a + 1e-16)[:, None] + r2 * np.log(y / b + 1e-16)[None]
    else:
        gr = gr + r1 * (x - a)[:, None] + r2 * (y - b)[None]
    if reg:
        gr = gr + reg * {"kl": lambda: np.log(P / Cref + 1e-16), "l2": lambda: P - Cref, "entropy": lambda: np.log(P + 1e-16), "tuple": lambda: P - T}[rd]()
    if getattr(lg["res"], "jac", None) is not None and P.min() > 1e-6:
        # the search direction must come from the gradient of that objective (scipy's line search may still stop early)
        rec.label("gradient compared")
        close(np.reshape(lg["res"].jac, M.shape), gr, 1e-7 * (s + np.abs(gr).max()), "gradient used is not that of the documented objective")


@st.composite
def ag(draw):
    c = draw(problem(neg=False, inf=False))
    for k in "ab":
        if c[k][0] == "skew":
            c[k] = ["unif", c[k][1]]
    c["reg"] = max(c["reg"], 0.3)
    return c


@facet(ag(), 150, 4000)
def solvers_agree(c, rec):
    """KL-regularised, KL-penalised problem: scaling, MM and quasi-Newton agree: scaling and MM reach the same objective value, quasi-Newton never beats it."""
    a, b, M, r1, r2, rm, C = unpack(c)
    reg = c["reg"]
    Cref = np.outer(a, b) if C is None else C
    (G1, l1), bad = run(ot.unbalanced.sinkhorn_unbalanced, a, b, M, reg, rm, c=C, numItermax=10000, stopThr=1e-13, log=True)
    if not l1["err"][-1] < 1e-13:
        rec.skip("not converged")
        return
    rec.nontrivial(min(M.shape) > 1)
    F = kl_objective(np.asarray(G1), M, reg, Cref, False, r1, r2, a, b)
    s = 1 + abs(F) + r1 * a.sum() + r2 * b.sum() + reg * Cref.sum()
    G2, l2 = ot.unbalanced.mm_unbalanced(a, b, M, rm, c=C, reg=reg, div="kl", numItermax=5000, log=True)
    (G3, l3), _ = run(ot.unbalanced.lbfgsb_unbalanced, a, b, M, reg, rm, c=C, reg_div="kl", regm_div="kl", log=True)
    close(num(l1["total_cost"]), F, 1e-7 * s, "total cost (scaling)")
    close(num(l2["total_cost"]), F, 1e-5 * s, "MM and scaling differ")
    leq(F, min(num(l2["total_cost"]), num(l3["total_cost"])), 1e-7 * s, "scaling is not optimal")
