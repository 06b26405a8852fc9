"""C12: partial optimal transport."""
import numpy as np
import ot
from hypothesis import strategies as st
from scipy.optimize import linear_sum_assignment

import gen as g
import ref
from checks.c07 import run
from core import FACETS, arr, close, ensure, facet, leq, num

FACETS.clear()
META = {
    "backends": [],
    "rule": "non-trivial when strictly less than the smaller mass (and more than nothing) has to be moved between measures of >=2 atoms",
    "assumptions": ["entropic solvers: positive weights, reg >= 0.05 of the cost range, decided on runs whose iterates stopped moving", "Lagrangian form: masses at most one, as the solver demands"],
}


@st.composite
def problem(draw, zeros=True, neg=True, unit=False):
    n, m = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    return dict(a=draw(g.w_spec(n, zeros=zeros)), b=draw(g.w_spec(m, zeros=zeros)), ma=draw(st.sampled_from([1.0, 0.6] if unit else [1.0, 0.3, 7.0])), mb=draw(st.sampled_from([1.0, 0.5] if unit else [1.0, 0.5, 4.0])),
                M=draw(g.m_spec(n, m, neg=neg, scale=False)), frac=draw(st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.0, None])), nb=draw(st.sampled_from([1, 1, 2, 5])), log=draw(st.booleans()), k=draw(g.seeds), zero=draw(st.booleans()))


def unpack(c):
    a, b, M = g.mk_w(c["a"], c["ma"]), g.mk_w(c["b"], c["mb"]), g.mk_m(c["M"])
    return a, b, M


def feasible(G, a, b, mass, tol, what):
    G = arr(G, (len(a), len(b)))
    leq(-G, 0, tol * 1e-3, f"{what}: negative entry")
    leq(G.sum(1), a, tol, f"{what}: source marginal exceeded")
    leq(G.sum(0), b, tol, f"{what}: target marginal exceeded")
    close(G.sum(), mass, tol, f"{what}: mass")
    return G


@facet(problem(), 700, 25000)
def exact(c, rec):
    """partial_wasserstein(2) for a requested mass: feasible, exactly that mass, minimal cost (independent LP); value of the plan; dummy points and default weights irrelevant."""
    a, b, M = unpack(c)
    top = min(a.sum(), b.sum())
    f = c["frac"] if c["frac"] is not None else 0.37
    mass = f * top
    rec.nontrivial(0 < f < 1 and min(M.shape) > 1)
    rec.label("f=%g" % f, "zero cost" if not M.any() else "negative cost" if M.min() < 0 else "nonnegative cost", "dummies=%d" % c["nb"])
    out = ot.partial.partial_wasserstein(a, b, M, m=mass, nb_dummies=c["nb"], log=c["log"])
    G = out[0] if c["log"] else out
    s = max(top, 1e-9)
    G = feasible(G, a, b, mass, 1e-8 * max(a.sum(), b.sum()), "plan")
    want = ref.lp_partial(a, b, M, mass)[0]
    cs = max(np.abs(M).max(), 1e-9) * s
    close((G * M).sum(), want, 1e-7 * cs, "cost is not minimal")
    if c["log"]:
        close(num(out[1]["partial_w_dist"]), want, 1e-7 * cs, "logged cost")
    v = ot.partial.partial_wasserstein2(a, b, M, m=mass, nb_dummies=c["nb"], log=c["log"])
    if c["log"]:
        close((feasible(v[1]["T"], a, b, mass, 1e-8 * max(a.sum(), b.sum()), "logged plan") * M).sum(), want, 1e-7 * cs, "cost of the logged plan")
    close(num(v[0] if c["log"] else v), want, 1e-7 * cs, "value")
    if f == 1 and abs(a.sum() - b.sum()) < 1e-12:
        rec.label("balanced limit")
        close(want, num(ot.emd2(a, b, M)), 1e-7 * cs, "balanced limit")
    u = ot.partial.partial_wasserstein([], [], M, m=f * (1 - 1e-12))
    n, m = M.shape
    close((feasible(u, np.ones(n) / n, np.ones(m) / m, f, 1e-8, "default weights") * M).sum(), ref.lp_partial(np.ones(n) / n, np.ones(m) / m, M, f)[0], 1e-7 * max(np.abs(M).max(), 1e-9), "default weights")
    for bad in (-0.1, top * 1.01 + 1e-3):
        try:
            ot.partial.partial_wasserstein(a, b, M, m=bad)
        except ValueError:
            continue
        ensure(False, f"mass {bad} accepted although at most {top} can be moved")


@facet(problem(unit=True), 500, 15000)
def lagrange(c, rec):
    """partial_wasserstein_lagrange: minimises <G, M - lambda> over sub-couplings (independent LP)."""
    from scipy.optimize import linprog
    a, b, M = unpack(c)
    n, m = M.shape
    r = g.rng(c["k"], 61)
    lam = None if c["frac"] is None else float(M.min() + (M.max() - M.min() + 0.1) * ((r.rand() if c["k"] % 3 else c["frac"]) * 1.4 - 0.2))
    kw = {} if lam is None else dict(reg_m=lam)
    L = M.max() + 1 if lam is None else lam
    fn = ot.partial.partial_wasserstein_lagrange if c["zero"] or lam is None else lambda *x, **k: ot.partial.partial_wasserstein(*x, m=None, **k)
    out = fn(a, b, M, nb_dummies=c["nb"], log=c["log"], **kw)
    G = arr(out[0] if c["log"] else out, (n, m))
    leq(-G, 0, 1e-11, "negative entry")
    leq(G.sum(1), a, 1e-8, "source marginal exceeded")
    leq(G.sum(0), b, 1e-8, "target marginal exceeded")
    A = np.zeros((n + m, n * m))
    for i in range(n):
        A[i, i * m:(i + 1) * m] = 1
    for j in range(m):
        A[n + j, j::m] = 1
    want = linprog((M - L).ravel(), A_ub=A, b_ub=np.concatenate([a, b]), bounds=(0, None), method="highs").fun
    cs = np.abs(M).max() + abs(L) + 1
    rec.nontrivial(min(n, m) > 1 and 1e-6 < G.sum() < min(a.sum(), b.sum()) - 1e-6)
    rec.label("default" if lam is None else "nothing" if L <= M.min() else "everything" if L > M.max() else "in between")
    close((G * (M - L)).sum(), want, 1e-7 * cs, "lagrangian objective is not minimal")
    if c["log"]:
        close(num(out[1]["cost"]), (G * M).sum(), 1e-9 * cs, "logged cost")


@st.composite
def ent(draw):
    c = draw(problem(zeros=False))
    c.update(reg=draw(st.sampled_from([0.1, 0.3, 1.0, 10.0])), method=draw(st.sampled_from(["sinkhorn", "sinkhorn_log", "direct"])))
    return c


@facet(ent(), 400, 10000, weight=2)
def entropic(c, rec):
    """Entropic partial OT: sub-coupling of exactly the requested mass; optimality conditions of the entropic problem once the iterates stop moving."""
    a, b, M = unpack(c)
    for w in (a, b):
        w += 0.02 * w.mean()
    top = min(a.sum(), b.sum())
    f = c["frac"]
    f = 0.37 if f == 0 else f
    mass = top if f is None else f * top
    reg = c["reg"] * max(1e-2, np.ptp(M), 0.1 * np.abs(M).max())
    kw = dict(m=None if f is None else mass, numItermax=3000, stopThr=1e-14 * mass, log=True)
    if c["method"] == "direct":
        (G, lg), bad = run(ot.partial.entropic_partial_wasserstein_logscale, a, b, M, reg, **kw)
    else:
        (G, lg), bad = run(ot.partial.entropic_partial_wasserstein, a, b, M, reg, method=c["method"], **kw)
    rec.label(c["method"], "all the smaller mass" if mass == top else "part")
    if bad:
        rec.skip("numerical breakdown reported")
        return
    G = arr(G, M.shape)
    ensure(G.min() >= 0, "negative entry")
    close(G.sum(), mass, 1e-8 * mass, "mass")
    close(num(lg["partial_w_dist"]), (G * M).sum(), 1e-9 * max(1e-9, np.abs(M).max()) * mass, "logged cost")
    if not (len(lg["err"]) and lg["err"][-1] <= 1e-13 * max(1, mass)):
        rec.label("still moving")
        return
    viol = max((G.sum(1) - a).max(), (G.sum(0) - b).max(), 0)
    leq(viol, 0, 1e-6 * mass, "marginals exceeded at convergence")
    rec.nontrivial(min(M.shape) > 1 and mass < top)
    R = np.log(G) + M / reg
    close(R - R[:, :1] - R[:1] + R[0, 0], 0, 1e-6, "log plan is not -M/reg plus a row and a column term")
    al, be = R[:, 0] - R[:, 0].max(), R[0] - R[0].max()
    sa, sb = 1 - G.sum(1) / a, 1 - G.sum(0) / b
    # a row (column) with slack must have the largest multiplier (which is zero for inactive constraints), unless all rows are tight
    for mult, sl, w in ((al, sa, "row"), (be, sb, "column")):
        loose = sl > 1e-5
        if loose.any():
            close(mult[loose], 0, 1e-3, f"a {w} with slack is scaled down: entropic optimality conditions fail")


@st.composite
def line(draw):
    n, m = draw(g.sizes(1, 9, big=30, p_big=0.1)), draw(g.sizes(1, 9, big=30, p_big=0.1))
    return dict(n=n, m=m, k=draw(g.seeds), kind=draw(st.sampled_from(["gauss", "int", "small", "offset", "same"])), p=draw(g.around([1, 1, 2, 3, 1.5, 2.0], 1, 4)), K=draw(st.one_of(st.none(), st.integers(0, 32))), col=draw(st.booleans()))


@facet(line(), 900, 40000)
def one_dimensional(c, rec):
    """partial_wasserstein_1d: index sets without repetition; for every number of samples the assignment between them is optimal (assignment with dummies) and its cost is the cumulated marginal cost."""
    r = g.rng(c["k"], 62)
    n, m, p = c["n"], c["m"], c["p"]
    gen = {"gauss": lambda k: r.randn(k), "int": lambda k: r.randint(-9, 10, k).astype(float), "small": lambda k: r.randint(0, 3, k).astype(float), "offset": lambda k: 100 + r.randn(k), "same": lambda k: np.arange(k).astype(float)}[c["kind"]]
    x, y = gen(n), gen(m)
    K = min(n, m) if c["K"] is None else min(c["K"], n, m)
    sh = (lambda z: z[:, None]) if c["col"] else (lambda z: z)
    x0, y0 = x.copy(), y.copy()
    ix, iy, mc = ot.partial.partial_wasserstein_1d(sh(x), sh(y), n_transported_samples=c["K"], p=p)
    ensure((x == x0).all() and (y == y0).all(), "inputs modified")
    ix, iy, mc = np.asarray(ix), np.asarray(iy), np.asarray(mc)
    ensure(len(ix) == K and len(iy) == K and len(mc) == K, f"lengths {len(ix)}, {len(iy)}, {len(mc)} instead of {K}")
    rec.nontrivial(K > 1 and max(n, m) > K)
    rec.label(c["kind"], "p=%g" % p, "fewer than possible" if K < min(n, m) else "too many asked" if (c["K"] or 0) > K else "all possible")
    ensure(len(set(ix)) == K and len(set(iy)) == K, "an atom is used twice")
    ensure(K == 0 or (0 <= ix.min() and ix.max() < n and 0 <= iy.min() and iy.max() < m), "index out of range")
    D = np.abs(x[:, None] - y[None]) ** p
    s = max(1.0, np.abs(np.concatenate([x, y])).max() * (n + m) if p == 1 else D.max())
    tot = np.cumsum(mc)
    for k in range(1, K + 1):
        have = (np.abs(np.sort(x[ix[:k]]) - np.sort(y[iy[:k]])) ** p).sum()
        close(tot[k - 1], have, 1e-9 * s * k, f"cumulated marginal cost at {k} samples")
        # assignment with n-k (m-k) dummies: exactly k real pairs
        C = np.zeros((n + m - k, n + m - k))
        C[:n, :m] = D
        C[n:, m:] = 10 * (D.max() + 1) * (n + m)
        i, j = linear_sum_assignment(C)
        close(have, C[i, j].sum(), 1e-9 * s * k, f"assignment of {k} samples is not optimal")
