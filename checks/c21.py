"""C21: generic regularised solvers, smooth dual / semi-dual OT, weak OT, factored OT."""
import numpy as np
import ot
import ot.factored
import ot.optim as oo
import ot.smooth as os_
import ot.weak
from hypothesis import strategies as st

import gen as g
import ref
from checks.c07 import run
from core import FACETS, arr, close, coupling, ensure, facet, leq, num, settle

FACETS.clear()
META = {
    "backends": [],
    "rule": "non-trivial when both sides have at least two atoms, one at least three, and the regulariser changes the optimum (plan differs from the start)",
    "assumptions": ["smooth regularisers", "stationarity is demanded up to the tolerance implied by the solver's own stopping rule"],
}
def le(x, y, msg):
    leq(x, y, 0.0, msg)


FK = ["quad", "qform", "smooth", "ent", "neg", "lin"]


def reg_f(kind, n, m, r):
    """-> f, df, convex, lipschitz"""
    if kind == "quad":
        W, T = 0.2 + r.rand(n, m), r.rand(n, m) / 3
        return (lambda G: 0.5 * np.sum(W * (G - T) ** 2)), (lambda G: W * (G - T)), True, 1.2
    if kind == "qform":
        A, B = r.randn(n, n), r.randn(m, m)
        A, B = A @ A.T / n, B @ B.T / m
        L = np.linalg.norm(A, 2) * np.linalg.norm(B, 2)
        return (lambda G: 0.5 * np.sum(G * (A @ G @ B))), (lambda G: A @ G @ B), True, L
    if kind == "smooth":
        e = 0.05
        return (lambda G: np.sum(np.sqrt(e ** 2 + np.sum(G ** 2, 1)))), (lambda G: G / np.sqrt(e ** 2 + np.sum(G ** 2, 1))[:, None]), True, 1 / e
    if kind == "ent":
        e = 0.02
        return (lambda G: np.sum((G + e) * np.log(G + e))), (lambda G: 1 + np.log(G + e)), True, 1 / e
    if kind == "neg":
        return (lambda G: -0.5 * np.sum(G ** 2)), (lambda G: -G), False, 1.0
    C = r.randn(n, m)
    return (lambda G: np.sum(C * G)), (lambda G: C + 0 * G), True, 1e-3


@st.composite
def prob(draw, kinds=FK, nmax=6, zeros=True):
    n, m = draw(st.integers(1, nmax)), draw(st.integers(2, nmax))
    return dict(a=draw(g.w_spec(n, zeros=zeros, skew=False)), b=draw(g.w_spec(m, zeros=zeros, skew=False)), M=draw(g.m_spec(n, m, scale=False)), f=draw(st.sampled_from(kinds)), reg=draw(st.sampled_from([1.0, 0.1, 10.0, 0.01])),
                k=draw(g.seeds), G0=draw(st.sampled_from([None, None, "vertex", "mid"])), zeroM=draw(st.sampled_from([False, False, False, True])), it=draw(st.sampled_from([800, 800, 1, 2, 7])),
                mix=draw(st.integers(0, 3)))


def unpack(c):
    a, b, M = g.mk_w(c["a"]), g.mk_w(c["b"]), g.mk_m(c["M"])
    r = g.rng(c["k"], 131)
    f, df, convex, L = reg_f(c["f"], len(a), len(b), r)
    G0 = None
    if c["G0"]:
        G0 = ref.lp_ot(a, b, r.randn(*M.shape))[1]
        if c["G0"] == "mid":
            G0 = 0.5 * G0 + 0.5 * np.outer(a, b)
    return a, b, (np.zeros_like(M) if c["zeroM"] else M), f, df, convex, L, G0, r


def history(loss, obj, what):
    loss = np.array([float(x) for x in loss])
    ensure(np.isfinite(loss).all(), f"{what}: non-finite recorded objective {loss}")
    s = 1 + np.abs(loss).max()
    d = np.diff(loss).max() if len(loss) > 1 else 0.0
    ensure(d <= 1e-9 * s, f"{what}: recorded objective increases by {d}")
    close(loss[-1], obj, 1e-8 * s, f"{what}: last recorded objective is not that of the returned plan")
    return s


def gap_tol(L, reg, s, D2=2.0):
    # last step decreased the cost by less than stop*s; the Armijo step along the Frank-Wolfe direction decreases it by at
    # least c1 * alpha * gap with alpha >= min(.99, gap / (reg L D2)) / 10 (backtracking), c1 = 1e-4
    stop, c1 = 1e-10 * s, 1e-4
    return 1e-7 * s + max(10 * stop / c1, np.sqrt(10 * stop * max(reg * L * D2, 1e-3) / c1))


@facet(prob(), 900, 40000)
def cg(c, rec):
    a, b, M, f, df, convex, L, G0, r = unpack(c)
    o, bad = run(oo.cg, a, b, M, c["reg"], f, df, G0=None if G0 is None else G0.copy(), numItermax=c["it"], stopThr=1e-10, stopThr2=1e-10, log=True)
    ensure(not bad, f"cg: {bad}")
    G, log = arr(o[0]), o[1]
    obj = lambda G: np.sum(M * G) + c["reg"] * f(G)
    coupling(G, a, b, 1e-9, "cg")
    s = history(log["loss"], obj(G), "cg")
    start = np.outer(a, b) if G0 is None else G0
    close(float(log["loss"][0]), obj(start), 1e-9 * s, "cg: first recorded objective is not that of the starting plan")
    rec.label(c["f"], "start:" + str(c["G0"]), "itermax:%d" % c["it"], "n=1" if len(a) == 1 else "n>1")
    rec.nontrivial(len(a) >= 2 and max(M.shape) >= 3 and np.abs(G - start).max() > 1e-6)
    if len(log["loss"]) <= c["it"]:
        def gap(G):
            gr = M + c["reg"] * df(G)
            return np.sum(gr * G) - ref.lp_ot(a, b, gr)[0]

        settle(G, gap, lambda G: oo.cg(a, b, M, c["reg"], f, df, G0=G, numItermax=c["it"], stopThr=1e-10, stopThr2=1e-10), gap_tol(L, c["reg"], s), f"cg: stopped at a non-stationary plan ({c['f']})")
        rec.label("stopped")


@facet(prob(), 700, 30000)
def semirelaxed(c, rec):
    a, b, M, f, df, convex, L, G0, r = unpack(c)
    o, bad = run(oo.semirelaxed_cg, a, b, M, c["reg"], f, df, G0=None if G0 is None else G0.copy(), numItermax=c["it"], stopThr=1e-10, stopThr2=1e-10, log=True)
    ensure(not bad, f"semirelaxed_cg: {bad}")
    G, log = arr(o[0]), o[1]
    obj = lambda G: np.sum(M * G) + c["reg"] * f(G)
    ensure(G.min() >= -1e-12, f"semirelaxed_cg: negative entry {G.min()}")
    close(G.sum(1), a, 1e-9, "semirelaxed_cg: first marginal")
    s = history(log["loss"], obj(G), "semirelaxed_cg")
    rec.label(c["f"], "start:" + str(c["G0"]), "itermax:%d" % c["it"])
    rec.nontrivial(len(a) >= 2 and max(M.shape) >= 3)
    if len(log["loss"]) <= c["it"]:
        def gap(G):
            gr = M + c["reg"] * df(G)
            return np.sum(gr * G) - np.sum(a * gr.min(1))

        settle(G, gap, lambda G: oo.semirelaxed_cg(a, b, M, c["reg"], f, df, G0=G, numItermax=c["it"], stopThr=1e-10, stopThr2=1e-10), gap_tol(L, c["reg"], s), f"semirelaxed_cg: stopped at a non-stationary plan ({c['f']})")
        rec.label("stopped")


@facet(prob(nmax=5), 500, 20000)
def partial_cg(c, rec):
    a, b, M, f, df, convex, L, G0, r = unpack(c)
    n, m = M.shape
    b = b * 1.5  # unequal masses
    mass = 0.7 * (1 - 1e-9)
    nb = 1 + c["mix"]
    ae = np.append(a, [(b.sum() - mass) / nb] * nb)
    be = np.append(b, [(a.sum() - mass) / nb] * nb)
    G0 = mass * np.outer(a, b) / 1.5 if c["G0"] is None else ref.lp_partial(a, b, r.rand(n, m), mass)[1]
    kw = {} if c["mix"] % 2 else dict(line_search=lambda cost, G, D, Mi, cG, df_G, **k: oo.line_search_armijo(cost, G, D, Mi, cG))
    o, bad = run(oo.partial_cg, a, b, ae, be, M, c["reg"], f, df, G0=G0.copy(), numItermax=max(c["it"], 200), stopThr=1e-10, stopThr2=1e-10, log=True, **kw)
    ensure(not bad, f"partial_cg: {bad}")
    G, log = arr(o[0]), o[1]
    obj = lambda G: np.sum(M * G) + c["reg"] * f(G)
    ensure(G.min() >= -1e-12, f"partial_cg: negative entry {G.min()}")
    le((G.sum(1) - a).max(), 1e-9, "partial_cg: first marginal exceeded")
    le((G.sum(0) - b).max(), 1e-9, "partial_cg: second marginal exceeded")
    close(G.sum(), mass, 1e-8, "partial_cg: transported mass")
    s = history(log["loss"], obj(G), "partial_cg")
    rec.label(c["f"], "dummies:%d" % nb, "default-search" if not kw else "given-search")
    rec.nontrivial(n >= 2 and max(M.shape) >= 3)
    if len(log["loss"]) <= max(c["it"], 200):
        def gap(G):
            gr = M + c["reg"] * df(G)
            return np.sum(gr * G) - ref.lp_partial(a, b, gr, mass)[0]

        settle(G, gap, lambda G: oo.partial_cg(a, b, ae, be, M, c["reg"], f, df, G0=G, numItermax=max(c["it"], 200), stopThr=1e-10, stopThr2=1e-10, **kw), gap_tol(L, c["reg"], s), f"partial_cg: stopped at a non-stationary plan ({c['f']})")
        rec.label("stopped")


@facet(prob(["quad", "qform", "smooth", "lin", "neg"], zeros=False), 400, 15000)
def gcg(c, rec):
    a, b, M, f, df, convex, L, G0, r = unpack(c)
    reg1 = [0.2, 1.0, 0.5, 2.0][c["mix"]]
    reg2 = c["reg"]
    if c["G0"] == "vertex":
        G0 = 0.9 * G0 + 0.1 * np.outer(a, b)
    it = c["it"]
    o, bad = run(oo.gcg, a, b, M, reg1, reg2, f, df, G0=None if G0 is None else G0.copy(), numItermax=it, numInnerItermax=20000, stopThr=1e-10, stopThr2=1e-10, log=True)
    if bad:
        rec.stop("sinkhorn did not converge")
    G, log = arr(o[0]), o[1]
    coupling(G, a, b, 1e-6, "gcg")
    obj = lambda G: np.sum(M * G) + reg1 * ref.entropy(G) + reg2 * f(G)
    loss = np.array([float(x) for x in log["loss"]])
    s = 1 + np.abs(loss).max()
    # Sinkhorn's plans satisfy the marginals to 1e-9 only, hence the looser tolerances
    ensure(np.isfinite(loss).all() and (len(loss) < 2 or np.diff(loss).max() <= 1e-6 * s), f"gcg: recorded objective increases {loss[:10]}")
    close(loss[-1], obj(G), 1e-7 * s, "gcg: last recorded objective is not that of the returned plan")
    rec.label(c["f"], "start:" + str(c["G0"]), "reg1=%g" % reg1)
    rec.nontrivial(len(a) >= 2 and max(M.shape) >= 3)
    if len(loss) <= it:
        C = M + reg2 * df(G)
        P, _, _, err = ref.gibbs_ot(a, b, C, reg1)
        if err > 1e-10:
            rec.stop("reference sinkhorn")
        gap = np.sum(C * G) + reg1 * ref.entropy(G) - np.sum(C * P) - reg1 * ref.entropy(P)
        le(gap, 1e-6 * s + gap_tol(L, reg2, s), f"gcg: stopped at a non-stationary plan ({c['f']})")
        rec.label("stopped")


@st.composite
def ls(draw):
    return dict(n=draw(st.integers(1, 4)), m=draw(st.integers(1, 4)), f=draw(st.sampled_from(FK)), k=draw(g.seeds), amin=draw(st.sampled_from([0.0, 0.0, 0.0, 0.1])), amax=draw(st.sampled_from([None, None, 1.0, 0.3])),
                c1=draw(st.sampled_from([1e-4, 0.1, 0.4])), a0=draw(st.sampled_from([0.99, 1.0, 0.5])), old=draw(st.booleans()), s=draw(st.sampled_from([1.0, 30.0, 0.01])),
                q=draw(st.tuples(st.floats(-3, 3), st.floats(-3, 3))), up=draw(st.sampled_from([False, False, False, True])))


@facet(ls(), 900, 30000)
def line_search(c, rec):
    r = g.rng(c["k"], 132)
    f, df, _, _ = reg_f(c["f"], c["n"], c["m"], r)
    f2 = lambda G, w=1.0: w * c["s"] * f(G)
    X = r.rand(c["n"], c["m"])
    gr = c["s"] * df(X)
    P = r.rand(c["n"], c["m"]) - X
    if np.sum(P * gr) > 0 and not c["up"]:
        P = -P * X.min() / max(1e-9, np.abs(P).max())  # keep the iterates positive
    amax = c["amax"]
    o, bad = run(oo.line_search_armijo, f2, X, P, gr, f2(X) if c["old"] else None, c1=c["c1"], alpha0=c["a0"], alpha_min=c["amin"], alpha_max=amax)
    ensure(not bad, f"line_search_armijo: {bad}")
    al, fc, v = float(np.ravel(o[0])[0]), o[1], float(np.ravel(o[2])[0])
    sc = 1 + abs(v)
    close(v, f2(X + al * P), 1e-9 * sc, "line_search_armijo: returned value is not the objective at the returned step")
    ensure(al == 0 or c["amin"] - 1e-12 <= al <= (np.inf if amax is None else amax) + 1e-12, f"line_search_armijo: step {al} outside its bounds")
    slope = np.sum(P * gr)
    rec.label("zero-step" if al == 0 else "full-step" if al >= c["a0"] else "backtracked", "ascent" if slope >= 0 else "descent", c["f"])
    rec.nontrivial(c["n"] * c["m"] >= 2 and slope < 0)
    if c["amin"] == 0 and amax is None and slope < 0:
        le(v, f2(X) + c["c1"] * al * slope + 1e-9 * sc, "line_search_armijo: no sufficient decrease")
        ensure(al > 0, "line_search_armijo: no step along a descent direction of a smooth function")
    A, B = c["q"]
    x = float(oo.solve_1d_linesearch_quad(A, B))
    ensure(0 <= x <= 1, f"solve_1d_linesearch_quad: {x}")
    t = np.append(np.linspace(0, 1, 201), [min(1, max(0, -B / (2 * A))) if A else 0])
    le(A * x * x + B * x, (A * t * t + B * t).min() + 1e-12, "solve_1d_linesearch_quad: not the minimum on [0, 1]")


# ---------------------------------------------------------------------- smooth
@st.composite
def sm(draw):
    n, m = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    z = draw(st.sampled_from([False, False, False, True]))
    return dict(a=draw(g.w_spec(n, zeros=z, skew=False)), b=draw(g.w_spec(m, zeros=z, skew=False)), M=draw(g.m_spec(n, m, scale=False)), reg=draw(st.sampled_from([1.0, 0.1, 5.0])),
                t=draw(st.sampled_from(["l2", "kl", "sparsity_constrained", "l2", "kl"])), nz=draw(st.integers(1, 4)), k=draw(g.seeds), form=draw(st.sampled_from(["dual", "semi"])), method=draw(st.sampled_from([None, None, "L-BFGS-B", "CG"])), alias=draw(st.booleans()))


def l2_ref(a, b, M, reg):
    """min <M,G> + reg/2 |G|^2 over couplings, by the KKT conditions of a QP solved with cvxopt."""
    from cvxopt import matrix, solvers, spmatrix
    n, m = M.shape
    A = np.zeros((n + m, n * m))
    for i in range(n):
        A[i, i * m:(i + 1) * m] = 1
    for j in range(m):
        A[n + j, j::m] = 1
    A, rhs = A[:-1], np.concatenate([a, b])[:-1]
    N = n * m
    I = spmatrix(1.0, range(N), range(N))
    s = solvers.qp(reg * I, matrix(np.asarray(M, float).ravel()), -I, matrix(0.0, (N, 1)), matrix(A), matrix(rhs), options=dict(show_progress=False, abstol=1e-11, reltol=1e-11, feastol=1e-11))
    G = np.maximum(np.array(s["x"]).reshape(n, m), 0)
    return np.sum(M * G) + reg / 2 * np.sum(G ** 2), G, s["status"] == "optimal"


def conj(X, reg, t, nz):
    """Omega*(x) for each column and its gradient (Omega = reg * entropy | reg/2 |.|^2 (with at most nz non-zeros) on x >= 0)"""
    if t == "kl":
        P = np.exp(X / reg - 1)
        return reg * P.sum(0), P
    P = np.maximum(X, 0) / reg
    if t == "sparsity_constrained":
        Q = np.zeros_like(P)
        for j in range(P.shape[1]):
            i = np.argsort(-X[:, j], kind="stable")[:nz]
            Q[i, j] = P[i, j]
        P = Q
    return reg / 2 * (P ** 2).sum(0), P


def proj(v, z, nz=None):
    """Euclidean projection on the simplex of mass z (with at most nz non-zeros)"""
    v = np.asarray(v, float)
    idx = np.argsort(-v, kind="stable")[: (nz or len(v))]
    u = v[idx]
    cs = (np.cumsum(u) - z) / np.arange(1, len(u) + 1)
    k = np.nonzero(u > cs)[0][-1]
    out = np.zeros_like(v)
    out[idx] = np.maximum(u - cs[k], 0)
    return out


def maxom(X, b, reg, t, nz):
    """max_{T >= 0, sum T = b_j} <T, X_j> - Omega(T), per column -> value, T"""
    T = np.zeros_like(X)
    for j in range(X.shape[1]):
        if b[j] == 0:
            continue
        if t == "kl":
            e = np.exp((X[:, j] - X[:, j].max()) / reg)
            T[:, j] = b[j] * e / e.sum()
        else:
            T[:, j] = proj(X[:, j] / reg, b[j], min(nz, len(X)) if t.startswith("sp") else None)
    om = reg * np.array([ref.entropy(x) for x in T.T]) if t == "kl" else reg / 2 * (T ** 2).sum(0)
    return (T * X).sum(0) - om, T


ALIAS = {"l2": "SquaredL2", "kl": "negentropy", "sparsity_constrained": "Sparsity-Constrained"}


@facet(sm(), 900, 30000)
def smooth(c, rec):
    a, b, M = g.mk_w(c["a"]), g.mk_w(c["b"]), g.mk_m(c["M"])
    reg, t, nz = c["reg"], c["t"], c["nz"]
    n, m = M.shape
    if t == "sparsity_constrained":
        nz = min(nz, n - 1)
        if nz < 1:
            rec.stop("no sparsity constraint with one row")
    if c["form"] == "dual" and t == "kl" and (a.min() == 0 or b.min() == 0):
        rec.stop("the entropic dual has no maximiser with zero weights")
    name = ALIAS[t] if c["alias"] else t
    if c["form"] == "dual" and t == "kl" and c["method"] == "CG":
        rec.stop("unprotected line search on an exponential objective")
    kw = dict(method=c["method"]) if c["method"] else {}
    if c["M"][0] in ("int", "list") and c["method"] is None:
        M = M.astype(int)
        rec.label("integer cost")
    fn = os_.smooth_ot_dual if c["form"] == "dual" else os_.smooth_ot_semi_dual
    o, bad = run(fn, a, b, M, reg, reg_type=name, log=True, max_nz=nz if t.startswith("sp") else None, stopThr=1e-12, numItermax=5000, **kw)
    ensure(not bad, f"smooth_ot_{c['form']} {name}: {bad}")
    G, log = arr(o[0]), o[1]
    al = arr(log["alpha"])
    s = 1 + np.abs(M).max()
    what = f"smooth_ot_{c['form']} {t}"
    rec.label(c["form"], t, "zero-weights" if min(a.min(), b.min()) == 0 else "positive")
    rec.nontrivial(n >= 2 and m >= 2 and n * m >= 6)
    ensure(G.min() >= 0, f"{what}: negative entry")
    if c["form"] == "dual":
        be = arr(log["beta"])
        val, P = conj(al[:, None] + be[None] - M, reg, t, nz)
        D = al @ a + be @ b - val.sum()
        if t.startswith("sp"):  # ties: compare values
            X = al[:, None] + be[None] - M
            close((G * X).sum(0) - reg / 2 * (G ** 2).sum(0), val, 1e-9 * (1 + np.abs(val).max()), f"{what}: plan does not attain the conjugate at the returned potentials")
        else:
            close(G, P, 1e-9 * (1 + P.max()), f"{what}: plan is not the gradient of the conjugate at the returned potentials")
    else:
        val, P = maxom(al[:, None] - M, b, reg, t, nz)
        D = al @ a - val.sum()
        if not t.startswith("sp"):
            close(G, P, 1e-8 * (1 + P.max()), f"{what}: plan is not the semi-dual maximiser at the returned potential")
        close(G.sum(0), b, 1e-9, f"{what}: second marginal")
    if t.startswith("sp"):
        ensure((G > 0).sum(0).max() <= nz, f"{what}: more than {nz} non-zeros in a column")
    close(-float(log["res"].fun), D, 1e-7 * s, f"{what}: reported dual objective")
    ensure(hasattr(log["res"], "hess_inv") == (c["method"] != "CG"), f"{what}: the requested optimisation method was not used")
    if not log["res"].success:
        rec.label("not-converged")
        return
    if t == "l2":
        v, R, ok = l2_ref(a, b, M, reg)
    elif t == "kl":
        if c["form"] == "dual" and np.abs(M).max() / reg > 5:
            rec.stop("L-BFGS on the exponential dual stops early far from the origin")
        p, q = a > 0, b > 0
        P, _, _, err = ref.gibbs_ot(a[p], b[q], M[np.ix_(p, q)], reg)
        ok, v = err < 1e-9, np.sum(M[np.ix_(p, q)] * P) + reg * ref.entropy(P)
    else:
        return
    if not ok:
        rec.stop("reference did not converge")
    le(D, v + 1e-6 * s, f"{what}: dual objective above the primal optimum")
    le(v, D + 2e-3 * s, f"{what}: dual objective far below the optimum")
    rec.label("optimal")
    le(np.abs(G.sum(1) - a).max(), 5e-3, f"{what}: first marginal")
    le(np.abs(G.sum(0) - b).max(), 5e-3, f"{what}: second marginal")


@facet(sm(), 700, 25000)
def smooth_parts(c, rec):
    """objectives, gradients and projections against their definitions at arbitrary potentials"""
    a, b, M = g.mk_w(c["a"]), g.mk_w(c["b"]), g.mk_m(c["M"])
    reg, t = c["reg"], c["t"]
    n, m = M.shape
    nz = min(c["nz"], n - 1)
    if t.startswith("sp") and nz < 1:
        rec.stop("no sparsity constraint with one row")
    r = g.rng(c["k"], 133)
    al, be = r.randn(n) * 2, r.randn(m) * 2
    R = {"l2": os_.SquaredL2(reg), "kl": os_.NegEntropy(reg), "sparsity_constrained": os_.SparsityConstrained(nz, reg)}[t]
    obj, ga, gb = os_.dual_obj_grad(al, be, a, b, M, R)
    val, P = conj(al[:, None] + be[None] - M, reg, t, nz)
    s = 1 + np.abs(val).sum() + P.sum()
    close(float(obj), al @ a + be @ b - val.sum(), 1e-9 * s, "dual objective")
    close(ga, a - P.sum(1), 1e-9 * s, "dual gradient, first block")
    close(gb, b - P.sum(0), 1e-9 * s, "dual gradient, second block")
    close(os_.get_plan_from_dual(al, be, M, R), P, 1e-9 * s, "plan from dual")
    rec.label(t)
    rec.nontrivial(n >= 2 and m >= 2 and n * m >= 6)
    if b.min() > 0:
        obj, ga = os_.semi_dual_obj_grad(al, a, b, M, R)
        val, T = maxom(al[:, None] - M, b, reg, t, nz)
        s = 1 + np.abs(val).sum()
        close(float(obj), al @ a - val.sum(), 1e-8 * s, "semi-dual objective")
        close(ga, a - T.sum(1), 1e-8, "semi-dual gradient")
        close(os_.get_plan_from_semi_dual(al, b, M, R), T, 1e-8, "plan from semi-dual")
    z = r.rand(m) + 0.1
    V = g.mk_m(c["M"])
    W = os_.projection_simplex(V, z, axis=0)
    close(W, np.stack([proj(V[:, j], z[j]) for j in range(m)], 1), 1e-9 * (1 + np.abs(V).max()), "projection_simplex axis=0")
    W = os_.projection_simplex(V, 1.7, axis=1)
    close(W, np.stack([proj(V[i], 1.7) for i in range(n)]), 1e-9 * (1 + np.abs(V).max()), "projection_simplex axis=1")


# ---------------------------------------------------------------------- weak / factored
@st.composite
def wk(draw):
    n, m, d = draw(st.integers(1, 6)), draw(st.integers(1, 6)), draw(st.integers(1, 3))
    return dict(n=n, m=m, d=d, a=draw(st.one_of(st.none(), g.w_spec(n, skew=False))), b=draw(st.one_of(st.none(), g.w_spec(m, skew=False))), k=draw(g.seeds), X=draw(g.x_spec(n, d)), Y=draw(g.x_spec(m, d)),
                G0=draw(st.sampled_from([None, None, "vertex"])), same=draw(st.sampled_from([0, 0, 0, 1])))


@facet(wk(), 500, 20000)
def weak(c, rec):
    X, Y = g.mk_x(c["X"]), g.mk_x(c["Y"])
    a = None if c["a"] is None else g.mk_w(c["a"])
    b = None if c["b"] is None else g.mk_w(c["b"])
    A = np.ones(c["n"]) / c["n"] if a is None else a
    B = np.ones(c["m"]) / c["m"] if b is None else b
    r = g.rng(c["k"], 134)
    G0 = None if c["G0"] is None else ref.lp_ot(A, B, r.randn(c["n"], c["m"]))[1]
    o, bad = run(ot.weak_optimal_transport, X, Y, a, b, log=True, G0=G0, numItermax=250, stopThr=1e-10, stopThr2=1e-10)
    ensure(not bad, f"weak_optimal_transport: {bad}")
    G, log = arr(o[0]), o[1]
    ensure(np.isfinite(G).all(), "weak_optimal_transport: non-finite plan")
    coupling(G, A, B, 1e-9, "weak_optimal_transport")
    As = np.where(A > 0, A, 1)
    f = lambda G: np.sum(A * ((X - G @ Y / As[:, None]) ** 2).sum(1))
    s = history(log["loss"], f(G), "weak_optimal_transport")
    rec.label("start:" + str(c["G0"]), "zero-weights" if A.min() == 0 else "positive")
    rec.nontrivial(c["n"] >= 2 and c["m"] >= 3)
    if len(log["loss"]) <= 250:
        p = A > 0

        def gap(G):
            gr = -2 * (X - G @ Y / As[:, None]) @ Y.T
            return np.sum(gr * G) - ref.lp_ot(A[p], B, gr[p])[0]

        settle(G, gap, lambda G: ot.weak_optimal_transport(X, Y, a, b, G0=G, numItermax=250, stopThr=1e-10, stopThr2=1e-10), gap_tol(2 * np.linalg.norm(Y, 2) ** 2 / A[p].min(), 1.0, s), "weak_optimal_transport: stopped at a non-stationary plan")
        rec.label("stopped")


@st.composite
def fac(draw):
    n, m, d = draw(st.integers(1, 6)), draw(st.integers(1, 6)), draw(st.integers(1, 3))
    r = draw(st.integers(1, 5))
    return dict(n=n, m=m, d=d, r=r, a=draw(st.one_of(st.none(), g.w_spec(n, skew=False))), b=draw(st.one_of(st.none(), g.w_spec(m, skew=False))), k=draw(g.seeds), X=draw(g.x_spec(n, d)), Y=draw(g.x_spec(m, d)),
                reg=draw(st.sampled_from([0.0, 0.0, 2.0])), it=draw(st.sampled_from([1, 2, 3, 200])), x0=draw(st.sampled_from([True, True, False])))


@facet(fac(), 400, 15000)
def factored(c, rec):
    X, Y = g.mk_x(c["X"]), g.mk_x(c["Y"])
    a = None if c["a"] is None else g.mk_w(c["a"])
    b = None if c["b"] is None else g.mk_w(c["b"])
    A = np.ones(c["n"]) / c["n"] if a is None else a
    B = np.ones(c["m"]) / c["m"] if b is None else b
    r, w = c["r"], np.ones(c["r"]) / c["r"]
    X0 = g.rng(c["k"], 135).randn(r, c["d"])
    if c["reg"] and (A.min() == 0 or B.min() == 0 or max(np.abs(X).max(), np.abs(Y).max()) > 4):
        rec.stop("entropic case kept to positive weights and moderate costs")
    kw = dict(numItermax=10000) if c["reg"] and False else {}

    def call(it):
        ot.backend.get_backend(X).seed(c["k"])
        o, bad = run(ot.factored_optimal_transport, X, Y, a, b, reg=c["reg"], r=r, X0=X0.copy() if c["x0"] else None, numItermax=it, stopThr=1e-9, log=True, **kw)
        ensure(not bad or c["reg"], f"factored_optimal_transport: {bad}")
        if bad:
            rec.stop("sinkhorn did not converge within its default iterations")
        return o
    Ga, Gb, Z, log = call(c["it"])
    tol = 1e-9 if not c["reg"] else 1e-6
    coupling(Ga, A, w, tol, "factored: first plan")
    coupling(Gb, w, B, tol, "factored: second plan")
    close(Z, 0.5 * r * (Ga.T @ X + Gb @ Y), 1e-9 * (1 + np.abs(Z).max()), "factored: anchors are not the barycentric update of the returned plans")
    close(log["lazy_plan"][:], r * Ga @ Gb, 1e-10, "factored: lazy plan")
    coupling(log["lazy_plan"][:], A, B, 10 * tol, "factored: lazy plan")
    # the plans are optimal for the previous anchors
    if c["it"] == 1:
        if c["x0"]:
            old = X0
        else:
            nx = ot.backend.get_backend(X)
            nx.seed(c["k"])
            old = nx.randn(r, c["d"], type_as=X)
    else:
        old = call(c["it"] - 1)[2] if c["it"] <= 3 else None
    if c["it"] == 200 and len(log["delta_iter"]) < 200:
        old = Z
        rec.label("converged")
    elif c["it"] <= 3 and len(log["delta_iter"]) < c["it"]:
        old = Z
    obj = lambda P, C: np.sum(P * C) + (c["reg"] * ref.entropy(P) if c["reg"] else 0)
    rec.label("reg" if c["reg"] else "exact", "it:%d" % c["it"], "X0" if c["x0"] else "random")
    rec.nontrivial(r >= 2 and c["n"] >= 3 and c["m"] >= 2)
    if old is None:
        return
    for P, C, p, q, key in [(Ga, ref.cost_matrix(X, old), A, w, "costa"), (Gb, ref.cost_matrix(old, Y), w, B, "costb")]:
        s = 1 + C.max()
        close(num(log[key]), np.sum(P * C), 1e-6 * s, f"factored: {key}")
        if c["reg"]:
            R, _, _, err = ref.gibbs_ot(p, q, C, c["reg"])
            if err > 1e-9:
                rec.stop("reference sinkhorn")
            best = obj(R, C)
        else:
            best = ref.lp_ot(p, q, C)[0]
        le(obj(P, C), best + 1e-6 * s, f"factored: plan not optimal between samples and anchors ({key})")


@facet(prob(zeros=False), 300, 8000)
def generic(c, rec):
    """generic_conditional_gradient with its own entropy term: descent of the documented objective over the oracle's polytope, stationary when it stops"""
    a, b, M, f, df, convex, L, G0, r = unpack(c)
    R = np.outer(a, b)
    reg1, reg2 = min(c["reg"], 1.0), [0.1, 1.0, 0.5, 2.0][c["mix"]]
    G0 = R if G0 is None else 0.5 * G0 + 0.5 * R
    if R.min() < 1e-6:
        rec.skip("tiny weights")
        return
    seen = []

    def lp(p, q, Mi, **k):  # vertices of the polytope shrunk towards the product plan: plans stay positive
        seen.append((p, q, Mi))
        G = ref.lp_ot(a, b, np.asarray(Mi))[1]
        return 0.8 * np.maximum(G, 0) + 0.2 * R, {"asked": len(seen)}

    def ls(cost, G, deltaG, Mi, cost_G, df_G, **k):
        return oo.line_search_armijo(cost, G, deltaG, Mi, cost_G, **k)

    it = min(c["it"], 30)
    (G, log), bad = run(oo.generic_conditional_gradient, a, b, M, f, df, reg1, reg2, lp, ls, G0=G0.copy(), numItermax=it, stopThr=1e-12, stopThr2=1e-12, log=True)
    ensure(not bad, f"generic: {bad}")
    obj = lambda G: np.sum(M * G) + reg1 * f(G) + reg2 * np.sum(G * np.log(G))
    coupling(G, a, b, 1e-9, "generic")
    s = history(log["loss"], obj(G), "generic")
    close(float(log["loss"][0]), obj(G0), 1e-9 * s, "generic: first recorded objective is not that of the starting plan")
    close(seen[0][2], M + reg1 * df(G0) + reg2 * (1 + np.log(G0)), 1e-9 * (1 + np.abs(M).max()), "generic: linearisation at the start")
    ensure(log.get("asked") == len(seen), "generic: the log of the last linear problem is not returned")
    rec.label(c["f"])
    rec.nontrivial(len(a) >= 2 and np.abs(G - G0).max() > 1e-6)
