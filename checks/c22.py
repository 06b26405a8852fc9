"""C22: stochastic solvers, regularisation path, multi-marginal 1-D OT."""
import contextlib
import io
import itertools

import numpy as np
import ot
import ot.regpath as rp
import ot.stochastic as so
from hypothesis import strategies as st
from scipy.special import logsumexp

import gen as g
import ref
from core import FACETS, arr, close, ensure, facet, leq, num

FACETS.clear()
META = {
    "backends": [],
    "rule": "non-trivial when both sides have at least two atoms and one at least three (multi-marginal: at least three histograms or three bins)",
    "assumptions": ["regularisation path: positive costs in general position (no two events of the path at the same parameter value)"],
}


@st.composite
def case(draw, zeros=False, nmax=6):
    n, m = draw(st.integers(1, nmax)), draw(st.integers(1, nmax))
    return dict(a=draw(g.w_spec(n, zeros=zeros, skew=False)), b=draw(g.w_spec(m, zeros=zeros, skew=False)), M=draw(g.m_spec(n, m, scale=False)), reg=draw(g.around([1.0, 0.1, 5.0], 0.05, 5)),
                k=draw(g.seeds), s=draw(st.sampled_from([1.0, 1.0, 100.0])), p=draw(st.integers(1, nmax)), q=draw(st.integers(1, nmax)), lr=draw(st.sampled_from([None, 0.3, 2.0])), it=draw(st.integers(1, 6)))


def unpack(c, tag=141):
    a, b, M = g.mk_w(c["a"]), g.mk_w(c["b"]), g.mk_m(c["M"])
    r = g.rng(c["k"], tag)
    return a, b, M, c["reg"], r


class Fixed(np.random.RandomState):
    """A generator whose integer draws are prescribed."""
    def __init__(self, seq):
        super().__init__(0)
        self.seq = list(seq)

    def randint(self, *a, **k):
        return self.seq.pop(0)


def khi(b, M, reg, beta, i):
    with np.errstate(divide="ignore"):
        z = (beta - M[i]) / reg + np.log(b)
    return np.exp(z - logsumexp(z))


def semi(a, b, M, reg, beta):
    """semi-dual objective sum_i a_i alpha_i(beta) + <b, beta>"""
    with np.errstate(divide="ignore"):
        return beta @ b - reg * a @ logsumexp((beta[None] - M) / reg + np.log(b)[None], axis=1)


@facet(case(zeros=True), 900, 30000)
def semi_dual(c, rec):
    a, b, M, reg, r = unpack(c)
    n, m = M.shape
    beta = r.randn(m) * c["s"]
    sc = np.abs(M).max() + np.abs(beta).max() + 1
    with np.errstate(divide="ignore"):
        al = -reg * logsumexp((beta[None] - M) / reg + np.log(b)[None], axis=1)
    close(so.c_transform_entropic(b, M, reg, beta), al, 1e-9 * sc, "entropic c-transform")
    for i in range(n):
        ref_i = b - khi(b, M, reg, beta, i)
        close(so.coordinate_grad_semi_dual(b, M, reg, beta, i), ref_i, 1e-9, "coordinate gradient of the semi-dual")
    rec.label("large" if sc / reg > 700 else "moderate", "zero-weights" if b.min() == 0 else "positive")
    rec.nontrivial(n >= 2 and m >= 2 and n * m >= 6)
    # in expectation the first step of both stochastic methods follows the exact gradient of the semi-dual
    exact = sum(a[i] * (b - khi(b, M, reg, np.zeros(m), i)) for i in range(n))
    lr = c["lr"] or 1.0 / (a / reg).max()
    sag = np.mean([so.sag_entropic_transport(a, b, M, reg, 1, c["lr"], Fixed([i])) for i in range(n)], 0)
    close(sag * n ** 2, lr * exact, 1e-9 * (1 + lr), "expected first step of SAG")
    asgd = np.mean([so.averaged_sgd_entropic_transport(a, b, M, reg, 1, c["lr"], Fixed([i])) for i in range(n)], 0)
    k = asgd @ exact / max(exact @ exact, 1e-300)
    if exact @ exact > 1e-16:
        close(asgd, k * exact, 1e-8 * (np.abs(asgd).max() + 1e-300), "expected first step of averaged SGD is not along the exact gradient")
        ensure(k > 0, "averaged SGD descends")
    # after a full sweep the SAG memory holds the exact gradient table: replay of the recursion
    seq = list(r.randint(0, n, n * c["it"]))
    cur, table = np.zeros(m), np.zeros((n, m))
    for i in seq:
        table[i] = a[i] * (b - khi(b, M, reg, cur, i))
        cur = cur + lr / n * table.sum(0)
    close(so.sag_entropic_transport(a, b, M, reg, len(seq), c["lr"], Fixed(seq)), cur, 1e-8 * (1 + np.abs(cur).max()), "SAG iterates")


@facet(case(), 150, 6000)
def solve_semi_dual(c, rec):
    """runs depend only on the seed, approach the optimum, and the plan is the documented function of the potentials"""
    a, b, M, reg, r = unpack(c)
    M = M / (1 + np.abs(M).max())
    reg = max(reg, 0.3)
    n, m = M.shape
    seed = c["k"] % 1000
    fs = {"sag": so.sag_entropic_transport, "asgd": so.averaged_sgd_entropic_transport}
    P, f, h, err = ref.gibbs_ot(a, b, M, reg)
    beta0 = h * reg - reg * np.log(b)
    best = semi(a, b, M, reg, beta0)
    start = semi(a, b, M, reg, np.zeros(m))
    for name, fn in fs.items():
        N = 3000
        x = fn(a, b, M, reg, N, random_state=seed)
        y = fn(a, b, M, reg, N, random_state=np.random.RandomState(seed))
        close(x, y, 1e-12, f"{name}: an integer seed and the generator it stands for give different runs")
        v = semi(a, b, M, reg, x)
        leq(v, best, 1e-9, f"{name}: semi-dual above its maximum")
        leq(best - v, 0.5 * (best - start), 5e-3, f"{name}: no convergence towards the optimum")
        rec.label(name)
        with contextlib.redirect_stdout(io.StringIO()):
            np.random.seed(seed)
            pi, log = so.solve_semi_dual_entropic(a, b, M, reg, name.upper() if seed % 2 else name, numItermax=200, log=True)
            np.random.seed(seed)
            pi2 = so.solve_semi_dual_entropic(a, b, M, reg, name, numItermax=200)
        close(pi, pi2, 1e-12, f"{name}: plan depends on log")
        al, be = log["alpha"], log["beta"]
        close(al, so.c_transform_entropic(b, M, reg, be), 1e-12, "alpha is not the c-transform of beta")
        close(pi, np.exp((al[:, None] + be[None] - M) / reg) * a[:, None] * b[None], 1e-12, "plan from potentials")
        close(pi.sum(1), a, 1e-9, "first marginal of the semi-dual plan")
    rec.nontrivial(n >= 2 and m >= 2 and n * m >= 6)


@facet(case(), 600, 20000)
def dual(c, rec):
    a, b, M, reg, r = unpack(c)
    n, m = M.shape
    M = M / (1 + np.abs(M).max())
    al, be = r.randn(n) * 0.5, r.randn(m) * 0.5
    G = np.exp((al[:, None] + be[None] - M) / reg) * a[:, None] * b[None]
    ga, gb = a - G.sum(1), b - G.sum(0)
    s = 1 + G.sum()
    x, y = so.batch_grad_dual(a, b, M, reg, al, be, max(n, m), np.arange(n), np.arange(m))
    close(x, ga, 1e-10 * s, "full-batch dual gradient, first block")
    close(y, gb, 1e-10 * s, "full-batch dual gradient, second block")
    p, q = min(c["p"], n), min(c["q"], m)
    X, Y, N = 0, 0, 0
    for A in itertools.combinations(range(n), p):
        for B in itertools.combinations(range(m), q):
            A2, B2 = np.array(A), np.array(B)[::-1]
            x, y = so.batch_grad_dual(a, b, M, reg, al, be, p, A2, B2)
            ensure(np.all(np.delete(x, A2) == 0) and np.all(np.delete(y, B2) == 0), "gradient outside of the batch")
            X, Y, N = X + x, Y + y, N + 1
    close(X / N, ga * p * q / (n * m), 1e-10 * s, "mini-batch dual gradient is biased, first block")
    close(Y / N, gb * p * q / (n * m), 1e-10 * s, "mini-batch dual gradient is biased, second block")
    rec.label("full" if (p, q) == (n, m) else "mini")
    rec.nontrivial(n >= 2 and m >= 2 and n * m >= 6)
    seed = c["k"] % 1000
    bs, lr = min(p, q), 0.3
    u, v = so.sgd_entropic_regularization(a, b, M, reg, bs, c["it"], lr, random_state=seed)
    u2, v2 = so.sgd_entropic_regularization(a, b, M, reg, bs, c["it"], lr, random_state=np.random.RandomState(seed))
    close(np.concatenate([u, v]), np.concatenate([u2, v2]), 1e-12, "SGD depends on more than the seed")
    if n == m:  # full batches: plain gradient ascent
        u, v = so.sgd_entropic_regularization(a, b, M, reg, n, c["it"], lr, random_state=seed)
        x, y = np.zeros(n), np.zeros(m)
        for k in range(c["it"]):
            G = np.exp((x[:, None] + y[None] - M) / reg) * a[:, None] * b[None]
            x, y = x + lr / np.sqrt(k + 1) * (a - G.sum(1)), y + lr / np.sqrt(k + 1) * (b - G.sum(0))
        close(np.concatenate([u, v]), np.concatenate([x, y]), 1e-9 * (1 + np.abs(x).max() + np.abs(y).max()), "full-batch SGD is not gradient ascent on the dual")
        rec.label("gradient ascent")
    np.random.seed(seed)
    pi, log = so.solve_dual_entropic(a, b, M, reg, bs, c["it"], lr, log=True)
    np.random.seed(seed)
    close(so.solve_dual_entropic(a, b, M, reg, bs, c["it"], lr), pi, 1e-12, "plan depends on log")
    close(pi, np.exp((log["alpha"][:, None] + log["beta"][None] - M) / reg) * a[:, None] * b[None], 1e-10 * (1 + pi.max()), "plan from dual potentials")
    np.random.seed(seed)
    U, V = so.sgd_entropic_regularization(a, b, M, reg, bs, c["it"], lr)
    close(np.concatenate([U, V]), np.concatenate([log["alpha"], log["beta"]]), 1e-12, "potentials of solve_dual_entropic")


@st.composite
def los(draw):
    n, m, d = draw(st.integers(1, 5)), draw(st.integers(1, 5)), draw(st.integers(1, 3))
    return dict(n=n, m=m, X=draw(g.x_spec(n, d)), Y=draw(g.x_spec(m, d)), k=draw(g.seeds), reg=draw(g.around([1, 0.5, 5.0], 0.3, 5)), a=draw(st.one_of(st.none(), g.w_spec(n))), b=draw(st.one_of(st.none(), g.w_spec(m))),
                metric=draw(st.sampled_from([None, "sqeuclidean", "euclidean", "cityblock", "call"])))


@facet(los(), 600, 20000)
def losses(c, rec):
    X, Y = g.mk_x(c["X"]), g.mk_x(c["Y"])
    r = g.rng(c["k"], 142)
    n, m, reg = c["n"], c["m"], c["reg"]
    ws = None if c["a"] is None else g.mk_w(c["a"])
    wt = None if c["b"] is None else g.mk_w(c["b"])
    a = np.ones(n) / n if ws is None else ws
    b = np.ones(m) / m if wt is None else wt
    mt = c["metric"]
    fn = (lambda x, y: np.abs(x @ y.T)) if mt == "call" else mt
    M = np.abs(X @ Y.T) if mt == "call" else ref.cost_matrix(X, Y, mt or "sqeuclidean")
    u, v = r.randn(n), r.randn(m) + (M.mean() if c["k"] % 2 else 0)
    kw = dict(reg=reg, ws=ws, wt=wt)
    if fn is not None:
        kw["metric"] = fn
    ab = a[:, None] * b[None]
    Z = u[:, None] + v[None] - M
    E = ab * np.exp(Z / reg)
    Q = ab * np.maximum(Z, 0) / (2 * reg)
    s = 1 + np.abs(u).sum() + np.abs(v).sum() + reg * E.sum() + Q.sum()
    close(num(so.loss_dual_entropic(u, v, X, Y, **kw)), u @ a + v @ b - reg * E.sum(), 1e-8 * s, "entropic dual loss")
    close(so.plan_dual_entropic(u, v, X, Y, **kw), E, 1e-8 * s, "entropic plan")
    close(num(so.loss_dual_quadratic(u, v, X, Y, **kw)), u @ a + v @ b - (ab * np.maximum(Z, 0) ** 2).sum() / (4 * reg), 1e-8 * s, "quadratic dual loss")
    close(so.plan_dual_quadratic(u, v, X, Y, **kw), Q, 1e-8 * s, "quadratic plan")
    rec.label(str(mt), "weights" if ws is not None else "uniform")
    rec.nontrivial(n >= 2 and m >= 3)


# ---------------------------------------------------------------------- regularisation path
@st.composite
def path(draw):
    n, m = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    return dict(n=n, m=m, k=draw(g.seeds), semi=draw(st.booleans()), w=draw(st.sampled_from(["unif", "rand", "mass"])), cost=draw(st.sampled_from(["rand", "sq", "skew"])), reg=draw(st.sampled_from([1e-4, 1e-2, 0.3, 1e-6])),
                t=draw(st.lists(st.floats(0, 1), min_size=3, max_size=3)))


def kkt(T, a, b, C, gam, semi):
    """duality-gap style measure of stationarity of gamma <C,T> + 1/2 |T1-a|^2 (+ 1/2 |T'1-b|^2 or T'1 = b), T >= 0"""
    G = gam * C + (T.sum(1) - a)[:, None]
    if semi:
        return (T * (G - G.min(0)[None])).sum() , np.abs(T.sum(0) - b).max()
    G = G + (T.sum(0) - b)[None]
    return max(np.abs((T * G).sum()), -min(0, G.min())), 0.0


@facet(path(), 500, 15000)
def regularisation_path(c, rec):
    n, m = c["n"], c["m"]
    r = g.rng(c["k"], 143)
    a, b = (np.ones(n) / n, np.ones(m) / m) if c["w"] == "unif" else (r.rand(n) + 0.1, r.rand(m) + 0.1)
    if c["w"] == "rand":
        a, b = a / a.sum(), b / b.sum()
    C = r.rand(n, m) + 1e-3 if c["cost"] == "rand" else ((r.randn(n, 2)[:, None] - r.randn(m, 2)[None]) ** 2).sum(-1) + 1e-6 if c["cost"] == "sq" else np.exp(2 * r.randn(n, m))
    with contextlib.redirect_stdout(io.StringIO()):
        t, tl, gl = rp.regularization_path(a, b, C, reg=c["reg"], semi_relaxed=c["semi"])
    what = "semi-relaxed path" if c["semi"] else "path"
    gl = np.array([float(x) for x in gl])
    ensure(len(tl) == len(gl), f"{what}: {len(tl)} plans for {len(gl)} parameters")
    s = a.sum() + b.sum() + gl[np.isfinite(gl)].max() * C.max()
    rec.label("semi" if c["semi"] else "full", c["w"], c["cost"], "breakpoints>5" if len(gl) > 5 else "few")
    rec.nontrivial(n >= 2 and m >= 2 and len(gl) >= 3)
    ensure(np.isfinite(gl).all() and (np.diff(gl) <= 1e-12 * gl[0]).all(), f"{what}: parameters are not decreasing {gl}")
    close(gl[-1], c["reg"], 1e-15, f"{what}: the last parameter is not the requested one")
    close(t, tl[-1], 0, f"{what}: the returned plan is not that of the last parameter")

    def test(x, gam, where):
        T = arr(x).reshape(n, m)
        k, mg = kkt(T, a, b, C, gam, c["semi"])
        leq(-T, 0, 1e-7, f"{what}: negative entry at {where}")
        leq(mg, 0, 1e-7, f"{what}: hard marginal at {where}")
        leq(k, 0, 1e-7 * max(1, s), f"{what}: not optimal at {where}")
    for x, gam in zip(tl, gl):
        test(x, gam, "a breakpoint")
    for u in c["t"]:
        gam = gl[-1] * (gl[0] / gl[-1]) ** u if gl[0] > gl[-1] else gl[0]
        gam = float(np.clip(gam, gl[-1], gl[0]))
        test(rp.compute_transport_plan(gam, gl, tl), gam, "an intermediate parameter")
        test(rp.compute_transport_plan(gl[0] * (1 + u), gl, tl), gl[0] * (1 + u), "a parameter above the path")
    close(rp.compute_transport_plan(c["reg"] / 2, gl, tl), tl[-1], 0, "plan below the path")


# ---------------------------------------------------------------------- multi-marginal
@st.composite
def mm(draw):
    n, d = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    return dict(n=n, d=d, w=[draw(g.w_spec(n)) for _ in range(d)], k=draw(g.seeds), it=draw(st.integers(0, 6)), lr=draw(st.sampled_from([1e-5, 0.1, 1.0])), decay=draw(st.sampled_from([0.995, 0.5])))


def mono(W):
    """integral over the quantile level of (largest quantile index - smallest)"""
    F = np.cumsum(W, 0)
    lev = np.unique(np.concatenate([[0.0], F.ravel()]))
    tot = 0.0
    for lo, hi in zip(lev[:-1], lev[1:]):
        mid = (lo + hi) / 2
        q = [min(int(np.searchsorted(F[:, k], mid)), W.shape[0] - 1) for k in range(W.shape[1])]
        tot += (hi - lo) * (max(q) - min(q))
    return tot


@facet(mm(), 700, 25000)
def multi_marginal(c, rec):
    A = np.stack([g.mk_w(w) for w in c["w"]], 1)
    n, d = A.shape
    v, log = ot.lp.dmmot_monge_1dgrid_loss(A.copy(), log=True)
    v = num(v)
    close(num(ot.lp.dmmot_monge_1dgrid_loss(A.copy())), v, 1e-12, "value depends on log")
    close(v, mono(A), 1e-9, "value is not the cost of the monotone coupling")
    P = np.zeros((n,) * d)
    for idx, mass in log["A"].items():
        ensure(mass >= -1e-12, "negative mass in the coupling")
        P[idx] += mass
    for k in range(d):
        close(P.sum(tuple(j for j in range(d) if j != k)), A[:, k], 1e-9, f"marginal {k} of the coupling")
    I = np.indices(P.shape)
    cost = I.max(0) - I.min(0)
    close((P * cost).sum(), v, 1e-9, "cost of the coupling")
    close(num(log["primal objective"]), v, 1e-12, "recorded primal objective")
    D = sum(np.asarray(log["dual"][k])[I[k]] for k in range(d))
    leq((D - cost).max(), 0, 1e-9, "dual potentials are infeasible")
    close(sum(np.asarray(log["dual"][k]) @ A[:, k] for k in range(d)), v, 1e-9, "dual potentials are not optimal")
    close(num(log["dual objective"]), v, 1e-9, "recorded dual objective")
    rec.label("d=%d" % d, "zeros" if A.min() == 0 else "positive")
    rec.nontrivial(d >= 2 and n >= 3)
    if d == 2 and n > 1:
        close(v, num(ot.wasserstein_1d(np.arange(n).astype(float), np.arange(n).astype(float), A[:, 0], A[:, 1], p=1)), 1e-9, "two marginals: not the 1-D Wasserstein distance")
    # optimisation: projected gradient iterations with the documented step sizes
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        out = ot.lp.dmmot_monge_1dgrid_optimize(A.copy(), niters=c["it"], lr_init=c["lr"], lr_decay=c["decay"])
    X, lr = A.copy(), c["lr"]

    def renorm(X):
        X = X - np.minimum(X.min(0), 0)[None]
        return X / X.sum(0)[None]
    for _ in range(c["it"]):
        with np.errstate(all="ignore"):
            X = renorm(X)
        if not np.isfinite(X).all():
            rec.stop("the step removes all the mass")
        X = X - lr * np.column_stack(ot.lp.dmmot_monge_1dgrid_loss(X.copy(), log=True)[1]["dual"])
        lr *= c["decay"]
    with np.errstate(all="ignore"):
        X = renorm(X)
    if not np.isfinite(X).all():
        rec.stop("the step removes all the mass")
    close(np.stack(out, 1), X, 1e-7, "iterates of the multi-marginal barycenter")
    ensure(np.stack(out, 1).min() >= 0, "negative weight in the result")
