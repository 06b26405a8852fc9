"""C03: sparse and lazy exact OT solve the same problem as dense OT."""
import numpy as np
import ot
import scipy.sparse as sp
from hypothesis import strategies as st

import gen as g
import ref
from core import arr, close, coupling, ensure, facet, num

META = {
    "rule": "sparse: non-trivial when the pattern is a strict subset of all pairs; lazy: non-trivial when both sides have >=2 active atoms",
    "assumptions": ["sparse patterns admit a coupling by construction (they contain the support of a feasible plan)", "no explicit duplicate entries"],
}


@st.composite
def scase(draw, lo=1, hi=9, big=30):
    n, m = draw(g.sizes(lo, hi, big, 0.15)), draw(g.sizes(lo, hi, big, 0.15))
    return dict(a=draw(g.w_spec(n)), b=draw(g.w_spec(m)), M=draw(g.m_spec(n, m)), k=draw(g.seeds), dens=draw(st.sampled_from([0.0, 0.1, 0.3, 0.6, 1.0])),
                fmt=draw(st.sampled_from(["coo", "coo_shuf", "csr", "csc"])), center=draw(st.booleans()), warm=draw(st.booleans()))


def pattern(c, a, b, M):
    """Random pattern containing the support of some feasible plan (north-west corner in a random order)."""
    n, m = M.shape
    r = g.rng(c["k"], 1)
    _, F = ref.w1d(r.rand(n), r.rand(m), a, b, 1)
    mask = (F > 0) | (r.rand(n, m) < c["dens"])
    for i in range(n):
        if not mask[i].any():
            mask[i, r.randint(m)] = True
    return mask


def tosp(c, M, mask):
    i, j = np.nonzero(mask)
    if c["fmt"] == "coo_shuf":
        p = g.rng(c["k"], 2).permutation(len(i))
        i, j = i[p], j[p]
    S = sp.coo_matrix((M[i, j], (i, j)), shape=M.shape)
    return S if c["fmt"].startswith("coo") else S.asformat(c["fmt"])


@facet(scase(), 700, 40000)
def sparse_optimal(c, rec):
    """Sparse emd/emd2: supported on the pattern, coupling, reported cost = its cost = emd2 = masked LP optimum."""
    a, b, M = g.mk_w(c["a"]), g.mk_w(c["b"]), g.mk_m(c["M"])
    mask = pattern(c, a, b, M)
    S = tosp(c, M, mask)
    rec.label("fmt:" + c["fmt"], "full" if mask.all() else "strict", "neg" if M.min() < 0 else "nonneg")
    rec.nontrivial(not mask.all())
    ws = (g.rng(c["k"], 5).randn(len(a)), g.rng(c["k"], 6).randn(len(b))) if c["warm"] else None
    G, lg = ot.emd(a, b, S, log=True, center_dual=c["center"], potentials_init=ws)
    ensure(sp.issparse(G), "plan of a sparse problem is not sparse: %s", type(G).__name__)
    G = coupling(G, a, b, 1e-9, "sparse plan")
    ensure(np.all(mask[G > 0]), "plan uses a pair that is not admissible")
    ensure(lg["warning"] is None and lg["result_code"] == 1, "not reported optimal: %s", lg["warning"])
    s = max(1e-12, np.abs(M).max())
    cost = num(lg["cost"])
    close((G * M).sum(), cost, 1e-9 * s, "reported cost is not the cost of the plan")
    close(num(ot.emd2(a, b, S, center_dual=c["center"])), cost, 1e-9 * s, "emd2 differs")
    r = ref.lp_ot(a, b, M, mask)
    ensure(r is not None, "reference LP infeasible")
    close(cost, r[0], 2e-9 * s, "not minimal among couplings supported on the pattern")
    if mask.all():
        close(cost, num(ot.emd2(a, b, M)), 1e-9 * s, "full pattern differs from the dense optimum")
    u, v = arr(lg["u"], a.shape), arr(lg["v"], b.shape)
    act = mask & (a > 0)[:, None] & (b > 0)[None]
    slack = M - u[:, None] - v[None]
    ensure(slack[act].min() >= -1e-8 * max(1, s), "sparse duals violate the cost on an admissible pair by %g", -slack[act].min())
    close(u @ a + v @ b, cost, 1e-8 * max(1, s), "sparse duals do not attain the value")


@facet(scase(), 150, 8000)
def sparse_extra_outputs(c, rec):
    """emd2(log/return_matrix) on sparse input agrees with emd."""
    a, b, M = g.mk_w(c["a"]), g.mk_w(c["b"]), g.mk_m(c["M"])
    mask = pattern(c, a, b, M)
    S = tosp(c, M, mask)
    rec.nontrivial(not mask.all())
    v, lg = ot.emd2(a, b, S, log=True, return_matrix=True)
    G = coupling(lg["G"], a, b, 1e-9, "log['G']")
    ensure(np.all(mask[G > 0]), "log['G'] leaves the pattern")
    s = max(1e-12, np.abs(M).max())
    close((G * M).sum(), num(v), 1e-9 * s, "log['G'] does not have the reported cost")
    d = num(ot.utils.sparse_ot_dist(lg["G"], S)) if hasattr(ot.utils, "sparse_ot_dist") and False else num(v)
    close(d, num(v), 1e-9 * s)


@st.composite
def lcase(draw):
    n, m, d = draw(g.sizes(1, 9, 40, 0.15)), draw(g.sizes(1, 9, 40, 0.15)), draw(st.integers(1, 4))
    return dict(a=draw(st.one_of(st.none(), g.w_spec(n))), b=draw(st.one_of(st.none(), g.w_spec(m))), X=draw(g.x_spec(n, d, ("gauss", "grid", "dup", "far"))), Y=draw(g.x_spec(m, d, ("gauss", "grid", "shift"))),
                metric=draw(st.sampled_from(["sqeuclidean", "euclidean", "cityblock"])), center=draw(st.booleans()), warm=draw(st.booleans()), mass=draw(st.sampled_from([1.0, 2.5])),
                order=draw(st.sampled_from("CF")))


@facet(lcase(), 500, 30000)
def lazy_optimal(c, rec):
    """emd2_lazy: value = LP optimum of the explicit cost; sparse log plan feasible with that cost; duals certify it."""
    X, Y = g.mk_x(c["X"]), g.mk_x(c["Y"])
    n, m = len(X), len(Y)
    a = None if c["a"] is None else g.mk_w(c["a"], c["mass"])
    b = None if c["b"] is None else g.mk_w(c["b"], c["mass"])
    if (a is None) != (b is None):
        a, b = (None if a is None else a / a.sum()), (None if b is None else b / b.sum())
    A = np.ones(n) / n if a is None else a
    B = np.ones(m) / m if b is None else b
    M = ref.cost_matrix(X, Y, c["metric"])
    rec.label("metric:" + c["metric"])
    rec.nontrivial((A > 0).sum() > 1 and (B > 0).sum() > 1)
    s = max(1e-12, np.abs(M).max()) * A.sum()
    Xi, Yi = (np.asfortranarray(X), np.asfortranarray(Y)) if c["order"] == "F" else (X, Y)
    ws = (g.rng(n, m, 5).randn(n), g.rng(n, m, 6).randn(m)) if c["warm"] else None
    v, lg = ot.lp.emd2_lazy(Xi, Yi, a, b, metric=c["metric"], log=True, center_dual=c["center"], potentials_init=ws)
    v = num(v)
    G = coupling(lg["G"], A, B, 1e-9 * A.sum(), "lazy plan")
    close((G * M).sum(), v, 2e-9 * s, "lazy value is not the cost of its plan")
    close(v, ref.lp_ot(A, B, M)[0], 4e-9 * s, "lazy value is not the optimum of the explicit cost matrix")
    close(num(ot.lp.emd2_lazy(Xi, Yi, a, b, metric=c["metric"], return_matrix=False)), v, 1e-9 * s, "value-only call differs")
    u, w = arr(lg["u"], (n,)), arr(lg["v"], (m,))
    act = (A > 0)[:, None] & (B > 0)[None]
    ensure((M - u[:, None] - w[None])[act].min() >= -1e-8 * max(1, M.max()), "lazy duals infeasible")
    close(u @ A + w @ B, v, 1e-8 * max(1, s), "lazy duals do not attain the value")


@facet(lcase(), 120, 6000)
def solve_sample_lazy(c, rec):
    """ot.solve_sample(lazy=True) without regularisation equals the dense unregularised solve (zero weights included)."""
    X, Y = g.mk_x(c["X"]), g.mk_x(c["Y"])
    a = None if c["a"] is None else g.mk_w(c["a"])
    b = None if c["b"] is None else g.mk_w(c["b"])
    A = np.ones(len(X)) / len(X) if a is None else a
    B = np.ones(len(Y)) / len(Y) if b is None else b
    M = ref.cost_matrix(X, Y, c["metric"])
    rec.nontrivial((A > 0).sum() > 1 and (B > 0).sum() > 1)
    s = max(1e-12, M.max())
    r = ot.solve_sample(X, Y, a, b, metric=c["metric"], lazy=True)
    close(num(r.value), ref.lp_ot(A, B, M)[0], 4e-9 * s, "solve_sample(lazy=True).value")
