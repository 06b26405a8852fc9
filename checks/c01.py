"""C01: exact OT returns a feasible coupling of minimal cost."""
import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from core import arr, close, coupling, ensure, facet, num

META = {
    "rule": "case = (histogram specs, cost spec, option set); non-trivial when both sides have >=2 active atoms and the cost is not constant",
    "assumptions": ["histograms have equal mass up to 1e-12 relative", "costs finite, |M| <= 1e6", "oracle: HiGHS LP with 1e-10 feasibility tolerances"],
}


@st.composite
def case(draw, big=None):
    n = draw(g.sizes(1, 9, 40, 0.15) if big is None else st.integers(*big))
    m = draw(g.sizes(1, 9, 40, 0.15) if big is None else st.integers(*big))
    return dict(a=draw(g.w_spec(n)), b=draw(g.w_spec(m)), M=draw(g.m_spec(n, m)), mass=draw(st.sampled_from([1.0, 1.0, 3.5, 0.02, 1000.0])),
                layout=draw(st.sampled_from(["C", "F", "list", "neg", "f32", "int"])), thr=draw(st.sampled_from([1, 1, 2, "max"])),
                warm=draw(st.sampled_from([None, None, "zero", "rand", "opt", "wild"])), center=draw(st.booleans()), ws=draw(g.seeds))


def problem(c):
    a, b, M = g.mk_w(c["a"], c["mass"]), g.mk_w(c["b"], c["mass"]), g.mk_m(c["M"])
    return a, b, M


def laid(c, M):
    k = c["layout"]
    if k == "F":
        return np.asfortranarray(M)
    if k == "neg":
        return np.ascontiguousarray(M[::-1, ::-1])[::-1, ::-1]
    if k == "list":
        return M.tolist()
    if k == "f32":
        return M.astype(np.float32)
    if k == "int":
        return np.round(M).astype(np.int64) if c["M"][0] in ("int", "list", "const") else M
    return M


def warm(c, a, b, M):
    k = c["warm"]
    if k is None:
        return None
    r = g.rng(c["ws"], 9)
    if k == "zero":
        return np.zeros(len(a)), np.zeros(len(b))
    if k == "rand":
        return r.randn(len(a)), r.randn(len(b))
    if k == "wild":
        return 1e4 * r.randn(len(a)), 1e4 * r.randn(len(b))
    _, lg = ot.emd(a, b, M, log=True)
    return lg["u"] + 0.0, lg["v"] + 0.0


def mark(c, rec, a, b, M):
    rec.label("layout:%s" % c["layout"], "warm:%s" % c["warm"], "thr:%s" % c["thr"], "M:" + c["M"][0])
    if (a == 0).any() or (b == 0).any():
        rec.label("zero-weights")
    rec.nontrivial((a > 0).sum() > 1 and (b > 0).sum() > 1 and np.ptp(M) > 0)


def check(c, rec, exact=True):
    a, b, M = problem(c)
    mark(c, rec, a, b, M)
    M2 = laid(c, M)
    Mx = np.asarray(M2, dtype=float)
    s = max(1e-12, np.abs(Mx).max()) * c["mass"]
    aa, bb = (a.tolist(), b.tolist()) if c["layout"] == "list" else (a, b)
    ws = warm(c, a, b, Mx)
    G, lg = ot.emd(aa, bb, M2, log=True, numThreads=c["thr"], potentials_init=ws, center_dual=c["center"])
    G = coupling(G, a, b, 1e-9 * c["mass"], "emd plan")
    ensure(lg["result_code"] == 1 and lg["warning"] is None, "emd did not report optimality: %s", lg["warning"])
    cost = num(lg["cost"])
    close(cost, (G * Mx).sum(), 1e-9 * s, "reported cost is not the cost of the plan")
    ensure(np.count_nonzero(G) <= (a > 0).sum() + (b > 0).sum() - 1, "plan is not a basic (vertex) solution: %d non-zeros", np.count_nonzero(G))
    v2 = num(ot.emd2(aa, bb, M2, numThreads=c["thr"], potentials_init=ws, center_dual=c["center"]))
    close(v2, cost, 1e-9 * s, "emd2 differs from the cost of emd's plan")
    r = ref.lp_ot(a, b, Mx)
    ensure(r is not None, "reference LP failed")
    close(cost, r[0], 2e-9 * s, "cost is not minimal (LP reference)")
    return a, b, Mx, cost, s


@facet(case(), 900, 60000)
def optimal(c, rec):
    """emd/emd2: feasible, basic, cost = <G,M> = emd2 = HiGHS optimum, under every layout/thread/warm-start/centring option."""
    check(c, rec)


@facet(case(big=(50, 160)), 24, 2500, weight=30)
def optimal_large(c, rec):
    """Same at sizes where block pivot search and several threads matter."""
    check(c, rec)


@st.composite
def multi(draw):
    n, m, k = draw(st.integers(1, 8)), draw(st.integers(1, 8)), draw(st.integers(1, 5))
    return dict(a=draw(g.w_spec(n)), bs=[draw(g.w_spec(m)) for _ in range(k)], M=draw(g.m_spec(n, m)),
                log=draw(st.booleans()), ret=draw(st.booleans()), procs=draw(st.sampled_from([1, 2])))


@facet(multi(), 300, 20000)
def many_targets(c, rec):
    """emd2 with a matrix of targets = the list of independent values (and logs/plans) of each column."""
    a, M = g.mk_w(c["a"]), g.mk_m(c["M"])
    B = np.stack([g.mk_w(x) for x in c["bs"]], 1)
    rec.nontrivial(B.shape[1] > 1 and len(a) > 1)
    out = ot.emd2(a, B, M, log=c["log"], return_matrix=c["ret"], processes=c["procs"])
    ensure(len(out) == B.shape[1], "%d values for %d targets", len(out), B.shape[1])
    s = max(1e-12, np.abs(M).max())
    for k in range(B.shape[1]):
        o = out[k]
        if c["log"] or c["ret"]:
            o, lg = o
            if c["ret"]:
                G = coupling(lg["G"], a, B[:, k], 1e-9, "log['G']")
                close((G * M).sum(), num(o), 1e-9 * s, "log['G'] does not have the reported cost")
        close(num(o), num(ot.emd2(a, B[:, k].copy(), M)), 1e-9 * s, f"column {k} differs from its own value")
        close(num(o), ref.lp_ot(a, B[:, k], M)[0], 2e-9 * s, f"column {k} is not optimal")


@st.composite
def uni(draw):
    n, m = draw(g.sizes(1, 8, 30)), draw(g.sizes(1, 8, 30))
    return dict(M=draw(g.m_spec(n, m)), ea=draw(st.sampled_from(["none", "list", "arr", "full"])), eb=draw(st.sampled_from(["none", "list", "arr", "full"])))


@facet(uni(), 150, 8000)
def default_weights(c, rec):
    """Empty weights mean uniform weights; swapping the sides transposes the problem; permuting atoms permutes it."""
    M = g.mk_m(c["M"])
    n, m = M.shape
    rec.nontrivial(n > 1 and m > 1)
    e = {"none": lambda k: [], "list": lambda k: [], "arr": lambda k: np.array([]), "full": lambda k: np.ones(k) / k}
    G = coupling(ot.emd(e[c["ea"]](n), e[c["eb"]](m), M), np.ones(n) / n, np.ones(m) / m, 1e-9)
    v = (G * M).sum()
    s = max(1e-12, np.abs(M).max())
    close(v, num(ot.emd2([], [], M.T.copy())), 1e-9 * s, "transposed problem has another value")
    p, q = g.rng(n, m, 1).permutation(n), g.rng(n, m, 2).permutation(m)
    close(v, num(ot.emd2([], [], M[p][:, q])), 1e-9 * s, "permuted problem has another value")
    close(v, ref.lp_ot(np.ones(n) / n, np.ones(m) / m, M)[0], 2e-9 * s, "not optimal")


@facet(g.record(n=st.integers(2, 7), k=g.seeds, kind=st.sampled_from(["int", "ties", "gauss"])), 150, 6000)
def assignment(c, rec):
    """Uniform square problems: the optimum is attained at a permutation (Birkhoff), checked by the Hungarian algorithm."""
    from scipy.optimize import linear_sum_assignment
    r = g.rng(c["k"])
    n = c["n"]
    M = {"int": r.randint(-3, 9, (n, n)).astype(float), "ties": r.randint(0, 2, (n, n)).astype(float), "gauss": r.randn(n, n)}[c["kind"]]
    G = coupling(ot.emd([], [], M), np.ones(n) / n, np.ones(n) / n, 1e-12)
    i, j = linear_sum_assignment(M)
    close((G * M).sum() * n, M[i, j].sum(), 1e-9 * n, "differs from the optimal assignment")
    ensure(np.allclose(np.sort(G, 1)[:, :-1], 0, atol=1e-12), "uniform square plan is not a permutation")
