"""C02: exact OT dual potentials certify optimality."""
import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from checks import c01
from core import FACETS, arr, close, ensure, facet, num

FACETS.clear()
META = {
    "rule": "non-trivial when both sides have >=2 atoms and the cost is not constant; label 'zero-weights' counts cases with removed atoms",
    "assumptions": ["same domain as C01"],
}


def certificate(u, v, a, b, M, G, s, what):
    u, v = arr(u, a.shape, what=what + " u"), arr(v, b.shape, what=what + " v")
    t = 1e-9 * max(1, np.abs(M).max(), np.abs(u).max(), np.abs(v).max())
    slack = M - u[:, None] - v[None]
    act = (a > 0)[:, None] & (b > 0)[None]
    ensure(slack[act].min() >= -10 * t, "%s: u_i+v_j exceeds the cost by %g on a pair with mass", what, -slack[act].min())
    ensure(slack.min() >= -10 * t, "%s: u_i+v_j exceeds the cost by %g on a pair with a zero-weight atom", what, -slack.min())
    close(u @ a + v @ b, (G * M).sum(), 20 * t * a.sum(), what + ": dual value differs from the primal value")
    ensure(np.all(np.abs(slack[G > 0]) <= 20 * t), "%s: not tight on the support of the plan (%g)", what, np.abs(slack[G > 0]).max())


def run(c, rec):
    a, b, M = c01.problem(c)
    c01.mark(c, rec, a, b, M)
    ws = c01.warm(c, a, b, M)
    G, lg = ot.emd(a, b, M, log=True, numThreads=c["thr"], potentials_init=ws, center_dual=c["center"])
    s = max(1e-12, np.abs(M).max())
    certificate(lg["u"], lg["v"], a, b, M, G, s, "emd")
    v2, lg2 = ot.emd2(a, b, M, log=True, return_matrix=True, numThreads=c["thr"], potentials_init=ws, center_dual=c["center"])
    certificate(lg2["u"], lg2["v"], a, b, M, np.asarray(lg2["G"]), s, "emd2")


@facet(c01.case(), 1500, 80000)
def certificates(c, rec):
    """u+v <= M on every pair (removed zero-weight atoms included), <u,a>+<v,b> = cost, tight on the plan's support."""
    run(c, rec)


@facet(c01.case(big=(40, 120)), 40, 2500, weight=15)
def certificates_large(c, rec):
    """Same for larger problems."""
    run(c, rec)


@facet(c01.case(), 300, 15000)
def certificates_solve(c, rec):
    """OTResult.potentials of the unified solver certify its value."""
    a, b, M = c01.problem(c)
    rec.nontrivial(len(a) > 1 and len(b) > 1 and np.ptp(M) > 0)
    a, b = a / a.sum(), b / b.sum()
    ws = c01.warm(c, a, b, M)
    r = ot.solve(M, a, b, potentials_init=ws)
    u, v = r.potentials
    certificate(u, v, a, b, M, np.asarray(r.plan), 1, "solve")
    close(u, r.potential_a, 0)
    close(v, r.potential_b, 0)


@facet(c01.case(), 400, 20000)
def centring(c, rec):
    """center_ot_dual keeps u_i+v_j and equalises the weighted means; estimate_dual_null_weights keeps active duals' validity."""
    from ot.lp._network_simplex import center_ot_dual, estimate_dual_null_weights
    a, b, M = c01.problem(c)
    r = g.rng(c["ws"], 3)
    u, v = 5 * r.randn(len(a)), 5 * r.randn(len(b))
    rec.nontrivial(len(a) + len(b) > 2)
    A, B = center_ot_dual(u.copy(), v.copy(), a, b)
    close(A[:, None] + B[None], u[:, None] + v[None], 1e-9, "centring changes the sums")
    close(A @ a, B @ b, 1e-9 * c["mass"] * 20, "centred potentials do not have the same weighted mean")
    u0, v0 = np.zeros(len(a)), np.zeros(len(b))
    asel, bsel = a > 0, b > 0
    _, lg = ot.emd(a[asel], b[bsel], M[np.ix_(asel, bsel)], log=True)
    u0[asel], v0[bsel] = lg["u"], lg["v"]
    A, B = estimate_dual_null_weights(u0, v0, a, b, M)
    t = 1e-8 * max(1, np.abs(M).max())
    ensure((M - A[:, None] - B[None]).min() >= -t, "estimate_dual_null_weights leaves a violated pair (%g)", -(M - A[:, None] - B[None]).min())
    close(A @ a + B @ b, u0 @ a + v0 @ b, t * c["mass"], "estimate_dual_null_weights changes the dual value")
