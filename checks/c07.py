"""C07: every Sinkhorn variant converges to the unique entropic OT plan."""
import warnings

import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from core import arr, close, coupling, ensure, facet, num

META = {
    "rule": "non-trivial when the solver reported convergence, both sides have >=2 atoms and the plan is not the product of its marginals",
    "assumptions": ["positive histograms (smallest weight >= 1e-5 of the total)", "convergence = no warning emitted", "convergence itself demanded only where the Hilbert contraction guarantees it (cost range <= 4 reg)",
                    "source marginal / Gibbs form to 1e-7, target marginal to a few times the stopping threshold"],
}
METHODS = ["sinkhorn", "sinkhorn_log", "greenkhorn", "sinkhorn_stabilized", "sinkhorn_epsilon_scaling"]
ITERS = {"sinkhorn": 3000, "sinkhorn_log": 3000, "greenkhorn": 30000, "sinkhorn_stabilized": 3000, "sinkhorn_epsilon_scaling": 100}


@st.composite
def case(draw, methods=METHODS):
    n, m = draw(g.sizes(1, 8, 25, 0.1)), draw(g.sizes(1, 8, 25, 0.1))
    return dict(a=draw(g.w_spec(n, zeros=False)), b=draw(g.w_spec(m, zeros=False)), M=draw(g.m_spec(n, m)), rel=draw(st.sampled_from([0.01, 0.05, 0.2, 0.5, 1.0, 3.0, 30.0])),
                method=draw(st.sampled_from(methods)), warm=draw(st.sampled_from([None, None, "rand", "zero"])), ws=draw(g.seeds), stop=draw(st.sampled_from([1e-9, 1e-9, 1e-6])),
                mass=draw(st.sampled_from([1.0, 1.0, 1.0, 2.5])), tau=draw(st.sampled_from([1e3, 1e3, 2.0, 1e6])), empty=draw(st.sampled_from([0, 0, 0, 1, 2, 3])), as_list=draw(st.booleans()))


def scale_of(M):
    return max(np.ptp(M), 0.1 * np.abs(M).max(), 1e-9)


def unpack(c):
    a, b, M = g.mk_w(c["a"], c["mass"]), g.mk_w(c["b"], c["mass"]), g.mk_m(c["M"])
    return a, b, M, c["rel"] * scale_of(M)


def gibbs(P, lu, lv, M, reg, tol, what):
    n, m = M.shape
    lu, lv = arr(lu, what="log u").reshape(n, 1), arr(lv, what="log v").reshape(1, m)
    E = lu + lv - M / reg
    close(P, np.exp(E), 1e-13, f"{what}: plan is not diag(u) K diag(v) with the returned scalings", rtol=tol * (1 + np.abs(M).max() / reg + np.abs(lu).max() + np.abs(lv).max()))
    if P.min() > 1e-250:
        L = np.log(P) + M / reg
        close(L - L[:, :1] - L[:1] + L[0, 0], 0, 10 * tol * (1 + np.abs(M).max() / reg), f"{what}: log plan + M/reg is not a sum of potentials")


def logs(method, lg, reg, M):
    with np.errstate(divide="ignore"):
        if method in ("sinkhorn", "greenkhorn"):
            return np.log(lg["u"]), np.log(lg["v"])
        if method == "sinkhorn_log":
            close(np.exp(lg["log_u"]), lg["u"], 0, "u is not exp(log_u)", rtol=1e-9)
            close(np.exp(lg["log_v"]), lg["v"], 0, "v is not exp(log_v)", rtol=1e-9)
            return lg["log_u"], lg["log_v"]
        if method == "sinkhorn_stabilized":
            close(lg["logu"], lg["alpha"] / reg, 1e-9, "logu is not alpha/reg", rtol=1e-9)
            close(lg["logv"], lg["beta"] / reg, 1e-9, "logv is not beta/reg", rtol=1e-9)
        return lg["alpha"] / reg, lg["beta"] / reg


def easy(M, reg):
    return np.ptp(M) <= 4 * reg and np.abs(M).max() <= 50 * reg


def run(f, *a, **k):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with np.errstate(all="ignore"):
            r = f(*a, **k)
    return r, any("onverge" in str(x.message) or "umerical errors" in str(x.message) for x in w)


def warm(c, n, m):
    if c["warm"] is None:
        return None
    r = g.rng(c["ws"], 21)
    if c["warm"] == "zero":
        return np.zeros(n), np.zeros(m)
    return r.randn(n), r.randn(m)


@facet(case(), 1500, 60000)
def unique_plan(c, rec):
    """Whatever the method and warm start: converged plan is non-negative, has both marginals and Gibbs form (which determine it uniquely); sinkhorn2 = <P, M>; restart from the solution stops at once."""
    a, b, M, reg = unpack(c)
    n, m = M.shape
    me = c["method"]
    rec.label(me, "rel:%g" % c["rel"])
    aa, bb = a, b
    if c["mass"] == 1.0:
        if c["empty"] & 1:
            a, aa = np.ones(n) / n, []
        if c["empty"] & 2:
            b, bb = np.ones(m) / m, np.array([])
    MM = M
    if c["as_list"]:
        aa, bb, MM = list(aa), list(bb), M.tolist()
    kw = dict(method=me, numItermax=ITERS[me], stopThr=c["stop"])
    if "stabilized" in me or "scaling" in me:
        kw["tau"] = c["tau"]
    ws = warm(c, n, m)
    (P, lg), bad = run(ot.sinkhorn, aa, bb, MM, reg, log=True, warmstart=ws, **kw)
    if bad:
        if easy(M, reg) and me in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized") and ws is None and c["tau"] >= 1e3:
            ensure(False, "%s reports no convergence on a well-conditioned problem", me)
        rec.skip("not converged")
        return
    rec.nontrivial(n > 1 and m > 1 and np.abs(np.asarray(P) - np.outer(a, b) / a.sum()).max() > 1e-6)
    st_ = c["stop"]
    tol = 3 * st_ + 1e-9 if me != "sinkhorn_epsilon_scaling" else 3 * np.sqrt(st_) + 1e-9
    src = 1e-9 if me in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized") else tol
    P = arr(P, (n, m))
    ensure(P.min() >= 0, "negative entry in the plan")
    close(P.sum(1), a, src * c["mass"], f"{me}: source marginal")
    close(P.sum(0), b, tol * c["mass"], f"{me}: target marginal")
    lu, lv = logs(me, lg, reg, M)
    gibbs(P, lu, lv, M, reg, 1e-9 if me != "sinkhorn_epsilon_scaling" else 1e-6 + 1e-11 / reg, me)
    if lg.get("err"):
        e = float(lg["err"][-1])
        d = np.linalg.norm(P.sum(0) - b)
        if me in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"):
            close(e, d, 1e-12, "last recorded error is not the marginal violation", rtol=1e-3)
    if me in ("sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"):
        v, _ = run(ot.sinkhorn2, aa, bb, MM, reg, warmstart=ws, **kw)
        close(num(v), (P * M).sum(), 1e-9 * max(1e-9, np.abs(M).max()) * c["mass"], "sinkhorn2 is not <P, M>")
    (P1, _), bad1 = run(ot.sinkhorn, a, b, M, reg, log=True, **{**kw, "numItermax": kw["numItermax"]})
    if not bad1:  # same target marginals => same plan
        s = min(1.0, 1 / max(1.0, np.ptp(M) / reg))
        P1 = arr(P1)
        if easy(M, reg):
            close(P1, P, 100 * tol * c["mass"], "warm start or input type changes the plan")
    if me != "sinkhorn_epsilon_scaling" and me != "greenkhorn" and c["tau"] >= 1e3 and np.isfinite(lu).all() and np.isfinite(lv).all() and np.abs(lu).max() < 300 and np.abs(lv).max() < 300:
        w2 = (lg["alpha"], lg["beta"]) if me == "sinkhorn_stabilized" else (lu, lv)
        (P2, l2), _ = run(ot.sinkhorn, a, b, M, reg, log=True, warmstart=w2, **{**kw, "stopThr": 10 * st_})
        k = l2.get("niter", l2.get("n_iter"))
        ensure(k <= 30, "%s: restart from its own solution needs %d iterations", me, k)
        close(arr(P2), P, 300 * tol * c["mass"] if easy(M, reg) else 1.0, "restart changes the plan")


@facet(case(methods=["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized", "greenkhorn", "sinkhorn_epsilon_scaling"]), 400, 15000)
def methods_agree(c, rec):
    """On well-conditioned problems all methods converge to the plan of an independent log-domain reference."""
    a, b, M, _ = unpack(c)
    reg = max(c["rel"], 0.5) * scale_of(M)
    me = c["method"]
    rec.label(me)
    P0, f, h, err = ref.gibbs_ot(a, b, M, reg)
    if err > 1e-10:
        rec.skip("reference not converged")
        return
    (P, lg), bad = run(ot.sinkhorn, a, b, M, reg, method=me, numItermax=ITERS[me], stopThr=1e-10, log=True)
    if bad and me in ("greenkhorn", "sinkhorn_epsilon_scaling"):
        rec.skip("not converged")
        return
    ensure(not bad, "%s reports no convergence on a well-conditioned problem", me)
    rec.nontrivial(min(M.shape) > 1 and np.ptp(M) > 0)
    close(arr(P), P0, (1e-7 if me != "sinkhorn_epsilon_scaling" else 3e-3) * c["mass"], f"{me} differs from the reference plan")
    direct = {"sinkhorn": ot.bregman.sinkhorn_knopp, "sinkhorn_log": ot.bregman.sinkhorn_log, "greenkhorn": ot.bregman.greenkhorn,
              "sinkhorn_stabilized": ot.bregman.sinkhorn_stabilized, "sinkhorn_epsilon_scaling": ot.bregman.sinkhorn_epsilon_scaling}[me]
    (D, _), _ = run(direct, a, b, M, reg, numItermax=ITERS[me], stopThr=1e-10, log=True)
    close(arr(D), arr(P), 1e-12, "dispatcher and direct call differ")
    Q, _ = run(direct, a, b, M, reg, numItermax=ITERS[me], stopThr=1e-10)
    close(arr(Q), arr(P), 1e-12, "log=True changes the plan")


@st.composite
def multi(draw):
    n, m, k = draw(st.integers(1, 7)), draw(st.integers(1, 7)), draw(st.integers(1, 4))
    return dict(a=draw(g.w_spec(n, zeros=False)), bs=[draw(g.w_spec(m, zeros=False)) for _ in range(k)], M=draw(g.m_spec(n, m)),
                rel=draw(st.sampled_from([0.05, 0.2, 1.0, 5.0])), method=draw(st.sampled_from(["sinkhorn", "sinkhorn_log", "sinkhorn_stabilized"])),
                tau=draw(st.sampled_from([1e3, 3.0])), log=draw(st.booleans()), fn=draw(st.sampled_from(["sinkhorn", "sinkhorn2"])))


@facet(multi(), 500, 15000)
def several_targets(c, rec):
    """A matrix of targets gives, per column, the value that column has alone (linear cost of its own Gibbs plan)."""
    a, M = g.mk_w(c["a"]), g.mk_m(c["M"])
    B = np.stack([g.mk_w(x) for x in c["bs"]], 1)
    n, m = M.shape
    reg = c["rel"] * scale_of(M)
    me = c["method"]
    kw = dict(method=me, numItermax=5000, stopThr=1e-11)
    if me == "sinkhorn_stabilized":
        kw["tau"] = c["tau"]
    rec.label(me, "K=%d" % B.shape[1])
    out, bad = run(ot.sinkhorn if c["fn"] == "sinkhorn" else ot.sinkhorn2, a, B, M, reg, log=c["log"], **kw)
    if bad:
        rec.skip("not converged")
        return
    v, lg = out if c["log"] else (out, None)
    v = arr(v, (B.shape[1],), what="values")
    rec.nontrivial(B.shape[1] > 1 and n > 1 and m > 1)
    s = max(1e-9, np.abs(M).max())
    for k in range(B.shape[1]):
        P, f, h, err = ref.gibbs_ot(a, B[:, k], M, reg)
        if err > 1e-10:
            continue
        close(v[k], (P * M).sum(), (1e-6 if c["rel"] >= 0.2 else 1e-3) * s, f"{me}: column {k} differs from its own value")
        if lg is not None and me != "sinkhorn_stabilized":
            Q = np.outer(lg["u"][:, k], lg["v"][:, k]) * np.exp(-M / reg) if me == "sinkhorn" else np.exp(lg["log_u"][:, k][:, None] + lg["log_v"][:, k][None] - M / reg)
            close(Q.sum(1), a, 1e-9, f"column {k}: source marginal of the returned scalings")
            close(Q.sum(0), B[:, k], 1e-7, f"column {k}: target marginal of the returned scalings")
            close((Q * M).sum(), v[k], 1e-9 * s, f"column {k}: value is not that of the returned scalings")


@st.composite
def scr(draw):
    n, m = draw(st.integers(2, 10)), draw(st.integers(2, 10))
    return dict(a=draw(g.w_spec(n, zeros=False, skew=False)), b=draw(g.w_spec(m, zeros=False, skew=False)), M=draw(g.m_spec(n, m, neg=False, scale=False)), rel=draw(st.sampled_from([0.2, 0.5, 1.0, 4.0])),
                full=draw(st.booleans()), fa=draw(st.integers(1, 10)), fb=draw(st.integers(1, 10)), uniform=draw(st.booleans()), restricted=draw(st.booleans()))


@facet(scr(), 250, 8000)
def screened(c, rec):
    """Screenkhorn: total mass one, Gibbs form with the returned scalings; with the full budget it is the entropic plan."""
    a, b, M = g.mk_w(c["a"]), g.mk_w(c["b"]), g.mk_m(c["M"])
    n, m = M.shape
    reg = c["rel"] * scale_of(M)
    uni = c["uniform"]
    if uni:
        a, b = np.ones(n) / n, np.ones(m) / m
    na, nb = (n, m) if c["full"] else (max(1, n * c["fa"] // 10), max(1, m * c["fb"] // 10))
    try:
        (P, lg), _ = run(ot.bregman.screenkhorn, a, b, M, reg, na, nb, uniform=uni, restricted=c["restricted"], log=True)
    except ValueError as e:
        if "lower bounds" not in str(e) or (na == n and nb == m):
            raise
        rec.skip("screening bounds cross")  # refused, not mis-solved
        return
    P = arr(P, (n, m))
    ensure(P.min() >= 0, "negative entry")
    close(P.sum(), 1, 1e-9, "total mass")
    K = np.exp(-M / reg)
    Q = np.outer(lg["u"], lg["v"]) * K
    close(P, Q / Q.sum(), 1e-9, "plan is not the normalised scaled kernel")
    rec.nontrivial(np.ptp(M) > 0)
    if na == n and nb == m:
        rec.label("full budget")
        P0, _, _, err = ref.gibbs_ot(a, b, M, reg)
        if err < 1e-9:
            close(P, P0, 2e-3, "full budget differs from Sinkhorn")
            close(Q.sum(), 1, 5e-3, "unnormalised mass")
    else:
        rec.label("screened")
        close(np.sum(lg["Isel"]) >= 1, True, 0, "no point kept")
