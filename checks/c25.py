"""C25: unified solver API (solve, solve_gromov, solve_sample, OTResult)."""
import warnings

import numpy as np
import ot
import scipy.sparse as sp
from hypothesis import strategies as st
from ot.gromov import (entropic_fused_gromov_wasserstein2, entropic_gromov_wasserstein2, entropic_partial_fused_gromov_wasserstein2, entropic_partial_gromov_wasserstein2,
                       entropic_semirelaxed_fused_gromov_wasserstein2, entropic_semirelaxed_gromov_wasserstein2, fused_gromov_wasserstein2, gromov_wasserstein2,
                       partial_fused_gromov_wasserstein2, partial_gromov_wasserstein2, semirelaxed_fused_gromov_wasserstein2, semirelaxed_gromov_wasserstein2)

import gen as g
import ref
from core import FACETS, arr, close, coupling, ensure, facet, leq, num, raises
from checks.c23 import quiet

FACETS.clear()
META = {
    "backends": [],
    "rule": "non-trivial when the plan has at least two rows and columns and six entries",
    "assumptions": ["iterative solvers are judged for optimality only when they report convergence"],
}


def ent(T):
    return (np.where(T > 0, T * np.log(np.where(T > 0, T, 1)), 0)).sum()


def gkl(p, q):
    with np.errstate(all="ignore"):
        return np.where(p > 0, p * np.log(np.where(p > 0, p, 1) / q), 0).sum() - p.sum() + q.sum()


def views(res, what=""):
    """every view of the plan held by a result describes the same coupling"""
    P = arr(res.plan, what="plan" + what)
    S = res.sparse_plan
    close(S.toarray() if sp.issparse(S) else S, P, 1e-15, "sparse plan differs from the dense one" + what)
    close(res.marginal_a, P.sum(1), 1e-12 * max(1, P.sum()), "marginal_a does not belong to the plan" + what)
    close(res.marginal_b, P.sum(0), 1e-12 * max(1, P.sum()), "marginal_b does not belong to the plan" + what)
    m = res.marginals
    close(m[0], P.sum(1), 1e-12 * max(1, P.sum()), "marginals differ from marginal_a" + what)
    close(m[1], P.sum(0), 1e-12 * max(1, P.sum()), "marginals differ from marginal_b" + what)
    if res.potentials is not None:
        ensure(res.potential_a is res.potentials[0] and res.potential_b is res.potentials[1], "potential_a / potential_b are not the potentials")
        arr(res.potential_a, (P.shape[0],), finite=False, what="potential_a")
        arr(res.potential_b, (P.shape[1],), finite=False, what="potential_b")
    if res.lazy_plan is not None:
        close(res.lazy_plan[:], P, 1e-12, "lazy plan differs from the dense one" + what)
    repr(res)
    return P


@st.composite
def prob(draw, zeros=True, nmax=7):
    n, m = draw(st.integers(1, nmax)), draw(st.integers(1, nmax))
    return dict(a=draw(st.one_of(st.none(), g.w_spec(n, zeros=zeros, skew=False))), b=draw(st.one_of(st.none(), g.w_spec(m, zeros=zeros, skew=False))), n=n, m=m, M=draw(g.m_spec(n, m, scale=False)), k=draw(g.seeds))


def unp(c, tag):
    M = g.mk_m(c["M"])
    a = None if c["a"] is None else g.mk_w(c["a"])
    b = None if c["b"] is None else g.mk_w(c["b"])
    A = np.ones(c["n"]) / c["n"] if a is None else a
    B = np.ones(c["m"]) / c["m"] if b is None else b
    return a, b, A, B, M, g.rng(c["k"], tag)


@facet(g.record(P=prob(), kind=st.sampled_from(["exact", "sparse", "KL", "KLc", "kl", "entropy", "entropyc", "L2", "tuple"]), reg=g.around([1.0, 0.3, 5.0], 0.1, 5), zero=st.sampled_from([None, 0, 0.0]), init=st.booleans(), threads=st.sampled_from([1, 1, 2, "max"])), 900, 30000, weight=2)
def balanced(c, rec):
    a, b, A, B, M, r = unp(c["P"], 171)
    kind, reg = c["kind"], c["reg"]
    n, m = M.shape
    sc = np.abs(M).max() + 1
    rec.label(kind)
    rec.nontrivial(n >= 2 and m >= 2 and n * m >= 6)
    if kind == "exact":
        kw = dict(potentials_init=(r.randn(n), r.randn(m))) if c["init"] else {}
        res = ot.solve(M, a, b, reg=c["zero"], n_threads=c["threads"], **kw)
        P = views(res)
        coupling(P, A, B, 1e-9)
        v, _ = ref.lp_ot(A, B, M)
        close(res.value, v, 1e-8 * sc, "exact value")
        close(res.value_linear, v, 1e-8 * sc, "exact linear value")
        close((P * M).sum(), v, 1e-8 * sc, "exact plan")
        u, w = np.asarray(res.potential_a), np.asarray(res.potential_b)
        s = M - u[:, None] - w[None]
        leq(-s, np.zeros_like(s), 1e-7 * sc, "potentials are not dual feasible")
        close(u @ A + w @ B, v, 1e-7 * sc, "dual value")
        ensure(res.status == "Converged", "status of an optimal solution is %s", res.status)
        return
    if kind == "sparse":
        mask = r.rand(n, m) < 0.6
        mask[np.arange(n), np.arange(n) % m] = True
        P0 = r.rand(n, m) * mask
        P0[:, P0.sum(0) == 0] = 0.1
        mask |= P0 > 0
        P0 /= P0.sum()
        A, B = P0.sum(1), P0.sum(0)
        M = np.abs(M) + 0.1
        res = ot.solve(sp.coo_matrix(np.where(mask, M, 0)), A, B)
        P = views(res)
        coupling(P, A, B, 1e-9)
        v, _ = ref.lp_ot(A, B, M, mask=mask)
        leq(P[~mask], 0 * P[~mask], 0, "mass on absent edges")
        close(res.value, v, 1e-7 * sc, "value with a sparse cost")
        close((P * M).sum(), v, 1e-7 * sc, "plan with a sparse cost")
        return
    C = A[:, None] * B[None]
    if kind in ("KL", "KLc", "kl", "entropy", "entropyc"):
        cc = None
        if kind.endswith("c"):
            cc = r.rand(n, m) + 0.1
            if kind == "KLc":
                C = cc
        typ = kind.rstrip("c")
        res, bad = quiet(ot.solve, M, a, b, reg=reg, c=cc, reg_type=typ, max_iter=20000, tol=1e-11)
        P = views(res)
        Meff = M - reg * np.log(C) if kind == "KLc" else M
        Q, f, h, err = ref.gibbs_ot(A, B, Meff, reg)
        if bad or err > 1e-9:
            return rec.skip("Sinkhorn did not converge")
        coupling(P, A, B, 1e-6)
        close(P, Q, 1e-6, "plan does not solve the entropic problem (%s)" % kind)
        lin = (P * M).sum()
        want = lin + reg * (ent(P) if typ == "entropy" else gkl(P, C))
        close(res.value_linear, lin, 1e-9 * sc, "linear value")
        close(res.value, want, 1e-6 * sc * max(1, reg), "value is not the %s-regularised objective" % typ)
        u, w = np.asarray(res.potential_a), np.asarray(res.potential_b)
        with np.errstate(invalid="ignore"):
            R = np.exp(u[:, None] + w[None] - Meff / reg)
        close(np.nan_to_num(R), P, 1e-7, "potentials do not give the plan")
        return
    if kind == "L2":
        res, bad = quiet(ot.solve, M, a, b, reg=reg, reg_type="L2", max_iter=5000, tol=1e-14)
        if sc / reg > 30:
            return rec.skip("dual far from its starting point")
        P = views(res)
        F = lambda T: (T * M).sum() + reg / 2 * (T ** 2).sum()
        d = M + reg * P
        tol = 1e-3 * sc
    else:
        f, df = (lambda T: (T ** 2).sum() / 2 + (T ** 4).sum()), (lambda T: T + 4 * T ** 3)
        G0 = np.outer(A, B) if c["init"] else None
        res, bad = quiet(ot.solve, M, a, b, reg=reg, reg_type=(f, df), max_iter=2000, tol=1e-12, plan_init=G0)
        P = views(res)
        F = lambda T: (T * M).sum() + reg * f(T)
        d = M + reg * df(P)
        tol = 3e-2 * reg + 1e-6 * sc
    leq(-P, 0 * P, 1e-12, "negative plan")
    close(P.sum(1), A, 2e-4, "marginal a")
    close(P.sum(0), B, 2e-4, "marginal b")
    close(res.value_linear, (P * M).sum(), 1e-9 * sc, "linear value")
    close(res.value, F(P), 1e-8 * sc * max(1, reg), "value is not the objective of the plan")
    gap = (d * P).sum() - ref.lp_ot(A, B, d)[0]
    leq(gap, tol, 0, "plan is not optimal: gap %.3g" % gap)
    if kind == "L2":
        u, w = np.asarray(res.potential_a), np.asarray(res.potential_b)
        close(np.maximum(u[:, None] + w[None] - M, 0) / reg, P, 1e-7, "potentials do not give the plan")


@facet(g.record(P=prob(zeros=False), reg=st.sampled_from([None, 0, 1.0, 0.3, 2.7]), rt=st.sampled_from(["KL", "entropy", "L2", "tuple"]), ut=st.sampled_from(["KL", "L2", "TV"]), um=st.sampled_from(["scalar", "pair", "list1", "inf"]), u1=g.around([1.0, 0.3], 0.1, 5), u2=g.around([1.0, 3.0], 0.1, 5), c=st.booleans(), sa=st.sampled_from([1.0, 0.5, 2.0]), G0=st.booleans(), pi=st.booleans()), 700, 20000, weight=2)
def unbalanced(c, rec):
    a, b, A, B, M, r = unp(c["P"], 172)
    M = np.abs(M)
    n, m = M.shape
    if a is not None:
        a = A = A * c["sa"]
    u1, u2, form = c["u1"], c["u2"], c["um"]
    if form == "scalar":
        um, u2 = u1, u1
    elif form == "list1":
        um, u2 = [u1], u1
    elif form == "pair":
        um = (u1, u2)
    else:
        if not (c["reg"] and c["rt"] == "KL" and c["ut"] == "KL"):
            return rec.skip("infinite penalty only with the entropic scaling solver")
        um, u1 = (float("inf"), u2), np.inf
    reg = c["reg"] or 0.0
    C = r.rand(n, m) + 0.1 if c["c"] else None
    Cr = C if c["c"] else A[:, None] * B[None]
    rt = c["rt"]
    f, df = (lambda T: (T ** 2).sum() / 2), (lambda T: T)
    sc = M.max() + 1 + u2 + (u1 if np.isfinite(u1) else 0)
    if M.max() / max(min(u1, u2), reg) > 40:
        return rec.skip("scalings underflow")

    def F(T):
        v = (T * M).sum()
        if reg:
            v += reg * {"KL": lambda: gkl(T, Cr), "entropy": lambda: ent(T) - T.sum(), "L2": lambda: ((T - Cr) ** 2).sum() / 2, "tuple": lambda: f(T)}[rt]()
        for w, s, t in ((u1, T.sum(1), A), (u2, T.sum(0), B)):
            if np.isfinite(w):
                v += w * {"KL": lambda: gkl(s, t), "L2": lambda: ((s - t) ** 2).sum() / 2, "TV": lambda: np.abs(s - t).sum()}[c["ut"]]()
        return v

    kw = {}
    # (exact KL/L2: multiplicative updates; TV and the remaining regularised ones: L-BFGS; KL-KL: scaling algorithm)
    kl = reg > 0 and rt == "KL" and c["ut"] == "KL"
    if c["G0"] and not kl:
        kw["plan_init"] = np.outer(A, B)
    if c["pi"] and kl:
        kw["potentials_init"] = (r.randn(n) * 0.1, r.randn(m) * 0.1)
    typ = (f, df) if rt == "tuple" else rt
    if not reg and c["ut"] == "TV" and rt == "tuple":
        typ = "KL"
    res, bad = quiet(ot.solve, M, a, b, reg=c["reg"], c=C, reg_type=typ, unbalanced=um, unbalanced_type=c["ut"], max_iter=30000 if kl else 5000, tol=1e-13 if kl else 1e-12, **kw)
    P = views(res)
    rec.label("%s/%s" % (rt if reg else "exact", c["ut"]), form)
    rec.nontrivial(n >= 2 and m >= 2 and n * m >= 6)
    leq(-P, 0 * P, 1e-12, "negative plan")
    close(res.value_linear, (P * M).sum(), 1e-8 * sc, "linear value")
    val = F(P)
    if u1 == np.inf:
        # the constraint only holds at convergence
        if bad:
            return rec.skip("not converged")
        close(P.sum(1), A, 1e-6, "infinite penalty: marginal a is not exact")
    close(res.value, val, 1e-6 * sc * (1 + reg), "value is not the objective of the plan")
    if bad:
        return rec.stop("not converged")
    if c["ut"] == "TV":
        # scipy's L-BFGS-B stops at kinks of this non-smooth objective, at times even above its starting value
        return rec.stop("no optimality guarantee for the total variation penalty")
    # no better plan among scalings, the independent plan, nothing at all and random perturbations
    tol = (1e-5 if kl else 2e-3) * sc * (1 + reg)
    if np.isfinite(u1):
        for s in (0.9, 1.1, 0.99, 1.01):
            leq(val, F(s * P), tol, "scaling the plan by %s lowers the objective" % s)
        leq(val, F(np.outer(A, B)), tol, "independent plan is better")
        leq(val, F(np.full((n, m), 1e-30)), tol, "empty plan is better")
        for e in (0.05, 0.3):
            leq(val, F(P * np.exp(e * r.randn(n, m))), tol, "perturbed plan is better")
            leq(val, F((1 - e) * P + e * r.rand(n, m) * 2 * A.max() * B.max()), tol, "perturbed plan is better")
    else:
        for e in (0.05, 0.3):
            Q = P * np.exp(e * r.randn(n, m))
            Q *= (A / Q.sum(1))[:, None]
            leq(val, F(Q), tol, "perturbed plan is better")
    # the specialised solvers
    d = None
    if kl:
        d = ot.unbalanced.sinkhorn_unbalanced(A, B, M, reg, um, c=C, numItermax=30000, stopThr=1e-13)
        close(P, d, 1e-6, "plan differs from sinkhorn_unbalanced")
    elif not reg and c["ut"] != "TV":
        d = ot.unbalanced.mm_unbalanced(A, B, M, um, c=C, div=c["ut"].lower(), numItermax=5000, stopThr=1e-12, G0=kw.get("plan_init"))
        close(P, d, 1e-9, "plan differs from mm_unbalanced")


@facet(g.record(n=st.integers(2, 6), m=st.integers(2, 6), k=g.seeds, C1=st.sampled_from(["eucl", "graph", "asym"]), M=st.booleans(), alpha=g.around([0.5, 0.0, 1.0, 1], 0.05, 0.95), loss=st.sampled_from(["L2", "KL"]), reg=st.sampled_from([None, 0, 0.5, 1.0, 5.0]), ut=st.sampled_from(["KL", "semirelaxed", "partial", "none"]), mass=g.around([0.5, 0.8, 1.0], 0.2, 1.0), w=st.booleans(), method=st.sampled_from([None, None, "PGD", "PPA"]), sym=st.sampled_from([None, None, True]), G0=st.booleans(), it=st.sampled_from([None, 5])), 900, 30000, weight=2)
def gromov(c, rec):
    r = g.rng(c["k"], 173)
    n, m = c["n"], c["m"]

    def mat(k):
        if c["C1"] == "graph":
            A = np.triu((r.rand(k, k) < 0.5) * 1.0, 1)
            return A + A.T
        if c["C1"] == "asym":
            return r.rand(k, k)
        X = r.randn(k, 2)
        return np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))

    Ca, Cb = mat(n), mat(m)
    if c["loss"] == "KL":
        Ca, Cb = Ca + 0.1, Cb + 0.1
    M = r.rand(n, m) if c["M"] else None
    a, b = (g.mk_w(dict(kind="dir", n=n, k=c["k"])) if False else r.dirichlet(np.ones(n) * 5), r.dirichlet(np.ones(m) * 5)) if c["w"] else (None, None)
    A = np.ones(n) / n if a is None else a
    B = np.ones(m) / m if b is None else b
    al, reg, ut = c["alpha"], c["reg"], c["ut"]
    sym = c["sym"] if c["C1"] != "asym" else None
    lf = {"L2": "square_loss", "KL": "kl_loss"}[c["loss"]]
    lin = M is not None and al != 1
    part, semi = ut == "partial", ut == "semirelaxed"
    if (part or semi) and M is not None and al == 0:
        return rec.skip("partial and semi-relaxed problems without a quadratic term")
    G0 = None
    if c["G0"] and not part:
        G0 = np.outer(A, B)
    un = min(c["mass"], A.sum(), B.sum()) if part else None  # (float sums of the weights may be 1-eps)
    kw = dict(a=a, b=b, loss=c["loss"], symmetric=sym, alpha=al, reg=reg, unbalanced=un, max_iter=c["it"], plan_init=G0)
    if ut != "none":
        kw["unbalanced_type"] = ut
    if reg and c["method"] and not part and not semi:
        kw["method"] = c["method"]
    res, bad = quiet(ot.solve_gromov, Ca, Cb, M, **kw)
    P = views(res)
    rec.label(("reg" if reg else "exact") + "-" + ("partial" if part else "semi" if semi else "bal") + ("-fused" if lin and al else "-gw" if not lin else "-w"), c["loss"])
    rec.nontrivial(n * m >= 6)
    # the specialised solver
    kf = dict(loss_fun=lf, log=True, symmetric=sym)
    it = lambda d: c["it"] if c["it"] is not None else d
    cgk = dict(max_iter=it(10000), tol_rel=1e-9, tol_abs=1e-9, G0=G0)
    if part:
        pk = dict(m=un, numItermax=it(1000), tol=1e-7, G0=None)
        if reg:
            out = quiet(entropic_partial_fused_gromov_wasserstein2, M, Ca, Cb, A, B, reg=reg, alpha=al, **pk, **kf) if lin else quiet(entropic_partial_gromov_wasserstein2, Ca, Cb, A, B, reg=reg, **pk, **kf)
        else:
            out = quiet(partial_fused_gromov_wasserstein2, M, Ca, Cb, A, B, alpha=al, **pk, **kf) if lin else quiet(partial_gromov_wasserstein2, Ca, Cb, A, B, **pk, **kf)
    elif semi:
        if reg:
            ek = dict(epsilon=reg, max_iter=it(1000), tol=1e-9, G0=G0)
            out = quiet(entropic_semirelaxed_fused_gromov_wasserstein2, M, Ca, Cb, A, alpha=al, **ek, **kf) if lin else quiet(entropic_semirelaxed_gromov_wasserstein2, Ca, Cb, A, **ek, **kf)
        else:
            out = quiet(semirelaxed_fused_gromov_wasserstein2, M, Ca, Cb, A, alpha=al, **cgk, **kf) if lin else quiet(semirelaxed_gromov_wasserstein2, Ca, Cb, A, **cgk, **kf)
    elif reg:
        if M is not None and al == 0:
            T = ot.bregman.sinkhorn_log(A, B, M, reg, numItermax=it(1000), stopThr=1e-9, warn=False)
            out = ((None, dict(T=T)), None)
        else:
            ek = dict(epsilon=reg, solver=c["method"] or "PGD", max_iter=it(1000), tol_rel=1e-9, tol_abs=1e-9, G0=G0)
            out = quiet(entropic_fused_gromov_wasserstein2, M, Ca, Cb, A, B, alpha=al, **ek, **kf) if lin else quiet(entropic_gromov_wasserstein2, Ca, Cb, A, B, **ek, **kf)
    elif M is not None and al == 0:
        v, T = ref.lp_ot(A, B, M)
        if c["it"] is not None:
            return rec.skip("linear program limited to five iterations")
        close(res.value, v, 1e-8, "alpha=0 is not the optimal transport value")
        out = None
    else:
        out = quiet(fused_gromov_wasserstein2, M, Ca, Cb, A, B, alpha=al, **cgk, **kf) if lin else quiet(gromov_wasserstein2, Ca, Cb, A, B, **cgk, **kf)
    if out is not None:
        lg = out[0][1]
        T = lg["T"]
        close(P, T, 1e-9, "plan differs from the specialised solver")
    # marginals
    tol = 2e-5 if reg else 1e-6
    if part:
        leq(P.sum(1), A, tol, "partial plan exceeds a")
        leq(P.sum(0), B, tol, "partial plan exceeds b")
        if not bad and c["it"] is None:  # (max_iter is also the limit of the inner linear programs)
            close(P.sum(), un, 1e-5, "partial plan has the wrong mass")
    elif not bad or not reg:
        close(P.sum(1), A, 1e-5, "marginal a")
        if not semi:
            close(P.sum(0), B, 1e-5, "marginal b")
    # values
    quad = ref.gw_loss4(Ca, Cb, P, lf)
    w = al if M is not None else 1.0
    sc = 1 + abs(quad)
    tol = 1e-7 * sc
    want = w * quad + ((1 - w) * (M * P).sum() if M is not None else 0) + (reg * ent(P) if reg else 0)
    if bad or (semi and reg) or (reg and part) or reg:
        # solvers evaluate the quadratic term assuming their own marginals, exact only at convergence
        tol = max(tol, 20 * sc * (np.abs(P.sum(1) - A).sum() + (0 if semi else np.abs(P.sum(0) - B).sum()) if not part else 1e-5))
    close(res.value, want, tol, "value is not the objective of the plan")
    if res.value_quad is not None:
        close(res.value_quad, w * quad, tol, "quadratic value is not that of the plan")
    if res.value_linear is not None:
        close(res.value_linear, (1 - w) * (M * P).sum() if M is not None else 0, tol, "linear value is not that of the plan")
    ensure(res.value_quad is not None or (M is not None and al == 0), "no quadratic value")
    ensure(M is None or al == 1 or res.value_linear is not None, "no linear value")


@facet(g.record(P=prob(zeros=False), d=st.integers(1, 3), metric=st.sampled_from(["sqeuclidean", "euclidean", "cityblock"]), kind=st.sampled_from(["dense", "dense", "lazy-exact", "lazy-sink", "1d", "gaussian", "factored", "lowrank", "nystroem", "geomloss"]), reg=g.around([1.0, 0.5], 0.3, 4), rt=st.sampled_from(["KL", "entropy", "L2"]), un=st.sampled_from([None, None, 1.0]), ut=st.sampled_from(["KL", "L2"]), rank=st.integers(1, 4), lz=st.booleans(), bs=st.sampled_from([None, 1, 2, 3])), 500, 15000, weight=2)
def sample(c, rec):
    a, b, A, B, _, r = unp(c["P"], 174)
    n, m = len(A), len(B)
    kind = c["kind"]
    if kind in ("gaussian", "factored", "lowrank", "nystroem"):
        n, m = n + 3, m + 3
        if a is not None:
            a = A = r.dirichlet(np.ones(n) * 3)
        if b is not None:
            b = B = r.dirichlet(np.ones(m) * 3)
        A = np.ones(n) / n if a is None else a
        B = np.ones(m) / m if b is None else b
    X, Y = r.randn(n, c["d"]), r.randn(m, c["d"]) + 0.5
    reg = c["reg"]
    rec.label(kind)
    rec.nontrivial(n >= 2 and m >= 2 and n * m >= 6)
    M = ref.cost_matrix(X, Y, c["metric"])
    sc = 1 + M.max()
    if kind == "dense":
        kw = dict(reg=reg if r.rand() < 0.7 else None, reg_type=c["rt"], unbalanced=c["un"], unbalanced_type=c["ut"], max_iter=2000)
        r1, bad = quiet(ot.solve_sample, X, Y, a, b, metric=c["metric"], **kw)
        r2, _ = quiet(ot.solve, ot.dist(X, Y, c["metric"]), a, b, **kw)
        close(views(r1), r2.plan, 1e-12, "solve_sample differs from solve on the cost matrix")
        close(r1.value, r2.value, 1e-9 * sc, "value of solve_sample differs from solve on the cost matrix")
        close(r1.value_linear, (np.asarray(r1.plan) * M).sum(), 1e-6 * sc, "linear value does not use the requested metric")
        # the remaining arguments are passed through
        G0 = np.outer(A, B)
        r3, _ = quiet(ot.solve_sample, X, Y, a, b, metric=c["metric"], reg=reg, reg_type="L2", unbalanced=1.0, unbalanced_type="L2", plan_init=G0, max_iter=3, tol=1e-9)
        r4, _ = quiet(ot.solve, ot.dist(X, Y, c["metric"]), a, b, reg=reg, reg_type="L2", unbalanced=1.0, unbalanced_type="L2", plan_init=G0, max_iter=3, tol=1e-9)
        close(r3.plan, r4.plan, 1e-12, "solve_sample does not pass its arguments on")
    elif kind == "lazy-exact":
        res, _ = quiet(ot.solve_sample, X, Y, a, b, metric=c["metric"], lazy=True)
        P = views(res)
        coupling(P, A, B, 1e-9)
        v = ref.lp_ot(A, B, M)[0]
        close(res.value, v, 1e-6 * sc, "lazy exact value")
        close((P * M).sum(), v, 1e-6 * sc, "lazy exact plan")
    elif kind == "lazy-sink":
        if c["rt"] == "L2" or c["un"] is not None:
            raises(lambda: ot.solve_sample(X, Y, a, b, metric=c["metric"], reg=reg, reg_type=c["rt"], unbalanced=c["un"], lazy=True), "unsupported lazy problem did not raise", NotImplementedError)
            rec.label("unsupported")
            return
        res, bad = quiet(ot.solve_sample, X, Y, a, b, metric=c["metric"], reg=reg, reg_type=c["rt"], lazy=True, batch_size=c["bs"], max_iter=20000, tol=1e-10)
        Q, _, _, err = ref.gibbs_ot(A, B, M, reg)
        if bad or err > 1e-9:
            return rec.skip("Sinkhorn did not converge")
        P = arr(res.lazy_plan[:], (n, m), what="lazy plan")
        close(P, Q, 1e-6, "lazy entropic plan")
        close(res.value_linear, (Q * M).sum(), 1e-5 * sc, "lazy entropic linear value")
        close(res.marginal_a, P.sum(1), 1e-12, "lazy marginal a")
        close(res.marginal_b, P.sum(0), 1e-12, "lazy marginal b")
        close(res.marginals[1], P.sum(0), 1e-12, "lazy marginals")
    else:
        if c["un"] is not None:
            raises(lambda: ot.solve_sample(X, Y, a, b, reg=reg, unbalanced=c["un"], method=kind), "unbalanced problem with method %s did not raise" % kind, NotImplementedError)
            rec.label("unsupported")
            return
        if kind not in ("1d", "geomloss") and c["metric"] != "sqeuclidean":
            raises(lambda: ot.solve_sample(X, Y, a, b, metric=c["metric"], reg=reg, method=kind), "metric %s with method %s did not raise" % (c["metric"], kind), NotImplementedError)
            rec.label("unsupported")
            return
        kw = dict(method=kind, lazy=c["lz"])
        lp = None
        if kind == "1d":
            res, _ = quiet(ot.solve_sample, X, Y, a, b, metric=c["metric"], **kw)
            p = 2 if c["metric"] == "sqeuclidean" else 1
            for j in range(c["d"]):
                v = ref.lp_ot(A, B, np.abs(X[:, j][:, None] - Y[:, j][None]) ** p)[0]
                close(np.asarray(res.value).reshape(-1)[j], v, 1e-8 * sc, "1d method")
        elif kind == "gaussian":
            res, _ = quiet(ot.solve_sample, X, Y, a, b, reg=reg, **kw)
            mx, my = A @ X, B @ Y
            S = (X - mx).T @ ((X - mx) * A[:, None]) + reg * np.eye(c["d"])
            T = (Y - my).T @ ((Y - my) * B[:, None]) + reg * np.eye(c["d"])
            w, U = np.linalg.eigh(S)
            h = U * np.sqrt(w) @ U.T
            v = ((mx - my) ** 2).sum() + np.trace(S + T) - 2 * np.sqrt(np.maximum(np.linalg.eigvalsh(h @ T @ h), 0)).sum()
            close(res.value, v, 1e-6 * sc, "gaussian method is not the Bures value of the weighted moments")
        elif kind == "factored":
            nx = ot.backend.get_backend(X)
            nx.seed(c["rank"])
            res, _ = quiet(ot.solve_sample, X, Y, a, b, rank=c["rank"], max_iter=30, **kw)
            nx.seed(c["rank"])
            Q, R, Z, lg = quiet(ot.factored_optimal_transport, X, Y, A, B, r=c["rank"], numItermax=30, stopThr=1e-7, log=True)[0]
            lp = lg["lazy_plan"][:]
            close(res.value, lg["costa"] + lg["costb"], 1e-9 * sc, "factored value")
        elif kind == "lowrank":
            rk = min(c["rank"], n, m)
            res, _ = quiet(ot.solve_sample, X, Y, a, b, rank=rk, reg=0, max_iter=100, **kw)
            Q, R, gg, lg = quiet(ot.lowrank.lowrank_sinkhorn, X, Y, a=A, b=B, rank=rk, reg=0, rescale_cost=False, numItermax=100, stopThr=1e-7, log=True)[0]
            lp = lg["lazy_plan"][:]
            close(res.value, lg["value"], 1e-9 * sc, "low-rank value")
            close(res.value_linear, (lp * M).sum(), 1e-6 * sc, "low-rank linear value")
        elif kind == "nystroem":
            res, _ = quiet(ot.solve_sample, X, Y, a, b, reg=reg * 3, rank=min(n, m), random_state=7, max_iter=200, **kw)
            v, lg = quiet(ot.bregman.empirical_sinkhorn_nystroem2, X, Y, reg=reg * 3, anchors=min(n, m), a=A, b=B, numItermax=200, stopThr=1e-7, random_state=7, log=True)[0]
            lp = lg["lazy_plan"][:]
        else:
            if c["metric"] == "cityblock":
                return rec.skip("metric not available in geomloss")
            res, _ = quiet(ot.solve_sample, X, Y, a, b, metric=c["metric"], reg=reg, scaling=0.99, **dict(kw, method="geomloss_tensorized"))
            lp = arr(res.lazy_plan[:], (n, m), what="geomloss plan")
            Q, f, h, err = ref.gibbs_ot(A, B, M, reg)
            close(lp, Q, 3e-2, "geomloss plan is far from the entropic plan")
            close(lp.sum(1), A, 3e-2, "geomloss marginal")
        if lp is not None:
            if c["lz"]:
                ensure(res.plan is None or kind == "geomloss", "lazy=True stores a dense plan")
                close(res.lazy_plan[:], lp, 1e-9, "lazy plan of method %s" % kind)
            else:
                close(views(res), lp, 1e-9, "plan of method %s" % kind)
            close(res.marginal_a, lp.sum(1), 1e-9, "marginal_a of method %s" % kind)
            close(res.marginal_b, lp.sum(0), 1e-9, "marginal_b of method %s" % kind)
            close(res.marginals[0], lp.sum(1), 1e-9, "marginals of method %s" % kind)


BAD = ["nope", "wasserstein", "l3", "hellinger", "js"]


@facet(g.record(P=prob(zeros=False, nmax=4), w=st.sampled_from(["reg", "unb", "both-r", "both-u", "gloss", "gun", "greg", "gpart", "gunb", "gunbr", "slazy", "met"]), x=st.sampled_from(BAD), r=st.sampled_from([1.0, 0.5]), u=st.sampled_from([1.0, (1.0, 2.0)])), 200, 2000)
def unsupported(c, rec):
    """names of problems that are not implemented are refused"""
    a, b, A, B, M, r = unp(c["P"], 175)
    n, m = M.shape
    Ca, Cb = r.rand(n, n), r.rand(m, m)
    x, w = c["x"], c["w"]
    X, Y = r.randn(n, 2), r.randn(m, 2)
    calls = {
        "reg": lambda: ot.solve(M, a, b, reg=c["r"], reg_type=x),
        "unb": lambda: ot.solve(M, a, b, unbalanced=c["u"], unbalanced_type=x),
        "both-r": lambda: ot.solve(M, a, b, reg=c["r"], reg_type=x, unbalanced=c["u"]),
        "both-u": lambda: ot.solve(M, a, b, reg=c["r"], unbalanced=c["u"], unbalanced_type=x),
        "gloss": lambda: ot.solve_gromov(Ca, Cb, a=a, b=b, loss=x),
        "gun": lambda: ot.solve_gromov(Ca, Cb, a=a, b=b, unbalanced=1.0, unbalanced_type=x),
        "greg": lambda: ot.solve_gromov(Ca, Cb, a=a, b=b, reg=c["r"], reg_type=x),
        "gpart": lambda: ot.solve_gromov(Ca, Cb, a=a, b=b, reg=c["r"] if r.rand() < 0.5 else None, unbalanced=1.5, unbalanced_type="partial"),
        "gunb": lambda: ot.solve_gromov(Ca, Cb, a=a, b=b, unbalanced=1.0, unbalanced_type=r.choice(["KL", "L2"])),
        "gunbr": lambda: ot.solve_gromov(Ca, Cb, a=a, b=b, reg=c["r"], unbalanced=1.0, unbalanced_type=r.choice(["KL", "L2", x])),
        "slazy": lambda: ot.solve_sample(X, Y, a, b, reg=None, unbalanced=1.0, lazy=True),
        "met": lambda: ot.solve_sample(X, Y, a, b, metric="euclidean", method=r.choice(["gaussian", "factored", "lowrank", "nystroem"])),
    }
    exc = ValueError if w == "gpart" else NotImplementedError
    raises(calls[w], "unsupported problem (%s) was solved" % w, exc)
    rec.label(w)
    rec.nontrivial(True)
