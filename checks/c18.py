"""C18: co-optimal transport, unbalanced co-optimal transport, fused unbalanced Gromov-Wasserstein."""
import warnings

import numpy as np
import ot
import ot.coot
from hypothesis import strategies as st

import gen as g
import ref
from checks.c07 import run
from core import FACETS, arr, close, coupling, ensure, facet, leq, num

FACETS.clear()
META = {
    "backends": [],
    "rule": "non-trivial when both matrices have >=2 rows and >=2 columns, one side >=3, and the plans moved away from the start",
    "assumptions": ["positive weights", "block optimality judged by a duality gap; for the solvers without a convergence certificate only after their own stopping rule is met with a tight tolerance"],
}


KN = "with divergence='l2' the penalties and weights of each unbalanced subproblem are computed from the plan being updated instead of the other plan, so plans are not block-optimal"


def Div(mu, nu, kind):
    mu, nu = np.asarray(mu, float), np.asarray(nu, float)
    if kind == "l2":
        return 0.5 * ((mu - nu) ** 2).sum()
    return (np.where(mu > 0, mu * np.log(np.where(mu > 0, mu, 1) / nu), 0)).sum() - mu.sum() + nu.sum()


def cross(X, Y, P, Q):
    """sum_ijkl (X_ik - Y_jl)^2 P_ij Q_kl from the definition."""
    return float(np.einsum("ijkl,ij,kl->", (X[:, None, :, None] - Y[None, :, None, :]) ** 2, P, Q))


def local(X, Y, Q):
    """Cost of the sample plan given the feature plan Q."""
    return np.einsum("ijkl,kl->ij", (X[:, None, :, None] - Y[None, :, None, :]) ** 2, Q)


@st.composite
def mats(draw, nmax=5):
    s = [draw(st.sampled_from([2, 3, 1, 4, 5][:nmax])) for _ in range(4)]  # nx, dx, ny, dy
    c = dict(s=s, k=draw(g.seeds), kind=draw(st.sampled_from(["gauss", "int", "unif", "same", "perm"])), w=[draw(st.one_of(st.none(), g.w_spec(n, zeros=False, skew=False))) for n in s],
             al=draw(st.sampled_from([0, 0, 0.5, (0.3, 0.0), (0.0, 2.0), (1.0, 0.2)])), M=draw(st.sampled_from(["both", "samp", "feat", "none"])))
    if c["kind"] == "perm":
        s[2], s[3] = s[0], s[1]
        c["w"][2:] = c["w"][:2]
    return c


def unpack(c):
    r = g.rng(c["k"], 101)
    nx, dx, ny, dy = c["s"]
    if c["kind"] == "int":
        X, Y = r.randint(-2, 3, (nx, dx)).astype(float), r.randint(-2, 3, (ny, dy)).astype(float)
    elif c["kind"] == "unif":
        X, Y = r.rand(nx, dx), r.rand(ny, dy) * 3
    else:
        X, Y = r.randn(nx, dx), r.randn(ny, dy) + 0.3
    ws = [np.ones(n) / n if w is None else g.mk_w(w) for n, w in zip(c["s"], c["w"])]
    if c["kind"] == "perm":
        i, j = r.permutation(nx), r.permutation(dx)
        Y = X[np.ix_(i, j)]
        ws[2], ws[3] = ws[0][i], ws[1][j]
    Ms = r.randn(nx, ny) if c["M"] in ("both", "samp") else None
    Mf = r.rand(dx, dy) if c["M"] in ("both", "feat") else None
    a = c["al"] if isinstance(c["al"], (tuple, list)) else (c["al"], c["al"])
    return X, Y, ws, Ms, Mf, (a[0] if Ms is not None else 0.0, a[1] if Mf is not None else 0.0)


@st.composite
def co(draw):
    c = draw(mats())
    c.update(eps=draw(st.sampled_from([0, 0, 0, 0.5, (0.3, 0.0), (0.0, 1.0), (0.5, 2.0)])), method=draw(st.sampled_from(["sinkhorn", "sinkhorn_log"])), it=draw(st.sampled_from([1, 2, 5, 100])), ev=draw(st.sampled_from([1, 1, 1, 2, 8])), warm=draw(st.sampled_from([False, False, True])))
    return c


@facet(co(), 500, 20000)
def balanced(c, rec):
    """co_optimal_transport(2): both plans are couplings, recorded cost = four-index objective with linear terms and KL regularisation, never increases, plans optimal block-wise, entry points agree, isomorphic inputs stay at zero."""
    X, Y, ws, Ms, Mf, (as_, af) = unpack(c)
    nx, dx, ny, dy = c["s"]
    es, ef = c["eps"] if isinstance(c["eps"], (tuple, list)) else (c["eps"], c["eps"])
    sc = max(1e-3, max(np.abs(X).max(), np.abs(Y).max()) ** 2 * 4 + as_ * (np.abs(Ms).max() if Ms is not None else 0) + af * (np.abs(Mf).max() if Mf is not None else 0))
    eps = tuple(e * sc for e in (es, ef)) if isinstance(c["eps"], (tuple, list)) else float(es * sc)
    es, ef = es * sc, ef * sc
    kw = dict(epsilon=eps, alpha=tuple(c["al"]) if isinstance(c["al"], (tuple, list)) else c["al"], nits_bcd=c["it"], eval_bcd=c["ev"], method_sinkhorn=c["method"], tol_sinkhorn=1e-11, nits_ot=5000)
    names = ("wx_samp", "wx_feat", "wy_samp", "wy_feat")
    for n, w, spec in zip(names, ws, c["w"]):
        if spec is not None or c["kind"] == "perm":
            kw[n] = w.copy()
    if Ms is not None:
        kw["M_samp"] = Ms.copy()
    if Mf is not None:
        kw["M_feat"] = Mf.copy()
    wxs, wxf, wys, wyf = ws
    iso = None
    if c["kind"] == "perm" and es == ef == 0:
        r = g.rng(c["k"], 101)
        r.randn(nx, dx), r.randn(ny, dy)
        i, j = r.permutation(nx), r.permutation(dx)
        P0, Q0 = np.zeros((nx, nx)), np.zeros((dx, dx))
        P0[i, np.arange(nx)], Q0[j, np.arange(dx)] = ws[2], ws[3]
        iso = (P0, Q0)
    start = (np.outer(wxs, wys), np.outer(wxf, wyf))
    if c["warm"]:
        r = g.rng(c["k"], 102)
        start = (ot.emd(wxs, wys, r.rand(nx, ny)), ot.emd(wxf, wyf, r.rand(dx, dy))) if iso is None else iso
        kw["warmstart"] = dict(pi_sample=start[0].copy(), pi_feature=start[1].copy(), duals_sample=(np.zeros(nx), np.zeros(ny)), duals_feature=(np.zeros(dx), np.zeros(dy)))
    (P, Q, lg), bad = run(ot.coot.co_optimal_transport, X.copy(), Y.copy(), log=True, **kw)
    if bad:
        rec.skip("numerical breakdown")
        return
    P, Q = coupling(P, wxs, wys, 1e-6, "sample plan"), coupling(Q, wxf, wyf, 1e-6, "feature plan")
    rec.label("eps:%s" % (["00", "0+", "+0", "++"][2 * (es > 0) + (ef > 0)]), "linear terms" if as_ or af else "no linear terms", "warm" if c["warm"] else "cold")
    rec.nontrivial(min(c["s"]) > 1 and max(c["s"]) > 2 and max(np.abs(P - start[0]).max(), np.abs(Q - start[1]).max()) > 1e-6)

    def F(P, Q):
        v = cross(X, Y, P, Q)
        v += as_ * (P * Ms).sum() if as_ else 0
        v += af * (Q * Mf).sum() if af else 0
        return v + (es * Div(P, np.outer(wxs, wys), "kl") if es else 0) + (ef * Div(Q, np.outer(wxf, wyf), "kl") if ef else 0)
    val = F(P, Q)
    ds = [num(x) for x in lg["distances"]]
    full = c["it"] == 1 or c["ev"] == 1
    ensure(1 <= len(ds) <= -(-c["it"] // c["ev"]), "number of recorded costs %d" % len(ds))
    if full:
        close(ds[-1], val, 1e-6 * sc, "recorded cost is not the objective at the plans")
    leq(np.diff(ds), 0, 1e-6 * sc, "recorded cost increases")
    leq(ds[0], F(*start), 1e-6 * sc, "worse than the start")
    v2, l2 = run(ot.coot.co_optimal_transport2, X.copy(), Y.copy(), log=True, **kw)[0]
    close(num(v2), ds[-1], 1e-9 * sc, "value-only entry point")
    close(num(run(ot.coot.co_optimal_transport2, X.copy(), Y.copy(), **kw)[0]), ds[-1], 1e-9 * sc, "value depends on log")
    Z = run(ot.coot.co_optimal_transport, X.copy(), Y.copy(), **kw)[0]
    close(Z[0], P, 1e-9, "sample plan depends on log")
    close(Z[1], Q, 1e-9, "feature plan depends on log")
    # the feature plan is optimal given the sample plan
    C = local(X.T, Y.T, P) + (af * Mf if af else 0)
    if ef == 0:
        leq((C * Q).sum(), ref.lp_ot(wxf, wyf, C)[0], 1e-7 * sc, "feature plan is not optimal given the sample plan")
    else:
        W = ref.gibbs_ot(wxf, wyf, C, ef, prior=np.outer(wxf, wyf)) if "prior" in ref.gibbs_ot.__code__.co_varnames else None
        G = np.log(Q / np.outer(wxf, wyf)) + C / ef
        G = G - G.mean(1, keepdims=True) - G.mean(0, keepdims=True) + G.mean() if Q.min() > 1e-200 else 0 * C
        close(G, 0, 1e-4, "feature plan is not a Gibbs plan of its cost")
    # and the sample plan for the feature plan it was computed with (known for one iteration)
    if c["it"] == 1:
        C = local(X, Y, start[1]) + (as_ * Ms if as_ else 0)
        rec.label("one iteration")
        if es == 0:
            leq((C * P).sum(), ref.lp_ot(wxs, wys, C)[0], 1e-7 * sc, "sample plan is not optimal given the first feature plan")
        else:
            G = np.log(P / np.outer(wxs, wys)) + C / es
            G = G - G.mean(1, keepdims=True) - G.mean(0, keepdims=True) + G.mean() if P.min() > 1e-200 else 0 * C
            close(G, 0, 1e-4, "sample plan is not a Gibbs plan of its cost")
    if iso is not None and c["warm"] and not as_ and not af:
        rec.label("isomorphic")
        close(ds[-1], 0, 1e-7 * sc, "isomorphic matrices started at the isomorphism")
    # relabelling rows and columns of a solution
    if es == ef == 0:
        r = g.rng(c["k"], 103)
        p = [r.permutation(n) for n in c["s"]]
        k2 = dict(kw, warmstart=dict(pi_sample=P[np.ix_(p[0], p[2])], pi_feature=Q[np.ix_(p[1], p[3])], duals_sample=(np.zeros(nx), np.zeros(ny)), duals_feature=(np.zeros(dx), np.zeros(dy))))
        for n, w, q in zip(names, ws, p):
            k2[n] = w[q]
        if Ms is not None:
            k2["M_samp"] = Ms[np.ix_(p[0], p[2])]
        if Mf is not None:
            k2["M_feat"] = Mf[np.ix_(p[1], p[3])]
        leq(num(ot.coot.co_optimal_transport2(X[np.ix_(p[0], p[1])], Y[np.ix_(p[2], p[3])], **k2)), val, 1e-7 * sc, "relabelled problem started at the relabelled plans ends worse")


def gap(P, C, a, b, c, rx, ry, e, kind):
    """Primal minus dual objective of <C,P> + rx Div(P1|a) + ry Div(P'1|b) + e Div(P|c) at the potentials implied by P."""
    p1, p2 = P.sum(1), P.sum(0)
    prim = (C * P).sum() + rx * Div(p1, a, kind) + ry * Div(p2, b, kind) + (e * Div(P, c, kind) if e else 0)
    if kind == "kl":
        with np.errstate(divide="ignore"):
            f, h = -rx * np.log(p1 / a), -ry * np.log(p2 / b)
        f, h = np.minimum(f, 1e3 * (1 + np.abs(C).max())), np.minimum(h, 1e3 * (1 + np.abs(C).max()))
    else:
        f, h = -rx * (p1 - a), -ry * (p2 - b)
    if not e:
        d = (f[:, None] + h[None] - C).max()
        if d > 0:
            f = f - d
    D = (-rx * (a * np.expm1(-f / rx)).sum() - ry * (b * np.expm1(-h / ry)).sum()) if kind == "kl" else (f * a - f * f / (2 * rx)).sum() + (h * b - h * h / (2 * ry)).sum()
    if e:
        S = f[:, None] + h[None] - C
        D += -e * (c * np.expm1(S / e)).sum() if kind == "kl" else (-S * np.maximum(0, c + S / e) + e / 2 * (np.maximum(0, c + S / e) - c) ** 2).sum()
    return prim - D, abs(prim) + rx * (Div(0 * a, a, kind)) + ry * Div(0 * b, b, kind), prim


def underflow(C, r1, r2, ee):
    """Plan entries too small for the inner solvers' absolute stopping rules."""
    return np.abs(C).max() > 30 * ee if ee else np.abs(C).max() > 20 * min(r1, r2)


@st.composite
def un(draw):
    c = draw(mats(nmax=4))
    c.update(type=draw(st.sampled_from(["joint", "independent", "independent"])), div=draw(st.sampled_from(["kl", "kl", "l2"])), solver=draw(st.sampled_from(["sinkhorn", "sinkhorn_log", "mm", "mm", "lbfgsb"])), rho=draw(st.sampled_from([1.0, 0.3, 10.0, (0.5, 2.0), (3.0, 0.2)])),
             eps=draw(st.sampled_from([0, 0.3, (0.2, 1.0), (1.0, 0.1), (0.5, 0.0)])), it=draw(st.sampled_from([1, 1, 1, 3, 10])), rescale=draw(st.booleans()), init=draw(st.sampled_from([None, None, "random"])), duals=draw(st.sampled_from([None, None, "both", "samp", "feat"])), mass=draw(st.sampled_from([1.0, 1.0, 2.0])))
    return c


def sub(kind, typ, O, w1, w2, rx, ry, es):
    """Unbalanced OT subproblem of one plan given the other one, O: extra constant cost and scaled penalties / weights (from the definition of the divergences)."""
    (oa, ob), (a, b) = w1, w2
    o1, o2 = O.sum(1), O.sum(0)
    oc, c = np.outer(oa, ob), np.outer(a, b)
    if kind == "kl":
        pl = lambda x, y: np.where(x > 0, x * np.log(np.where(x > 0, x, 1) / y), 0).sum()
        add = rx * pl(o1, oa) + ry * pl(o2, ob) + (es * pl(O, oc) if typ == "joint" and es else 0)
        m = O.sum()
        return add, a, b, c, rx * m, ry * m, es * m if typ == "joint" else es
    s1, s2, s0 = (o1 ** 2).sum(), (o2 ** 2).sum(), (O ** 2).sum()
    if typ == "joint":
        c, es = c * (O * oc).sum() / s0, es * s0
    return 0.0, a * (o1 @ oa) / s1, b * (o2 @ ob) / s2, c, rx * s1, ry * s2, es


@facet(un(), 350, 20000)
def unbalanced(c, rec):
    """unbalanced_co_optimal_transport(2) / fused_unbalanced_across_spaces_divergence: reported costs = documented objective at the plans, each plan block-optimal (duality gap of the definition), entry points and log agree."""
    X, Y, ws, Ms, Mf, (as_, af) = unpack(c)
    ws = [w * c["mass"] for w in ws]
    wxs, wxf, wys, wyf = ws
    kind, typ = c["div"], c["type"]
    if kind == "l2" and c["solver"] in ("sinkhorn", "sinkhorn_log"):
        c = dict(c, solver="mm")
    two = lambda v: tuple(v) if isinstance(v, (tuple, list)) else (v, v)
    rx, ry = two(c["rho"])
    es, ef = two(c["eps"])
    sc = max(np.abs(X).max(), np.abs(Y).max(), 0.3) ** 2 * 4
    rx, ry, es, ef = rx * sc, ry * sc, es * sc, ef * sc
    if typ == "joint":
        ef = es
    sink = c["solver"] in ("sinkhorn", "sinkhorn_log") and es > 0 and ef > 0
    kw = dict(reg_marginals=(rx, ry), epsilon=(es, ef), divergence=kind, unbalanced_solver=c["solver"], alpha=tuple(c["al"]) if isinstance(c["al"], (tuple, list)) else c["al"], rescale_plan=c["rescale"], max_iter=c["it"], max_iter_ot=4000 if c["it"] == 1 else 1500, tol_ot=1e-12)
    for n, w, spec in zip(("wx_samp", "wx_feat", "wy_samp", "wy_feat"), ws, c["w"]):
        if spec is not None or c["kind"] == "perm" or c["mass"] != 1.0:
            kw[n] = w.copy()
    if Ms is not None:
        kw["M_samp"] = Ms.copy()
    if Mf is not None:
        kw["M_feat"] = Mf.copy()
    P0, Q0 = np.outer(wxs, wys), np.outer(wxf, wyf)
    r = g.rng(c["k"], 104)
    if c["init"]:
        P0, Q0 = (r.rand(*P0.shape) + 0.1) * 2 / P0.size, (r.rand(*Q0.shape) + 0.1) * 2 / Q0.size
        kw["init_pi"] = (P0.copy(), Q0.copy())
    if c["duals"] and sink:
        d = [(r.randn(len(wxs)) * 0.1, r.randn(len(wys)) * 0.1), (r.randn(len(wxf)) * 0.1, r.randn(len(wyf)) * 0.1)]
        kw["init_duals"] = (d[0] if c["duals"] != "feat" else None, d[1] if c["duals"] != "samp" else None)
    f = ot.gromov.fused_unbalanced_across_spaces_divergence
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            (P, Q, lg), _ = run(f, X.copy(), Y.copy(), reg_type=typ, log=True, **kw)
        except ValueError as e_:
            if "NaN in coupling" not in str(e_) or not (kind == "l2" or as_ or af or not c["rescale"] or (sink and c["solver"] == "sinkhorn" and min(es, ef) < 0.25 * sc)):
                raise
            rec.skip("a plan vanished")  # with the half-squared l2 penalty or with linear terms the empty plan can be optimal, which the library reports as an error
            return
        P, Q = arr(P, P0.shape), arr(Q, Q0.shape)
        Z = run(f, X.copy(), Y.copy(), reg_type=typ, **kw)[0]
        if typ == "independent":
            U = run(ot.gromov.unbalanced_co_optimal_transport, X.copy(), Y.copy(), log=True, **kw)[0]
            v2, l2 = run(ot.gromov.unbalanced_co_optimal_transport2, X.copy(), Y.copy(), log=True, **kw)[0]
            v1 = run(ot.gromov.unbalanced_co_optimal_transport2, X.copy(), Y.copy(), **kw)[0]
    if (as_ or af or kind == "l2") and not 1e-6 < P.sum() / max(Q.sum(), 1e-300) < 1e6:
        rec.skip("a plan vanished")
        return
    leq(-P, 0, 0, "negative sample plan")
    leq(-Q, 0, 0, "negative feature plan")
    rec.label(typ, kind, c["solver"], "linear terms" if as_ or af else "no linear terms", "rescaled" if c["rescale"] else "not rescaled")
    rec.nontrivial(min(c["s"]) > 1 and max(c["s"]) > 2)
    close(Z[0], P, 1e-9, "sample plan depends on log")
    close(Z[1], Q, 1e-9, "feature plan depends on log")

    def F(P, Q):
        v = cross(X, Y, P, Q) + (as_ * (P * Ms).sum() if as_ else 0) + (af * (Q * Mf).sum() if af else 0)
        for r_, i, u, w in ((rx, 1, wxs, wxf), (ry, 0, wys, wyf)):
            v += r_ * Div(np.outer(P.sum(i), Q.sum(i)), np.outer(u, w), kind)
        cs, cf = np.outer(wxs, wys), np.outer(wxf, wyf)
        if typ == "joint":
            return v + (es * Div(np.multiply.outer(P, Q), np.multiply.outer(cs, cf), kind) if es else 0)
        return v + (es * Div(P, cs, kind) if es else 0) + (ef * Div(Q, cf, kind) if ef else 0)
    val = F(P, Q)
    tot = abs(val) + (rx + ry + es + ef) * c["mass"] ** 2 + sc
    close(num(lg["linear_cost"]), cross(X, Y, P, Q), 1e-8 * tot, "reported transport cost")
    close(num(lg["ucoot_cost"]), val, 1e-8 * tot, "reported total cost is not the documented objective at the plans")
    if typ == "independent":
        close(U[0], P, 1e-9, "unbalanced_co_optimal_transport: sample plan")
        close(U[1], Q, 1e-9, "unbalanced_co_optimal_transport: feature plan")
        close(num(v2), num(lg["ucoot_cost"]), 1e-9 * tot, "value-only entry point")
        close(num(v1), num(lg["ucoot_cost"]), 1e-9 * tot, "value depends on log")
    # block optimality of the sample plan given the returned feature plan, undoing the rescaling
    mP, mQ = P.sum(), Q.sum()
    if c["solver"] == "lbfgsb" or mP < 1e-9 or mQ < 1e-9:
        return
    blocks = [("sample", P * mP / mQ if c["rescale"] else P, Q, X, Y, (wxf, wyf), (wxs, wys), es, as_ * Ms if as_ else 0)]
    if c["it"] == 1:
        m0 = P0.sum()
        blocks.append(("feature", Q * mQ / m0 if c["rescale"] else Q, P0, X.T, Y.T, (wxs, wys), (wxf, wyf), ef, af * Mf if af else 0))
    for name, T, O, A, B, w1, w2, e, lin in blocks:
        add, a, b, cc, r1, r2, ee = sub(kind, typ, O, w1, w2, rx, ry, e)
        C = local(A, B, O) + lin + add
        if underflow(C, r1, r2, ee):
            continue
        gp, size, _ = gap(T, C, a, b, cc, r1, r2, ee, kind)
        if ee and not sink:  # L-BFGS-B, which may stop early: it only has to improve on its start
            if c["it"] == 1:
                start = P0 if name == "sample" else Q0
                up = gap(T, C, a, b, cc, r1, r2, ee, kind)[2] - gap(start, C, a, b, cc, r1, r2, ee, kind)[2]
                if kind == "l2" and up > 1e-7 * size:
                    _, a, b, cc, r1, r2, ee = sub(kind, typ, start, w2, w2, rx, ry, e)
                    leq(gap(T, C, a, b, cc, r1, r2, ee, kind)[2], gap(start, C, a, b, cc, r1, r2, ee, kind)[2], 1e-7 * size, f"{name} plan is worse than its start given the other plan, also for the parameters of known finding l2-subproblem")
                    rec.known("ucoot-l2-subproblem", KN)
                    continue
                leq(up, 0, 1e-7 * size, f"{name} plan is worse than its start given the other plan")
            continue
        rec.label("gap %s" % name)
        leq(-gp, 0, 1e-7 * size, f"{name}: plan beats the dual bound (harness)")
        tol = (1e-3 if ee else 3e-2) * (size + sc)
        if kind == "l2" and gp > tol:
            # known finding: the subproblem's penalties are taken from the plan's own previous value and weights
            if c["it"] > 1:
                continue
            own = P0 if name == "sample" else Q0
            _, a, b, cc, r1, r2, ee = sub(kind, typ, own, w2, w2, rx, ry, e)
            gp = gap(T, C, a, b, cc, r1, r2, ee, kind)[0]
            leq(gp, 0, tol, f"{name} plan is neither optimal given the other plan nor for the parameters of known finding l2-subproblem")
            rec.known("ucoot-l2-subproblem", KN)
            continue
        leq(gp, 0, tol, f"{name} plan is not optimal given the other plan")


@st.composite
def fu(draw):
    n, m = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    return dict(n=n, m=m, Cx=draw(g.c_spec(n)), Cy=draw(g.c_spec(m)), wx=draw(st.one_of(st.none(), g.w_spec(n, zeros=False, skew=False))), wy=draw(st.one_of(st.none(), g.w_spec(m, zeros=False, skew=False))), k=draw(g.seeds), alpha=draw(st.sampled_from([0, 0, 0.5, 2.0])), div=draw(st.sampled_from(["kl", "kl", "l2"])),
                solver=draw(st.sampled_from(["sinkhorn", "sinkhorn_log", "mm", "mm"])), rho=draw(st.sampled_from([1.0, 0.3, 5.0, (0.5, 2.0)])), eps=draw(st.sampled_from([0, 0.05, 0.3, 1.0])), it=draw(st.sampled_from([1, 5, 40])), init=draw(st.booleans()), duals=draw(st.booleans()))


@facet(fu(), 220, 12000)
def fugw(c, rec):
    """fused_unbalanced_gromov_wasserstein(2): cost = documented lower-bound objective at the plans, sample plan block-optimal, equal masses on convergence, entry points and log agree."""
    Cx, Cy = g.mk_c(c["Cx"]), g.mk_c(c["Cy"])
    n, m = c["n"], c["m"]
    wx = np.ones(n) / n if c["wx"] is None else g.mk_w(c["wx"])
    wy = np.ones(m) / m if c["wy"] is None else g.mk_w(c["wy"])
    kind = c["div"]
    solver = "mm" if kind == "l2" else c["solver"]
    s = max(np.abs(Cx).max(), np.abs(Cy).max(), 0.3)
    sc = 4 * s * s
    rx, ry = (x * sc for x in (c["rho"] if isinstance(c["rho"], (tuple, list)) else (c["rho"], c["rho"])))
    e = c["eps"] * sc
    r = g.rng(c["k"], 105)
    M = r.rand(n, m) * sc if c["alpha"] else None
    al = c["alpha"]
    kw = dict(reg_marginals=(rx, ry), epsilon=e, divergence=kind, unbalanced_solver=solver, alpha=al, M=M, max_iter=c["it"], max_iter_ot=4000 if c["it"] == 1 else 1500, tol_ot=1e-12)
    if c["wx"] is not None:
        kw["wx"] = wx.copy()
    if c["wy"] is not None:
        kw["wy"] = wy.copy()
    if c["init"]:
        kw["init_pi"] = (r.rand(n, m) + 0.1) * 2 / n / m
    if c["duals"] and solver != "mm" and e > 0:
        kw["init_duals"] = (r.randn(n) * 0.1, r.randn(m) * 0.1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            (P, Q, lg), _ = run(ot.gromov.fused_unbalanced_gromov_wasserstein, Cx.copy(), Cy.copy(), log=True, **kw)
        except ValueError as e_:
            if "NaN in coupling" not in str(e_) or not (kind == "l2" or al):
                raise
            rec.skip("a plan vanished")
            return
        Z = run(ot.gromov.fused_unbalanced_gromov_wasserstein, Cx.copy(), Cy.copy(), **kw)[0]
        if M is not None:
            v2, l2 = run(ot.gromov.fused_unbalanced_gromov_wasserstein2, Cx.copy(), Cy.copy(), log=True, **kw)[0]
            close(num(v2), num(lg["fugw_cost"]), 1e-9 * (1 + abs(num(v2))), "value-only entry point")
    P, Q = arr(P, (n, m)), arr(Q, (n, m))
    close(Z[0], P, 1e-9, "sample plan depends on log")
    close(Z[1], Q, 1e-9, "feature plan depends on log")
    rec.label(kind, solver, "fused" if al else "plain")
    rec.nontrivial(min(n, m) > 1 and max(n, m) > 2)
    w = np.outer(wx, wy)
    val = cross(Cx, Cy, P, Q) + (al / 2 * ((P + Q) * M).sum() if al else 0) + rx * Div(np.outer(P.sum(1), Q.sum(1)), np.outer(wx, wx), kind) + ry * Div(np.outer(P.sum(0), Q.sum(0)), np.outer(wy, wy), kind)
    val += e * Div(np.multiply.outer(P, Q), np.multiply.outer(w, w), kind) if e else 0
    tot = abs(val) + rx + ry + e
    close(num(lg["linear_cost"]), cross(Cx, Cy, P, Q), 1e-8 * tot, "reported transport cost")
    close(num(lg["fugw_cost"]), val, 1e-8 * tot, "reported total cost is not the documented objective")
    mP, mQ = P.sum(), Q.sum()
    if min(mP, mQ) < 1e-9:
        return
    T = P * mP / mQ
    add, a, b, cc, r1, r2, ee = sub(kind, "joint", Q, (wx, wy), (wx, wy), rx, ry, e)
    C = local(Cx, Cy, Q) + add + (al / 2 * M if al else 0)
    if underflow(C, r1, r2, ee):
        return
    if ee and solver == "mm":
        return
    rec.label("gap")
    gp, size, _ = gap(T, C, a, b, cc, r1, r2, ee, kind)
    leq(-gp, 0, 1e-7 * size, "plan beats the dual bound (harness)")
    tol = (1e-3 if ee else 3e-2) * (size + sc)
    if kind == "l2" and gp > tol:
        if c["it"] == 1:
            own = kw.get("init_pi", w)
            _, a, b, cc, r1, r2, ee = sub(kind, "joint", own, (wx, wy), (wx, wy), rx, ry, e)
            leq(gap(T, C, a, b, cc, r1, r2, ee, kind)[0], 0, tol, "sample plan is neither optimal given the other plan nor for the parameters of known finding l2-subproblem")
            rec.known("ucoot-l2-subproblem", KN)
        return
    leq(gp, 0, tol, "sample plan is not optimal given the other plan")
    if kind == "kl" and not al and num(lg["error"][-1]) < 1e-7:
        rec.label("converged")
        close(mP, mQ, 1e-3 * max(mP, mQ), "masses differ on convergence")
