"""C13: one-dimensional and sliced unbalanced OT."""
import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from checks.c04 import coinciding
from checks.c11 import INF, mk_rm, pairs
from core import FACETS, arr, close, ensure, facet, leq, num

FACETS.clear()
META = {
    "backends": ["torch"],
    "rule": "non-trivial when both measures have >=2 atoms (sliced: and >=2 directions)",
    "assumptions": ["positive weights", "torch only (documented: needs automatic differentiation)", "dual feasibility where cost/penalty <= 20 (beyond, reweighted masses fall below rounding)", "optimality judged by the duality gap of the returned potentials; a gap is required to be small only after 100 steps and penalties >= 0.5"],
}


@st.composite
def one(draw):
    n, m, K = draw(st.integers(1, 7)), draw(st.integers(1, 7)), draw(st.integers(1, 3))
    return dict(n=n, m=m, K=K, d=draw(st.integers(1, 3)), a=draw(st.one_of(st.none(), g.w_spec(n, zeros=False, skew=False))), b=draw(st.one_of(st.none(), g.w_spec(m, zeros=False, skew=False))), ma=draw(st.sampled_from([1.0, 0.4, 3.0])),
                mb=draw(st.sampled_from([1.0, 2.0])), rm=draw(pairs()), form=draw(st.sampled_from(["scalar", "tuple"])), p=draw(g.around([1, 2, 3], 1, 4)), k=draw(g.seeds), kind=draw(st.sampled_from(["gauss", "grid"])), flat=draw(st.booleans()), it=draw(st.sampled_from([1, 10, 100])),
                which=draw(st.sampled_from(["uot", "uot", "suot", "usot"])), cost=draw(st.sampled_from(["linear", "total"])), presort=draw(st.booleans()))


@facet(one(), 400, 16000)
def one_dimensional(c, rec):
    """uot_1d / sliced variants: potentials dual feasible, reported costs are those of the returned marginals, objective within the duality gap; batching equals columns; sliced = mean over directions."""
    import torch
    r = g.rng(c["k"], 56)
    n, m, K, p = c["n"], c["m"], c["K"], c["p"]
    (r1, r2), rm = mk_rm(c)
    A = None if c["a"] is None else g.mk_w(c["a"], c["ma"])
    B = None if c["b"] is None else g.mk_w(c["b"], c["mb"])
    a = np.ones(n) / n if A is None else A
    b = np.ones(m) / m if B is None else B
    if r1 == INF and r2 == INF:
        b = b / b.sum() * a.sum()
        B = b
    gen = (lambda *s: r.randint(-2, 3, s).astype(float)) if c["kind"] == "grid" else (lambda *s: r.randn(*s))
    t = lambda x: None if x is None else torch.tensor(x)
    rec.label(c["which"], "p=%d" % p)

    def dual(f, h):
        v = (a * f).sum() if r1 == INF else r1 * (a * -np.expm1(-f / r1)).sum()
        return v + ((b * h).sum() if r2 == INF else r2 * (b * -np.expm1(-h / r2)).sum())

    def primal(u, v, lin):
        return lin + (0 if r1 == INF else r1 * ref.kl(u, a)) + (0 if r2 == INF else r2 * ref.kl(v, b))

    s = 1 + a.sum() * 3 ** p + b.sum() + sum(x for x in (r1, r2) if x != INF)
    if c["which"] == "uot":
        X, Y = gen(n, K), gen(m, K)
        if c["flat"]:
            X, Y, K = X[:, 0], Y[:, 0], 1
        if c["presort"]:
            X, Y = np.sort(X, 0), np.sort(Y, 0)
        u, v, cost, lg = ot.unbalanced.uot_1d(t(X), t(Y), rm, t(A), t(B), p=p, numItermax=c["it"], returnCost=c["cost"], log=True, require_sort=not c["presort"])
        X, Y = X.reshape(n, K), Y.reshape(m, K)
        u, v = arr(u).reshape(n, K), arr(v).reshape(m, K)
        f, h = arr(lg["f"]).reshape(n, K), arr(lg["g"]).reshape(m, K)
        lin, tot, cost = arr(lg["linear_cost"]).reshape(K), arr(lg["total_cost"]).reshape(K), arr(cost).reshape(K)
        s = s * max(1.0, u.sum(), np.abs(tot).max())
        close(cost, lin if c["cost"] == "linear" else tot, 1e-12 * s, "returned cost")
        rec.nontrivial(n > 1 and m > 1)
        for k in range(K):
            D = np.abs(X[:, k][:, None] - Y[:, k][None]) ** p
            viol = (f[:, k][:, None] + h[:, k][None] - D).max()
            if viol > 1e-8 * s and coinciding(X[:, k], Y[:, k], a, b):
                rec.known("uot-1d-coinciding-levels", "infeasible potentials")
                tied = True
            elif viol > 1e-8 * s and D.max() > 20 * min(r1, r2):
                rec.label("weights underflow")  # exp(-cost/penalty) below rounding: cumulated weights coincide numerically
                tied = True
            else:
                tied = False
                leq(viol, 0, 1e-8 * s, "potentials are not dual feasible")
            close(u[:, k].sum(), v[:, k].sum(), 1e-8 * s, "marginals of different mass")
            if r1 == INF:
                close(u[:, k], a, 1e-9 * s, "source marginal with infinite penalty")
            else:
                close(u[:, k], a * np.exp(-f[:, k] / r1), 1e-9, "source marginal is not a exp(-f/rho)", rtol=1e-8)
            if r2 == INF:
                close(v[:, k], b, 1e-9 * s, "target marginal with infinite penalty")
            else:
                close(v[:, k], b * np.exp(-h[:, k] / r2), 1e-9, "target marginal is not b exp(-g/rho)", rtol=1e-8)
            w = ref.w1d(X[:, k], Y[:, k], u[:, k], v[:, k], p)[0]
            close(lin[k], w, 1e-7 * s, "linear cost is not the OT cost of the returned marginals")
            P = primal(u[:, k], v[:, k], w)
            close(tot[k], P, 1e-7 * s, "total cost is not the objective of the returned marginals")
            d = dual(f[:, k], h[:, k])
            if not tied:
                leq(d, P, 1e-7 * s, "weak duality fails")
            if c["it"] == 100 and min(r1, r2) >= 0.5:
                leq(P - d, 0, 0.2 * s, "large duality gap after 100 Frank-Wolfe steps")
            if r1 == INF and r2 == INF:
                close(P, ref.w1d(X[:, k], Y[:, k], a, b, p)[0], 1e-8 * s, "balanced limit")
        return
    d = c["d"]
    X, Y = gen(n, d), gen(m, d)
    th = r.randn(d, K)
    th /= np.linalg.norm(th, axis=0)
    # rounding decides the order of (nearly) coinciding cumulated weights
    shaky = max(np.abs((X @ th)[:, None] - (Y @ th)[None]).max() ** p / r for r in (r1, r2)) > 20 or any(coinciding(X @ th[:, k], Y @ th[:, k], a, b) for k in range(K))
    if c["which"] == "suot":
        val, lg = ot.sliced_unbalanced_ot(t(X), t(Y), rm, t(A), t(B), p=p, projections=t(th), numItermax=c["it"], log=True)
        ones = [ot.unbalanced.uot_1d(t(X @ th[:, k]), t(Y @ th[:, k]), rm, t(A), t(B), p=p, numItermax=c["it"], returnCost="total") for k in range(K)]
        per = [num(o[2]) for o in ones]
        s = s * max(1.0, np.abs(per).max())
        rec.label("coinciding levels" if shaky else "generic")
        close(num(val), arr(lg["projected_uots"], (K,)).mean(), 1e-8 * s, "sliced value is not the mean over the directions")
        if not shaky:
            for i, w, sz in ((0, "a_reweighted", n), (1, "b_reweighted", m)):
                close(arr(lg[w], (sz, K)), np.stack([arr(o[i], (sz,)) for o in ones], 1), 1e-8 * s, f"{w} per direction", rtol=1e-6)
            close(num(val), np.mean(per), 1e-8 * s, "sliced value is not the mean over the directions")
            close(arr(lg["projected_uots"], (K,)), per, 1e-8 * s, "per-direction values")
        for f in (ot.sliced_unbalanced_ot, ot.unbalanced_sliced_ot):
            q = [f(t(X), t(Y), rm, t(A), t(B), p=p, n_projections=K, seed=c["k"] % 1000, numItermax=c["it"], log=True) for _ in range(2)]
            P = arr(q[0][-1]["projections"], (d, K))
            close((P ** 2).sum(0), 1, 1e-9, "random directions are not unit vectors")
            close(num(q[0][-2]), num(q[1][-2]), 1e-12 * s, "same seed, different value")
            q = f(t(X), t(Y), rm, t(A), t(B), p=p, projections=t(P), numItermax=c["it"], log=True)
            close(num(q[-2]), num(f(t(X), t(Y), rm, t(A), t(B), p=p, n_projections=K, seed=c["k"] % 1000, numItermax=c["it"], log=True)[-2]), 1e-9 * s, "value for its own random directions")
        rec.nontrivial(K > 1 and n > 1)
        return
    u, v, tot, lg = ot.unbalanced.unbalanced_sliced_ot(t(X), t(Y), rm, t(A), t(B), p=p, projections=t(th), numItermax=c["it"], log=True)
    u, v = arr(u, (n,)), arr(v, (m,))
    rec.nontrivial(K > 1 and n > 1)
    s = s * max(1.0, u.sum(), abs(num(tot)))
    close(u.sum(), v.sum(), 1e-8 * s, "marginals of different mass")
    lin = np.mean([ref.w1d(X @ th[:, k], Y @ th[:, k], u, v, p)[0] for k in range(K)])
    close(num(lg["sot_loss"]), lin, 1e-7 * s, "linear part is not the sliced cost of the returned marginals")
    close(num(tot), primal(u, v, lin), 1e-7 * s, "total cost is not the objective of the returned marginals")
    if r1 == INF:
        close(u, a, 1e-9 * s, "source marginal with infinite penalty")
    if r2 == INF:
        close(v, b, 1e-9 * s, "target marginal with infinite penalty")
    if r1 != INF and r2 != INF:
        f, h = -r1 * np.log(u / a), -r2 * np.log(v / b)
        dd = dual(f, h)
        if shaky:
            rec.label("coinciding levels")
            return
        leq(dd, num(tot), 1e-7 * s, "weak duality fails")
        if c["it"] == 100 and min(r1, r2) >= 0.5:
            leq(num(tot) - dd, 0, 0.2 * s, "large duality gap after 100 Frank-Wolfe steps")
