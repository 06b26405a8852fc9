"""C06: sliced distances and sliced plans equal their 1-D definition."""
import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from checks.c05 import geo
from core import FACETS, arr, close, coupling, ensure, facet, leq, num

FACETS.clear()
META = {
    "rule": "non-trivial when both sides have >=2 distinct samples and at least 2 directions",
    "assumptions": ["weights sum to one", "spherical distances compared at 2e-5 on the p-th power (binary search tolerance)"],
}


@st.composite
def case(draw, dmin=1):
    n, m, d = draw(g.sizes(1, 8, 30, 0.1)), draw(g.sizes(1, 8, 30, 0.1)), draw(st.integers(dmin, 4))
    k = draw(st.integers(1, 6))
    same = draw(st.booleans())
    if same:
        m = n
    return dict(x=draw(g.x_spec(n, d)), y=draw(g.x_spec(m, d)), a=draw(st.one_of(st.none(), g.w_spec(n))), b=draw(st.one_of(st.none(), g.w_spec(m))),
                k=k, pk=draw(g.seeds), given=draw(st.sampled_from(["proj", "seed", "state"])), p=draw(g.around([1, 2, 3, 1.5], 1, 4)),
                metric=draw(st.sampled_from(["sqeuclidean", "euclidean", "cityblock", "minkowski"])), dense=draw(st.booleans()), batch=draw(st.sampled_from([None, 1, 3, 100])),
                beta=draw(st.sampled_from([0.0, 0.0, 0.7, 5.0])), npdef=draw(st.booleans()))


def unpack(c):
    X, Y = g.mk_x(c["x"]), g.mk_x(c["y"])
    a = None if c["a"] is None else g.mk_w(c["a"])
    b = None if c["b"] is None else g.mk_w(c["b"])
    A, B = (np.ones(len(X)) / len(X) if a is None else a), (np.ones(len(Y)) / len(Y) if b is None else b)
    r = g.rng(c["pk"], 7)
    P = r.randn(X.shape[1], c["k"])
    P /= np.sqrt((P ** 2).sum(0))
    return X, Y, a, b, A, B, P


def seed_of(c):
    return c["pk"] if c["given"] == "seed" else np.random.RandomState(c["pk"])


def nontriv(rec, X, Y, c):
    rec.nontrivial(len(np.unique(X, axis=0)) > 1 and len(np.unique(Y, axis=0)) > 1 and c["k"] > 1)


@facet(case(), 800, 30000)
def sliced(c, rec):
    """SWD / max-SWD = aggregate of exact 1-D costs of the projected samples; symmetric; zero on itself; function of the seed."""
    X, Y, a, b, A, B, P = unpack(c)
    nontriv(rec, X, Y, c)
    rec.label("given:" + c["given"])
    p = c["p"]
    F, Fm = ot.sliced_wasserstein_distance, ot.max_sliced_wasserstein_distance
    kw = dict(projections=P) if c["given"] == "proj" else dict(n_projections=c["k"])
    if c["given"] == "proj" and c["npdef"]:
        kw["n_projections"] = 37  # documented as unused when projections are given
    sd = lambda: {} if c["given"] == "proj" else dict(seed=seed_of(c))
    v, lg = F(X, Y, a, b, p=p, log=True, **kw, **sd())
    Q = arr(lg["projections"], (X.shape[1], c["k"]), what="log['projections']")
    if c["given"] == "proj":
        close(Q, P, 0, "projections in the log")
    close((Q ** 2).sum(0), 1, 1e-9, "projections are not unit vectors")
    w = np.array([ref.w1d(X @ Q[:, k], Y @ Q[:, k], A, B, p)[0] for k in range(c["k"])])
    s = max(1.0, w.max())
    close(arr(lg["projected_emds"], (c["k"],)), w, 1e-9 * s, "projected_emds")
    close(num(v) ** p, w.mean(), 1e-9 * s, "SWD^p is not the mean of the projected costs")
    close(num(F(X, Y, a, b, p=p, **kw, **sd())), num(v), 0, "not a function of the seed")
    vm, lm = Fm(X, Y, a, b, p=p, log=True, **kw, **sd())
    close(arr(lm["projections"], Q.shape), Q, 0, "max-SWD uses other projections for the same seed")
    close(num(vm) ** p, w.max(), 1e-9 * s, "max-SWD^p is not the maximum of the projected costs")
    close(num(F(Y, X, b, a, p=p, **kw, **sd())), num(v), 1e-7 * s, "SWD is not symmetric")
    q = g.rng(c["pk"], 8).permutation(len(X))
    close(num(F(X, X[q], a, None if a is None else a[q], p=p, **kw, **sd())) ** p, 0, 1e-9 * s, "SWD between identical measures")


def true_cost(X, Y, G, c):
    C = ref.cost_matrix(X, Y, c["metric"], p=c["p"])
    return float((G * C).sum()), C


@facet(case(), 700, 25000)
def plans(c, rec):
    """Sliced plans: each is a coupling optimal for its projection; costs are those of the plans under the metric; min/expected plans consistent, dense = sparse, any batch size."""
    X, Y, a, b, A, B, P = unpack(c)
    nontriv(rec, X, Y, c)
    rec.label("metric:" + c["metric"], "weights" if (a is not None or b is not None or len(X) != len(Y)) else "perm")
    kw = dict(projections=P) if c["given"] == "proj" else dict(n_projections=c["k"], seed=c["pk"])
    pl, costs, lg = ot.sliced.sliced_plans(X, Y, a, b, metric=c["metric"], p=c["p"], batch_size=c["batch"], log=True, **kw)
    Q = arr(lg["projections"], (X.shape[1], c["k"]))
    ensure(len(pl) == c["k"] and len(costs) == c["k"], "wrong number of plans")
    Gs = []
    C = ref.cost_matrix(X, Y, c["metric"], p=c["p"])
    s = max(1e-9, C.max())
    for k in range(c["k"]):
        G = np.zeros(C.shape)
        np.add.at(G, (np.asarray(pl[k].rows), np.asarray(pl[k].cols)), np.asarray(pl[k].data))
        coupling(G, A, B, 1e-9, f"plan {k}")
        u, v = X @ Q[:, k], Y @ Q[:, k]
        close((G * (u[:, None] - v[None]) ** 2).sum(), ref.w1d(u, v, A, B, 2)[0], 1e-8 * max(1, ((u[:, None] - v[None]) ** 2).max()), f"plan {k} is not optimal for its projection")
        close(num(costs[k]), (G * C).sum(), 1e-9 * s, f"cost {k} is not the cost of plan {k}")
        Gs.append(G)
    co = np.array([(G * C).sum() for G in Gs])
    G, v, l2 = ot.min_sliced_transport_plan(X, Y, a, b, metric=c["metric"], p=c["p"], dense=c["dense"], batch_size=c["batch"], log=True, **kw)
    G = coupling(G, A, B, 1e-9, "min-sliced plan")
    close(num(v), (G * C).sum(), 1e-9 * s, "min-sliced cost is not the cost of its plan")
    close(num(v), co.min(), 1e-9 * s, "min-sliced cost is not the minimum over the directions")
    leq(ref.lp_ot(A, B, C)[0], num(v), 1e-8 * s, "min-sliced cost below exact OT")
    ensure(any(np.allclose(l2["min_projection"], Q[:, k]) and abs(co[k] - co.min()) <= 1e-9 * s for k in range(c["k"])), "min_projection does not attain the minimum")
    out = ot.expected_sliced_plan(X, Y, a, b, metric=c["metric"], p=c["p"], dense=c["dense"], beta=c["beta"], batch_size=c["batch"], log=True, **kw)
    E = coupling(out[0], A, B, 1e-9, "expected plan")
    w = np.exp(-c["beta"] * (co - co.min()))
    w /= w.sum()
    close(E, sum(wk * Gk for wk, Gk in zip(w, Gs)), 1e-8, "expected plan is not the weighted average of the plans")
    close(num(out[1]), (E * C).sum(), 1e-8 * s, "expected cost is not the cost of the expected plan")
    out2 = ot.expected_sliced_plan(X, Y, a, b, metric=c["metric"], p=c["p"], dense=not c["dense"], beta=c["beta"], **kw)
    close(coupling(out2[0], A, B, 1e-9, "expected plan"), E, 1e-9, "dense and sparse expected plans differ")
    close(num(out2[1]), num(out[1]), 1e-9 * s, "dense and sparse expected costs differ")


@facet(case(dmin=2), 120, 4000, weight=8)
def sphere(c, rec):
    """Spherical sliced distances = power mean of circular costs of the projected coordinates; uniform and linear versions too."""
    X, Y, a, b, A, B, _ = unpack(c)
    r = g.rng(c["pk"], 12)
    X = X + 1e-3 * r.randn(*X.shape)
    Y = Y + 1e-3 * r.randn(*Y.shape)
    X, Y = X / np.linalg.norm(X, axis=1, keepdims=True), Y / np.linalg.norm(Y, axis=1, keepdims=True)
    d, K, p = X.shape[1], c["k"], c["p"]
    nontriv(rec, X, Y, c)
    P = np.stack([np.linalg.qr(r.randn(d, 2))[0] for _ in range(K)])
    kw = dict(projections=P) if c["given"] == "proj" else dict(n_projections=K)
    if c["given"] == "proj" and not c["npdef"]:
        kw["n_projections"] = K
    sd = lambda: {} if c["given"] == "proj" else dict(seed=seed_of(c))
    v, lg = ot.sliced_wasserstein_sphere(X, Y, a, b, p=p, log=True, **kw, **sd())
    Q = arr(lg["projections"], (K, d, 2))
    close(np.einsum("kia,kib->kab", Q, Q), np.broadcast_to(np.eye(2), (K, 2, 2)), 1e-8, "projections are not orthonormal frames")

    def coord(Z):
        U = np.einsum("kij,li->klj", Q, Z)
        return (np.arctan2(-U[..., 1], -U[..., 0]) + np.pi) / (2 * np.pi)
    cx, cy = coord(X), coord(Y)
    w = np.array([ref.lp_ot(A, B, geo(cx[k], cy[k], p))[0] for k in range(K)])
    close(arr(lg["projected_emds"], (K,)), w, 2e-5, "projected circular costs")
    close(num(v) ** p, w.mean(), 2e-5, "SSW^p is not the mean of the circular costs")
    close(num(ot.sliced_wasserstein_sphere(Y, X, b, a, p=p, **kw, **sd())) ** p, w.mean(), 2e-5, "SSW is not symmetric")
    vu, lu = ot.sliced_wasserstein_sphere_unif(X, a, log=True, **kw, **sd())
    ws = np.array([float(ot.semidiscrete_wasserstein2_unif_circle(cx[k], a)[0]) for k in range(K)])
    close(num(vu) ** 2, ws.mean(), 1e-9, "uniform spherical distance")
    vl = num(ot.linear_sliced_wasserstein_sphere(X, Y, a, b, **kw, **sd()))
    wl = np.array([float(ot.linear_circular_ot(cx[k], cy[k], a, b)[0]) for k in range(K)])
    close(vl ** 2, wl.mean(), 1e-9, "linear spherical distance")
    v0 = num(ot.linear_sliced_wasserstein_sphere(X, None, a, **kw, **sd()))
    w0 = np.array([float(ot.linear_circular_ot(cx[k], None, a)[0]) for k in range(K)])
    close(v0 ** 2, w0.mean(), 1e-9, "linear spherical distance to the uniform measure")
    close(num(ot.linear_sliced_wasserstein_sphere(X, X, a, a, **kw, **sd())), 0, 1e-9, "linear spherical distance to itself")
