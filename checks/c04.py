"""C04: one-dimensional OT is exact."""
import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from core import arr, close, coupling, ensure, facet, num

META = {
    "backends": ["torch"],
    "rule": "non-trivial when both sides have >=2 atoms; labels count ties, zero weights and batched shapes",
    "assumptions": ["equal masses up to rounding", "oracle: two-pointer monotone sweep, itself cross-checked with the HiGHS LP"],
}

KX = ("gauss", "grid", "dup", "far")


@st.composite
def case(draw):
    n, m = draw(g.sizes(1, 9, 60, 0.15)), draw(g.sizes(1, 9, 60, 0.15))
    return dict(x=draw(g.x_spec(n, 1, KX)), y=draw(g.x_spec(m, 1, KX)), a=draw(st.one_of(st.none(), g.w_spec(n))), b=draw(st.one_of(st.none(), g.w_spec(m))),
                metric=draw(st.sampled_from(["sqeuclidean", "cityblock", "euclidean", "minkowski"])), p=draw(g.around([1, 1.0, 1.5, 2, 3, 5], 1, 5)),
                dim=draw(st.sampled_from([1, 2])), kind=draw(st.sampled_from(["arr", "list", "f32"])), mass=draw(st.sampled_from([1.0, 1.0, 4.0])), dense=draw(st.booleans()))


def unpack(c):
    x, y = g.mk_x(c["x"]).ravel(), g.mk_x(c["y"]).ravel()
    both = c["a"] is not None and c["b"] is not None
    ms = c["mass"] if both else 1.0
    a = None if c["a"] is None else g.mk_w(c["a"], ms)
    b = None if c["b"] is None else g.mk_w(c["b"], ms)
    A = np.ones(len(x)) / len(x) if a is None else a
    B = np.ones(len(y)) / len(y) if b is None else b
    return x, y, a, b, A, B


def expo(c):
    return {"sqeuclidean": 2, "cityblock": 1, "euclidean": 1}.get(c["metric"], c["p"])


@facet(case(), 3000, 120000)
def emd_1d(c, rec):
    """emd_1d/emd2_1d: optimal monotone coupling for |x-y|^p, dense or sparse, lists or arrays, (n,) or (n,1) inputs."""
    x, y, a, b, A, B = unpack(c)
    rec.label("zero" if (A == 0).any() or (B == 0).any() else "pos", "ties" if len(set(x)) < len(x) else "noties")
    rec.nontrivial(len(x) > 1 and len(y) > 1)
    p = expo(c)
    X, Y = (x, y) if c["dim"] == 1 else (x[:, None], y[:, None])
    if c["kind"] == "list":
        X, Y = X.tolist(), Y.tolist()
        a, b = None if a is None else a.tolist(), None if b is None else b.tolist()
    G, lg = ot.emd_1d(X, Y, a, b, metric=c["metric"], p=c["p"], dense=c["dense"], log=True)
    G = coupling(G, A, B, 1e-9 * A.sum(), "emd_1d plan")
    C = np.abs(x[:, None] - y[None]) ** p
    s = max(1e-12, C.max()) * A.sum()
    v, P = ref.w1d(x, y, A, B, p)
    close((G * C).sum(), v, 1e-9 * s, "cost of the plan is not the optimum")
    close(num(lg["cost"]), v, 1e-9 * s, "reported cost")
    close(num(ot.emd2_1d(X, Y, a, b, metric=c["metric"], p=c["p"])), v, 1e-9 * s, "emd2_1d")
    v3, l3 = ot.emd2_1d(X, Y, a, b, metric=c["metric"], p=c["p"], log=True, dense=c["dense"])
    close(coupling(l3["G"], A, B, 1e-9 * A.sum(), "emd2_1d plan"), G, 1e-12 * A.sum(), "emd2_1d log plan")
    if len(x) * len(y) <= 25:
        close(v, ref.lp_ot(A, B, C)[0], 1e-8 * s, "reference sweep differs from the LP")


@st.composite
def batched(draw, nd=True):
    n, m = draw(g.sizes(1, 7, 30, 0.15)), draw(g.sizes(1, 7, 30, 0.15))
    shape = draw(st.sampled_from([[], [1], [2], [3]] + ([[2, 2], [2, 3]] if nd else [])))
    k = int(np.prod(shape)) if shape else 1
    wk = draw(st.sampled_from(["none", "shared", "own"])) if len(shape) <= 1 else draw(st.sampled_from(["none", "own"]))
    return dict(n=n, m=m, shape=shape, xs=[draw(g.x_spec(n, 1, KX)) for _ in range(k)], ys=[draw(g.x_spec(m, 1, KX)) for _ in range(k)], wk=wk,
                a=[draw(g.w_spec(n)) for _ in range(k if wk == "own" else 1)], b=[draw(g.w_spec(m)) for _ in range(k if wk == "own" else 1)],
                p=draw(g.around([1, 1.0, 1.5, 2, 3], 1, 4)), plans=draw(st.sampled_from([False, True, "coo_tuple"])), k=draw(g.seeds))


def unpackb(c):
    n, m, sh = c["n"], c["m"], c["shape"]
    X = np.stack([g.mk_x(s).ravel() for s in c["xs"]], 1).reshape([n] + sh)
    Y = np.stack([g.mk_x(s).ravel() for s in c["ys"]], 1).reshape([m] + sh)
    if c["wk"] == "none":
        return X, Y, None, None, np.full(X.shape, 1 / n), np.full(Y.shape, 1 / m)
    a, b = np.stack([g.mk_w(s) for s in c["a"]], 1), np.stack([g.mk_w(s) for s in c["b"]], 1)
    if c["wk"] == "shared":
        return X, Y, a[:, 0], b[:, 0], np.broadcast_to(a[:, :1].reshape([n] + [1] * len(sh)), X.shape), np.broadcast_to(b[:, :1].reshape([m] + [1] * len(sh)), Y.shape)
    a, b = a.reshape([n] + sh), b.reshape([m] + sh)
    return X, Y, a, b, a, b


@facet(batched(nd=False), 1500, 60000)
def wasserstein_1d(c, rec):
    """wasserstein_1d (numpy: at most one batch axis): every column equals the stand-alone optimum; order-free; sorted input accepted; plans optimal."""
    X, Y, a, b, A, B = unpackb(c)
    n, m, sh = c["n"], c["m"], c["shape"]
    rec.label("ndim%d" % len(sh), "w:" + c["wk"], "plans:%s" % c["plans"])
    rec.nontrivial(n > 1 and m > 1)
    p = c["p"]
    x2, y2, a2, b2 = (z.reshape(z.shape[0], -1) for z in (X, Y, A, B))
    K = x2.shape[1]
    vals = np.array([ref.w1d(x2[:, k], y2[:, k], a2[:, k], b2[:, k], p)[0] for k in range(K)])
    s = np.array([max(1e-12, np.abs(x2[:, k][:, None] - y2[:, k][None]).max() ** p) for k in range(K)])
    out = ot.wasserstein_1d(X, Y, a, b, p=p)
    close(arr(out, sh).ravel(), vals, 1e-9 * s, "value")
    if c["plans"]:
        out, plans = ot.wasserstein_1d(X, Y, a, b, p=p, return_plans=c["plans"])
        close(arr(out, sh).ravel(), vals, 1e-9 * s, "value with return_plans")
        ensure(len(plans) == K, "%d plans for %d columns", len(plans), K)
        for k, G in enumerate(plans):
            if c["plans"] == "coo_tuple":
                import scipy.sparse as sp
                G = sp.coo_matrix((np.asarray(G.data), (np.asarray(G.rows), np.asarray(G.cols))), shape=(n, m))
            G = coupling(G, a2[:, k], b2[:, k], 1e-9, f"plan {k}")
            close((G * np.abs(x2[:, k][:, None] - y2[:, k][None]) ** p).sum(), vals[k], 1e-9 * s[k], f"cost of plan {k}")
    r = g.rng(c["k"])
    q = r.permutation(n)
    perm = ot.wasserstein_1d(X[q], Y, None if a is None else a[q], b, p=p)
    close(arr(perm, sh).ravel(), vals, 1e-9 * s, "value changes with the order of the samples")
    i, j = np.argsort(X, 0), np.argsort(Y, 0)
    srt = ot.wasserstein_1d(np.take_along_axis(X, i, 0), np.take_along_axis(Y, j, 0), np.take_along_axis(np.array(A), i, 0), np.take_along_axis(np.array(B), j, 0), p=p, require_sort=False)
    close(arr(srt, sh).ravel(), vals, 1e-9 * s, "value on pre-sorted data (require_sort=False)")
    close(arr(ot.wasserstein_1d(Y, X, b, a, p=p), sh).ravel(), vals, 1e-9 * s, "value is not symmetric")
    if c["plans"]:
        _, plans = ot.wasserstein_1d(np.take_along_axis(X, i, 0), np.take_along_axis(Y, j, 0), np.take_along_axis(np.array(A), i, 0), np.take_along_axis(np.array(B), j, 0),
                                     p=p, require_sort=False, return_plans=True)
        for k, G in enumerate(plans):
            coupling(G, np.take_along_axis(a2, i.reshape(n, -1), 0)[:, k], np.take_along_axis(b2, j.reshape(m, -1), 0)[:, k], 1e-9, f"plan {k} on pre-sorted data")


def coinciding(x, y, a, b):
    """Do interior cumulated (normalised) weights of the two measures coincide?"""
    ca, cb = np.cumsum(a[np.argsort(x)])[:-1] / a.sum(), np.cumsum(b[np.argsort(y)])[:-1] / b.sum()
    return len(ca) > 0 and len(cb) > 0 and np.abs(ca[:, None] - cb[None]).min() < 1e-12


@facet(batched(), 300, 8000, weight=4)
def dual_backprop(c, rec):
    """emd_1d_dual_backprop (torch): loss exact, <f,a>+<g,b> = loss; f+g <= cost and tight when the weights are generic."""
    import torch
    X, Y, a, b, A, B = unpackb(c)
    rec.nontrivial(c["n"] > 1 and c["m"] > 1)
    t = lambda z: None if z is None else torch.tensor(np.array(z))
    p = c["p"]
    f, h, v = ot.lp.emd_1d_dual_backprop(t(X), t(Y), t(a), t(b), p=p)
    f, h, v = arr(f, X.shape), arr(h, Y.shape), arr(v, tuple(c["shape"]))
    x2, y2, a2, b2, f2, h2 = (z.reshape(z.shape[0], -1) for z in (X, Y, A, B, f, h))
    for k in range(x2.shape[1]):
        C = np.abs(x2[:, k][:, None] - y2[:, k][None]) ** p
        s = max(1e-12, C.max())
        val = ref.w1d(x2[:, k], y2[:, k], a2[:, k], b2[:, k], p)[0]
        close(v.ravel()[k], val, 1e-9 * s, "loss")
        close(f2[:, k] @ a2[:, k] + h2[:, k] @ b2[:, k], val, 1e-8 * s, "dual value differs from the loss")
        generic = (a2[:, k] > 0).all() and (b2[:, k] > 0).all() and len(set(x2[:, k])) == len(x2) and len(set(y2[:, k])) == len(y2)
        if generic and (C - f2[:, k][:, None] - h2[:, k][None]).min() < -1e-8 * s and coinciding(x2[:, k], y2[:, k], a2[:, k], b2[:, k]):
            rec.known("dual-backprop-coinciding-levels", "infeasible potentials")
        elif generic:
            rec.label("generic")
            ensure((C - f2[:, k][:, None] - h2[:, k][None]).min() >= -1e-8 * s, "dual potentials are infeasible by %g", -(C - f2[:, k][:, None] - h2[:, k][None]).min())
