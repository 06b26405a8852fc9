"""C35: BSP-OT bijections are valid, reproducible, and never worse than the bijections they are made from."""
import contextlib
import io

import numpy as np
import ot
import ot.bsp
from hypothesis import strategies as st
from ot.backend import get_backend_list
from scipy.optimize import linear_sum_assignment

import gen as g
from core import close, ensure, facet, raises
from checks.c23 import quiet

from core import FACETS

FACETS.clear()
META = {
    "native": ["plain", "bsp"],
    "backends": ["torch"],
    "rule": "non-trivial with at least three distinct points on each side",
    "assumptions": ["the extension is built from the current sources with the system's Eigen, because the pinned submodule is empty here", "costs are accumulated in single precision by the library: they are compared up to 1e-4 relative"],
}
NX = {}


def setup():
    for b in get_backend_list():
        NX[b.__name__] = b


def cost(X, Y, p, s):
    D = np.abs(X - Y[np.asarray(s)])
    return (D.max(1).sum() if p == -1 else (D**p).sum()) / len(X)


def table(X, Y, p):
    D = np.abs(X[:, None] - Y[None])
    return D.max(2) if p == -1 else (D**p).sum(2)


def points(c):
    r = g.rng(c["k"], 351)
    n, d = c["n"], c["d"]
    X, Y = r.randn(n, d), r.randn(n, d) * r.uniform(0.3, 2) + r.randn(d)
    if c["pts"] == "grid":
        X, Y = np.round(X), np.round(Y)
    if c["pts"] == "same":
        Y = X[r.permutation(n)].copy()
    if c["pts"] == "far":
        X, Y = X * 50, Y * 50 + 300
    if c["pts"] == "dup":
        X, Y = X[r.randint(n, size=n)], Y[r.randint(n, size=n)]
    return r, X, Y


CASE = dict(n=st.one_of(st.integers(1, 12), st.integers(1, 160)), d=st.one_of(st.integers(1, 4), st.integers(1, 14)), p=st.sampled_from([1, 2, 2, 3, -1]), pts=st.sampled_from(["gauss", "gauss", "grid", "same", "far", "dup"]), k=g.seeds)


def check_perm(s, n, what):
    s = np.asarray(s)
    ensure(s.shape == (n,) and (np.sort(s) == np.arange(n)).all(), "%s is not a permutation: %s", what, s)


@facet(g.record(plans=st.integers(1, 9), gs=st.sampled_from(["auto", True, False]), init=st.sampled_from(["none", "none", "int64", "int32", "list", "optimal"]), lay=st.sampled_from(["c", "c", "f", "strided", "f4"]), torch=st.booleans(), seed=st.integers(0, 5000), **CASE), 500, 12000, weight=2)
def bijection(c, rec):
    """a permutation, of the reported cost, not above any of the plans nor the initial one, not below the optimum"""
    r, X, Y = points(c)
    n = c["n"]
    init = None
    if c["init"] != "none":
        init = r.permutation(n)
        if c["init"] == "optimal":
            init = linear_sum_assignment(table(X, Y, c["p"]))[1]
    U, V = X, Y
    if c["lay"] == "f":
        U, V = np.asfortranarray(X), np.asfortranarray(Y)
    if c["lay"] == "strided":
        U, V = np.repeat(X, 2, 0)[::2], np.repeat(Y, 2, 1)[:, ::2]
    if c["lay"] == "f4":
        U, V = X.astype("f4"), Y.astype("f4")
    arg = None if init is None else init.tolist() if c["init"] == "list" else init.astype("int32" if c["init"] == "int32" else "int64")
    nx = NX["torch" if c["torch"] and "torch" in NX else "numpy"]
    if nx.__name__ == "torch" and c["init"] in ("int64", "int32"):
        arg = nx.from_numpy(arg)
    (v, s, S), w = quiet(ot.bsp.compute_bspot_bijection, nx.from_numpy(U), nx.from_numpy(V), n_plans=c["plans"], p=c["p"], initial_perm=arg, gaussian_slicing=c["gs"], seed=c["seed"])
    s, S, v = nx.to_numpy(s), np.asarray(S), float(v)
    rec.nontrivial(len(np.unique(X, axis=0)) > 2 and len(np.unique(Y, axis=0)) > 2)
    rec.label(nx.__name__, c["lay"], "init-" + c["init"], "d=1" if c["d"] == 1 else "d>1", "p=%d" % c["p"], c["pts"])
    check_perm(s, n, "the bijection")
    ensure(S.shape == (c["plans"], n), "intermediary plans of shape %s", S.shape)
    for t in S:
        check_perm(t, n, "an intermediary plan")
    D = table(X, Y, c["p"])
    tol = 1e-4 * (1 + D.max())
    close(v, cost(X, Y, c["p"], s), tol, "reported cost")
    ensure(not w, "warning: %s", w[0].message if w else "")
    best = min(cost(X, Y, c["p"], t) for t in S)
    ensure(v <= best + tol, "final bijection (%g) worse than the best plan (%g)", v, best)
    if init is not None:
        ensure(v <= cost(X, Y, c["p"], init) + tol, "final bijection (%g) worse than the initial one (%g)", v, cost(X, Y, c["p"], init))
    opt = D[linear_sum_assignment(D)].sum() / n
    ensure(v >= opt - tol, "cost %g below the optimum %g", v, opt)


@facet(g.record(plans=st.integers(1, 6), gs=st.booleans(), seed=st.integers(0, 5000), other=st.integers(0, 5000), **CASE), 250, 6000)
def seeds(c, rec):
    """the result is a function of the points and the seed, whatever was computed before"""
    r, X, Y = points(c)
    f = lambda seed: quiet(ot.bsp.compute_bspot_bijection, X, Y, n_plans=c["plans"], p=c["p"], gaussian_slicing=c["gs"], seed=seed)[0]
    v1, s1, S1 = f(c["seed"])
    f(c["other"])
    v2, s2, S2 = f(c["seed"])
    rec.nontrivial(c["n"] > 4)
    rec.label("gaussian" if c["gs"] else "plain")
    ensure((S1 == S2).all() and (s1 == s2).all() and v1 == v2, "two calls with seed %d return different bijections", c["seed"])


@facet(g.record(plans=st.integers(1, 14), how=st.sampled_from(["array", "list", "int64"]), good=st.booleans(), **CASE), 400, 10000)
def merging(c, rec):
    """merged bijections are permutations, not above any of the bijections given; every one of them is used"""
    r, X, Y = points(c)
    n = c["n"]
    P = np.array([r.permutation(n) for _ in range(c["plans"])])
    D = table(X, Y, c["p"])
    if c["good"]:  # the optimal one is among them, anywhere
        P[r.randint(len(P))] = linear_sum_assignment(D)[1]
    (v, s), w = quiet(ot.bsp.merge_bijections, X, Y, P.astype("int32") if c["how"] == "array" else P.tolist() if c["how"] == "list" else P, p=c["p"])
    rec.nontrivial(n > 2)
    rec.label("plans<n" if c["plans"] < n else "plans=n" if c["plans"] == n else "plans>n", c["how"], "optimal given" if c["good"] else "random")
    check_perm(s, n, "the merged bijection")
    tol = 1e-4 * (1 + D.max())
    close(float(v), cost(X, Y, c["p"], s), tol, "reported cost")
    ensure(not w, "warning: %s", w[0].message if w else "")
    best = min(cost(X, Y, c["p"], t) for t in P)
    ensure(v <= best + tol, "merged bijection (%g) worse than the best one given (%g)", v, best)
    ensure(v >= D[linear_sum_assignment(D)].sum() / n - tol, "below the optimum")


@facet(g.record(bad=st.sampled_from(["sizes", "dims", "1d", "init"]), **CASE), 40, 400)
def rejected(c, rec):
    """clouds of different shapes and initial bijections of the wrong size are rejected"""
    r, X, Y = points(c)
    rec.nontrivial(True)
    rec.label(c["bad"])
    f = ot.bsp.compute_bspot_bijection
    if c["bad"] == "sizes":
        raises(lambda: quiet(f, X, np.vstack([Y, Y[:1]])), "different numbers of points", ValueError)
    if c["bad"] == "dims":
        raises(lambda: quiet(f, X, np.hstack([Y, Y[:, :1]])), "different dimensions", ValueError)
    if c["bad"] == "1d":
        raises(lambda: quiet(f, X[:, 0], Y[:, 0]), "vectors", ValueError)
    if c["bad"] == "init":
        raises(lambda: quiet(f, X, Y, initial_perm=np.arange(c["n"] + 1)), "initial bijection of the wrong size", ValueError)
