"""C33: the compiled kernels are memory-safe and terminate with a true status (address and undefined-behaviour sanitizers)."""
import contextlib
import io
import warnings

import numpy as np
import ot
import scipy.sparse as sp
from hypothesis import strategies as st
from ot.lp import emd_wrap as K
from ot.partial import partial_cython as PC

import gen as g
from core import close, ensure, facet

META = {
    "native": ["asan"],
    "preload": ["libasan.so", "libubsan.so"],
    "env": {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1", "OMP_NUM_THREADS": "3"},
    "rule": "non-trivial when the kernel ran a problem with at least two points of positive mass on each side, or when the caller's arguments were malformed",
    "assumptions": ["the kernels are rebuilt with -fsanitize=address,undefined from the current sources; a report ends the process, which is a violation"],
}
INF, OPT, UNB, ITER = 0, 1, 2, 3


def weights(s, r, kind):
    w = g.mk_w(s)
    if kind == "skewed":  # twelve orders of magnitude between weights
        w = w * 10.0 ** r.uniform(-12, 0, len(w))
        w = w / w.sum()
    if kind == "dust":  # next to nothing on some points
        w = np.where(r.rand(len(w)) < 0.4, 1e-17, w)
        w = w / w.sum()
    if kind == "zeros":
        w = np.where(r.rand(len(w)) < 0.5, 0.0, w)
        if w.sum() == 0:
            w[r.randint(len(w))] = 1.0
        w = w / w.sum()
    return w


def costs(s, r, kind):
    M = g.mk_m(s)
    if kind == "vast":
        M = M * 1e150
    if kind == "minute":
        M = M * 1e-200
    if kind == "spread":
        M = M * 10.0 ** r.randint(-8, 9, M.shape)
    if kind in ("inf", "nan"):
        M = np.where(r.rand(*M.shape) < 0.3, np.inf if kind == "inf" else np.nan, M)
    return np.ascontiguousarray(M)


@st.composite
def problems(draw, big=True):
    n, m = draw(st.one_of(st.tuples(st.integers(1, 6), st.integers(1, 6)), st.tuples(st.integers(1, 25), st.integers(1, 25)), st.tuples(st.integers(1, 70), st.integers(1, 70)) if big else st.tuples(st.integers(1, 9), st.integers(1, 9))))
    return dict(a=draw(g.w_spec(n)), b=draw(g.w_spec(m)), M=draw(g.m_spec(n, m)), k=draw(g.seeds),
                wk=draw(st.sampled_from(["plain", "plain", "plain", "skewed", "dust", "zeros"])), ck=draw(st.sampled_from(["plain"] * 5 + ["vast", "minute", "spread", "inf", "nan"])),
                it=draw(st.sampled_from([100000] * 4 + [0, 1, 2, 7, 40])), warm=draw(st.sampled_from(["none", "none", "zero", "random", "huge", "nan"])), mass=draw(st.sampled_from(["equal"] * 6 + ["more", "less", "negative", "empty"])))


def make(c):
    r = g.rng(c["k"], 331)
    a, b = weights(c["a"], r, c["wk"]), weights(c["b"], r, c["wk"])
    M = costs(c["M"], r, c["ck"])
    a = a * (b.sum() / a.sum())
    if c["mass"] == "more":
        a = a * 1.5
    if c["mass"] == "less":
        a = a * 0.5
    if c["mass"] == "negative":
        a[r.randint(len(a))] = -0.25
    if c["mass"] == "empty":
        a[:] = 0
    n, m = M.shape
    f = dict(none=None, zero=0.0, random=1.0, huge=1e200, nan=np.nan)[c["warm"]]
    warm = (None, None) if f is None else (r.randn(n) * f, r.randn(m) * f)
    return r, a, b, M, warm


def sane(c, a, b):
    """the problem is a feasible balanced one with finite costs that are not negligible next to the unit added to the artificial costs"""
    return c["mass"] == "equal" and c["ck"] not in ("inf", "nan", "minute")


def verdict(c, name, T, cost, al, be, code, a, b, M):
    """an OPTIMAL status is backed by a feasible plan and feasible complementary duals"""
    ensure(code in (INF, OPT, UNB, ITER), "%s returned the unknown status %r", name, code)
    if not sane(c, a, b):
        return
    ensure(code in (OPT, ITER), "%s: status %d on a feasible bounded problem", name, code)
    if code == ITER:
        ensure(c["it"] < 100000 or c["wk"] in ("skewed", "dust") or c["warm"] in ("huge", "nan") or c["ck"] == "spread", "%s gave up within %d iterations", name, c["it"])
        return
    sc = np.abs(M[np.ix_(a > 0, b > 0)]).max() if (a > 0).any() and (b > 0).any() else 0.0
    ensure(np.isfinite(T).all() and T.min() >= 0, "%s: OPTIMAL with an invalid plan", name)
    close(T.sum(1), a, 1e-8, "%s: OPTIMAL but first marginal" % name)
    close(T.sum(0), b, 1e-8, "%s: OPTIMAL but second marginal" % name)
    if sc == 0 or c["warm"] in ("huge", "nan"):
        return
    R = (M - al[:, None] - be[None])[np.ix_(a > 0, b > 0)] / sc
    ensure(R.min() > -1e-6, "%s: OPTIMAL but dual infeasible by %g", name, -R.min())
    ensure((np.where(T > 0, T * (M - al[:, None] - be[None]), 0).sum()) / sc < 1e-6, "%s: OPTIMAL but not complementary", name)
    close(cost / sc, (T * M).sum() / sc, 1e-8, "%s: cost is not that of the plan" % name)


def label(rec, c, a, b, code):
    rec.nontrivial((a > 0).sum() > 1 and (b > 0).sum() > 1)
    rec.label("status=%d" % code, c["wk"], c["ck"], "warm-" + c["warm"], c["mass"])


@facet(problems(), 900, 40000, weight=3)
def dense(c, rec):
    """the dense network simplex, serial and with threads"""
    r, a, b, M, warm = make(c)
    th = 1 if c["k"] % 4 else 2
    G, cost, al, be, code = K.emd_c(a, b, M, c["it"], th, *(warm if th == 1 else (None, None)))
    label(rec, c, a, b, code)
    if th == 1 or c["warm"] not in ("huge", "nan"):
        verdict(c, "emd_c (%d threads)" % th, G, cost, al, be, code, a, b, M)


@facet(g.record(p=problems(), keep=st.sampled_from([0.0, 0.1, 0.3, 0.7, 1.0]), dup=st.booleans(), order=st.booleans()), 700, 30000, weight=2)
def sparse(c, rec):
    """the sparse network simplex: arbitrary sets of edges, duplicated, in any order, feasible or not"""
    p = c["p"]
    r, a, b, M, warm = make(p)
    n, m = M.shape
    keep = r.rand(n, m) < c["keep"]
    feasible = False
    if p["k"] % 3:  # contains a feasible plan
        keep |= K.emd_c(np.abs(a), b, np.zeros((n, m)) + r.rand(n, m), 100000, 1)[0] > 0
        feasible = True
    I, J = np.nonzero(keep)
    if c["dup"] and len(I):
        q = r.randint(len(I), size=1 + len(I) // 3)
        I, J = np.append(I, I[q]), np.append(J, J[q])
    if c["order"]:
        q = r.permutation(len(I))
        I, J = I[q], J[q]
    fs, ft, fv, cost, al, be, code = K.emd_c_sparse(a, b, I.astype(np.uint64), J.astype(np.uint64), M[I, J].copy(), p["it"], *warm)
    label(rec, p, a, b, code)
    rec.label("edges" if len(I) else "no edge")
    ensure(len(fs) == len(ft) == len(fv) <= len(I), "more flows than edges")
    if len(fs):
        ensure(fs.max() < n and ft.max() < m and keep[fs.astype(int), ft.astype(int)].all(), "flow on an arc that does not exist")
    if not (sane(p, a, b) and feasible):
        return
    T = np.zeros((n, m))
    np.add.at(T, (fs.astype(int), ft.astype(int)), fv)
    if code == INF and p["wk"] in ("skewed", "dust"):
        return
    ensure(code in (OPT, ITER), "sparse: status %d on a feasible problem", code)
    if code == OPT:
        close(T.sum(1), a, 1e-8, "sparse: OPTIMAL but first marginal")
        close(T.sum(0), b, 1e-8, "sparse: OPTIMAL but second marginal")
        if p["warm"] in ("huge", "nan"):
            return
        pos = (a[I] > 0) & (b[J] > 0)
        R = (M[I, J] - al[I] - be[J])[pos]
        sc = max(np.abs(M[I, J]).max(), 1e-300)
        ensure(not len(R) or R.min() / sc > -1e-6, "sparse: OPTIMAL but dual infeasible by %g", -R.min() / sc if len(R) else 0)
        close(cost / sc, (T * M).sum() / sc, 1e-8, "sparse: cost is not that of the plan")


@facet(g.record(p=problems(), d=st.integers(1, 4), metric=st.sampled_from(["sqeuclidean", "euclidean", "cityblock"]), pts=st.sampled_from(["gauss", "grid", "same", "far", "nan"])), 700, 30000, weight=2)
def lazy(c, rec):
    """the network simplex computing its costs from coordinates"""
    p = dict(c["p"], ck="nan" if c["pts"] == "nan" else "plain")
    r, a, b, M, warm = make(p)
    n, m = M.shape
    X, Y = r.randn(n, c["d"]), r.randn(m, c["d"])
    if c["pts"] == "grid":
        X, Y = np.round(X), np.round(Y)
    if c["pts"] == "same":
        X[:], Y[:] = 1.0, 1.0
    if c["pts"] == "far":
        X, Y = X * 1e6, Y * 1e6
    if c["pts"] == "nan":
        X[r.randint(n)] = np.nan
    D = X[:, None] - Y[None]
    M = (D**2).sum(-1) if c["metric"] == "sqeuclidean" else np.sqrt((D**2).sum(-1)) if c["metric"] == "euclidean" else np.abs(D).sum(-1)
    fs, ft, fv, cost, al, be, code = K.emd_c_lazy(a, b, X, Y, c["metric"], p["it"], *warm)
    label(rec, p, a, b, code)
    T = np.zeros((n, m))
    np.add.at(T, (fs.astype(int), ft.astype(int)), fv)
    verdict(p, "emd_c_lazy", T, cost, al, be, code, a, b, M)


@facet(g.record(n=st.integers(1, 30), m=st.integers(1, 30), p=st.sampled_from([1.0, 1.5, 2.0, 3.0]), ties=st.booleans(), it=st.integers(0, 40), k=g.seeds, w=st.sampled_from(["unif", "rand", "zeros", "round"]), bad=st.sampled_from(["none"] * 4 + ["nan", "inf"])), 700, 30000)
def line(c, rec):
    """the one-dimensional kernels: sorted exact transport and partial matching"""
    r = g.rng(c["k"], 332)
    n, m = c["n"], c["m"]
    x, y = r.randn(n), r.randn(m)
    if c["ties"]:
        x, y = np.round(x * 1.5), np.round(y * 1.5)
    if c["bad"] != "none":
        (x if c["k"] % 2 else y)[0] = np.nan if c["bad"] == "nan" else np.inf
    a, b = (np.ones(k) / k if c["w"] == "unif" else r.dirichlet(np.ones(k)) for k in (n, m))
    if c["w"] == "zeros":
        a, b = (np.where(r.rand(len(w)) < 0.5, 0, w) for w in (a, b))
        a[0] += 1 - a.sum()
        b[-1] += 1 - b.sum()
    if c["w"] == "round":
        a[-1] *= 1 + 1e-12
    rec.nontrivial(n > 1 and m > 1)
    rec.label(c["w"], c["bad"], "ties" if c["ties"] else "no tie")
    G, ind, cost = K.emd_1d_sorted(a, b, np.sort(x), np.sort(y), "minkowski", c["p"])
    ensure(len(G) == len(ind) <= n + m - 1, "too many entries")
    ensure((ind >= 0).all() and (ind[:, 0] < n).all() and (ind[:, 1] < m).all(), "index out of range")
    if c["bad"] == "none":
        T = np.zeros((n, m))
        np.add.at(T, (ind[:, 0], ind[:, 1]), G)
        close(T.sum(1), a, 1e-9, "marginal of the sorted problem")
    it = min(c["it"], n, m)
    ix, iy, mc = PC.partial_wasserstein_1d_cy(x, y, it, c["p"])
    ensure(len(ix) == len(iy) <= min(n, m), "size of the partial matching")
    if c["bad"] == "none":
        ensure(len(ix) == it and len(set(ix)) == it and len(set(iy)) == it, "not a matching of %d points: %s %s", it, ix, iy)
    if len(ix):
        ensure(0 <= ix.min() and ix.max() < n and 0 <= iy.min() and iy.max() < m, "index out of range")


API = {
    "emd": lambda a, b, M, X, Y: ot.emd(a, b, M),
    "emd2": lambda a, b, M, X, Y: ot.emd2(a, b, M),
    "emd-warm": lambda a, b, M, X, Y: ot.emd(a, b, M, potentials_init=(X[:, 0], Y[:, 0])),
    "emd-nocheck": lambda a, b, M, X, Y: ot.emd(a, b, M, check_marginals=False),
    "emd-threads": lambda a, b, M, X, Y: ot.emd(a, b, M, numThreads=3),
    "emd-sparse": lambda a, b, M, X, Y: ot.emd(a, b, sp.coo_matrix(M)),
    "emd2-sparse": lambda a, b, M, X, Y: ot.emd2(a, b, sp.coo_matrix(M)),
    "emd2_lazy": lambda a, b, M, X, Y: ot.lp.emd2_lazy(X, Y, a, b),
    "lazy-warm": lambda a, b, M, X, Y: ot.lp.emd2_lazy(X, Y, a, b, potentials_init=(M[:, 0], M[0])),
    "emd_1d": lambda a, b, M, X, Y: ot.emd_1d(X[:, 0], Y[:, 0], a, b),
    "emd2_1d": lambda a, b, M, X, Y: ot.emd2_1d(X[:, 0], Y[:, 0], a, b, metric="cityblock"),
    "partial_1d": lambda a, b, M, X, Y: ot.partial.partial_wasserstein_1d(X[:, 0], Y[:, 0]),
    "partial": lambda a, b, M, X, Y: ot.partial.partial_wasserstein(a, b, M, m=0.3),
}


@facet(g.record(f=st.sampled_from(sorted(API)), na=st.integers(0, 4), nb=st.integers(0, 4), r=st.integers(0, 4), s=st.integers(0, 4), nx=st.integers(0, 4), ny=st.integers(0, 4), match=st.booleans(), dt=st.sampled_from(["f8", "f8", "f4", "i8", "c16", "O"]),
                  val=st.sampled_from(["plain", "plain", "nan", "inf", "neg", "big"]), lay=st.sampled_from(["c", "f", "strided"]), k=g.seeds), 700, 30000)
def arguments(c, rec):
    """whatever arrays a caller passes - empty, of mismatched sizes, other dtypes, non-finite - the process survives"""
    r = g.rng(c["k"], 333)
    na, nb, R, S, nx, ny = (c[k] for k in ("na", "nb", "r", "s", "nx", "ny"))
    if c["match"]:
        R, S, nx, ny = na, nb, na, nb

    def mk(*s):
        A = r.rand(*s)
        if A.size and c["val"] != "plain":
            A.flat[r.randint(A.size)] = dict(nan=np.nan, inf=np.inf, neg=-1.0, big=1e300)[c["val"]]
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            A = (A * 5 if c["dt"] == "i8" else A).astype(c["dt"])
        if c["lay"] == "f":
            A = np.asfortranarray(A)
        if c["lay"] == "strided":
            B = np.zeros(tuple(2 * k for k in A.shape), dtype=A.dtype)
            B[tuple(slice(None, None, 2) for _ in A.shape)] = A
            A = B[tuple(slice(None, None, 2) for _ in A.shape)]
        return A

    a, b, M, X, Y = mk(na), mk(nb), mk(R, S), mk(nx, 2), mk(ny, 2)
    if c["k"] % 2 and a.size and b.size and c["val"] == "plain" and c["dt"] in ("f8", "f4"):
        a, b = a / a.sum(), b / b.sum()
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            API[c["f"]](a, b, M, X, Y)
        out = "result"
    except Exception as e:
        out = type(e).__name__
    rec.nontrivial(True)
    rec.label(c["f"], out, "match" if c["match"] else "mismatch")
