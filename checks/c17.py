"""C17: Gromov-Wasserstein barycenters, linear dictionaries and unmixing."""
import warnings

import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from checks.c07 import run
from checks.c14 import SYM
from checks.c16 import value
from core import FACETS, arr, close, coupling, ensure, facet, leq, num

FACETS.clear()
META = {
    "backends": [],
    "rule": "non-trivial when the barycenter (or dictionary) has >=2 nodes and >=2 input graphs (or atoms) of which one has >=3 nodes",
    "assumptions": ["positive target weights when the target weights are prescribed", "weights of the graphs sum to one", "entropic: positive weights", "kl_loss: positive structure entries"],
}


@st.composite
def graphs(draw, smax=4, nmax=6, loss=("square_loss", "square_loss", "kl_loss"), zeros=True, sym=(True, True, False)):
    loss = draw(st.sampled_from(list(loss)))
    sym = draw(st.sampled_from(list(sym)))
    kinds = (("pos",) if sym else ("posasym",)) if loss == "kl_loss" else (SYM if sym else ("asym",))
    S = draw(st.integers(1, smax))
    ns = [draw(st.integers(1, nmax)) for _ in range(S)]
    c = dict(S=S, ns=ns, N=draw(st.integers(1, 6)), d=draw(st.integers(1, 3)), loss=loss, sym=sym, k=draw(g.seeds), Cs=[draw(g.c_spec(n, kinds=kinds)) for n in ns],
             ps=draw(st.one_of(st.none(), st.tuples(*[g.w_spec(n, zeros=zeros) for n in ns]).map(list))), lam=draw(st.sampled_from([None, "uneven", "uneven"])))
    c["p"] = draw(st.one_of(st.none(), g.w_spec(c["N"], zeros=False)))
    c["C0"] = draw(g.c_spec(c["N"], kinds=kinds))
    return c


def unpack(c):
    r = g.rng(c["k"], 91)
    Cs = [g.mk_c(s) for s in c["Cs"]]
    ps = [np.ones(n) / n for n in c["ns"]] if c["ps"] is None else [g.mk_w(s) for s in c["ps"]]
    p = np.ones(c["N"]) / c["N"] if c["p"] is None else g.mk_w(c["p"])
    lam = np.ones(c["S"]) / c["S"]
    if c["lam"]:
        lam = r.rand(c["S"]) + 0.05
        lam /= lam.sum()
    Ys = [r.randn(n, c["d"]) * 2 for n in c["ns"]]
    return Cs, ps, p, lam, Ys, g.mk_c(c["C0"]), r.randn(c["N"], c["d"])


def closed_C(Cs, Ts, lam, loss, sr):
    """Minimiser of sum_s lam_s sum L(.,.) T T, entry by entry. sr: the barycenter is the second argument (T: graph x barycenter)."""
    N = Ts[0].shape[1 if sr else 0]
    out, den = np.zeros((N, N)), np.zeros((N, N))
    for i in range(N):
        for j in range(N):
            x = w = 0.0
            for C, T, l in zip(Cs, Ts, lam):
                t1, t2 = (T[:, i], T[:, j]) if sr else (T[i], T[j])
                x += l * t1 @ (np.log(C) if loss == "kl_loss" and not sr else C) @ t2
                w += l * t1.sum() * t2.sum()
            out[i, j] = x / w if w else np.nan
            den[i, j] = w
            if loss == "kl_loss" and not sr:
                out[i, j] = np.exp(out[i, j])
    return out, den


def closed_X(Ys, Ts, lam, sr):
    num_ = sum(l * ((T.T if sr else T) @ Y) for Y, T, l in zip(Ys, Ts, lam))
    den = sum(l * T.sum(0 if sr else 1) for T, l in zip(Ts, lam))
    with np.errstate(all="ignore"):
        return num_ / den[:, None], den


def match(x, y, den, tol, msg, rel=1e-13):
    ok = den > rel * max(den.max(), 1e-300)
    ensure(np.isfinite(x).all(), msg + ": not finite")
    close(np.asarray(x)[ok], np.asarray(y)[ok], tol, msg)


def plan(r, n, m, a=None, b=None):
    """A random coupling (marginals a, b when given), sometimes sparse."""
    U = r.rand(n, m) * (r.rand(n, m) < 0.8) + 1e-12
    if a is None:
        return U / U.sum()
    return ot.emd(a, b, r.rand(n, m)) * 0.5 + 0.5 * np.outer(a, b)


def vec(r, n, zeros=True):
    x = r.rand(n) * ((r.rand(n) < 0.8) if zeros else 1) + 0
    if not x.sum():
        x[0] = 1
    return x / x.sum()


@facet(graphs(), 400, 15000)
def updates(c, rec):
    """update_barycenter_structure / _feature: the minimiser of the weighted (F)GW objective given the plans, entry by entry and against perturbations, for shared, per-plan or unspecified target weights."""
    Cs, ps, p, lam, Ys, C0, X0 = unpack(c)
    r = g.rng(c["k"], 92)
    sr = bool(r.randint(2))
    mode = ["shared", "each", None][r.randint(3)]
    N = c["N"]
    q = vec(r, N, zeros=c["k"] % 2 == 0)
    Ts = []
    for P in ps:
        T = plan(r, len(P), N, P, q if mode == "shared" else vec(r, N, c["k"] % 2 == 0))
        Ts.append(T if sr else T.T.copy())
    pp = {"shared": q, "each": np.array([T.sum(0 if sr else 1) for T in Ts]), None: None}[mode]
    rec.label("target" if sr else "source", "weights:%s" % mode, c["loss"])
    rec.nontrivial(N > 1 and c["S"] > 1 and max(c["ns"]) > 2)
    s = max(np.abs(C).max() for C in Cs) + 1e-300
    want, den = closed_C(Cs, Ts, lam, c["loss"], sr)
    pos = (pp > 0).all() if mode == "shared" else den.min() > 0
    for cz in ([True, False] if pos else [True]):
        C = arr(ot.gromov.update_barycenter_structure([T.copy() for T in Ts], [C.copy() for C in Cs], list(lam), pp, c["loss"], target=sr, check_zeros=cz), (N, N))
        match(C, want, den, 1e-9 * s, "structure is not the minimiser")
        X = arr(ot.gromov.update_barycenter_feature([T.copy() for T in Ts], [Y.copy() for Y in Ys], list(lam), pp, target=sr, check_zeros=cz), (N, c["d"]))
        wX, dX = closed_X(Ys, Ts, lam, sr)
        match(X, wX, dX, 1e-9 * 10, "features are not the minimiser", rel=1e-13)
    big = den > 1e-13 * den.max()

    def F(Z):
        return sum(l * (ref.gw_loss4(C_, Z, T, c["loss"]) if sr else ref.gw_loss4(Z, C_, T, c["loss"])) for C_, T, l in zip(Cs, Ts, lam))
    E = r.randn(N, N) * np.where(big, np.maximum(np.abs(C), 1e-3 * s), 0) * 1e-2
    leq(F(C), F(C + E), 1e-9 * (s * s if c["loss"] == "square_loss" else s * (1 + abs(np.log(s)))), "a perturbed structure has a smaller objective")


@st.composite
def bary(draw):
    solver = draw(st.sampled_from(["gw", "gw", "entropic", "sr", "sr"]))
    c = draw(graphs(smax=3, nmax=5, zeros=solver == "gw", sym=(True, True, False)))
    c.update(solver=solver, fused=draw(st.booleans()), alpha=draw(g.around([0.0, 0.2, 0.5, 0.8, 1.0], 0.01, 0.99)), fixC=draw(st.sampled_from([False, False, True])), fixX=draw(st.sampled_from([False, False, True])), iters=draw(st.sampled_from([1, 1, 2, 4, 15])),
             stop=draw(st.sampled_from(["barycenter", "loss"])), warm=draw(st.booleans()), initC=draw(st.sampled_from([True, True, False])), initX=draw(st.sampled_from([True, True, False])), rs=draw(st.sampled_from(["int", "state"])), rel=draw(st.sampled_from([0.05, 0.2, 1.0])),
             G0=draw(st.sampled_from(["product", "product", "random_product", "random", "kmeans", "spectral", "fluid"])), lamlist=draw(st.booleans()))
    return c


FUN = {("gw", 0): "gromov_barycenters", ("gw", 1): "fgw_barycenters", ("entropic", 0): "entropic_gromov_barycenters", ("entropic", 1): "entropic_fused_gromov_barycenters",
       ("sr", 0): "semirelaxed_gromov_barycenters", ("sr", 1): "semirelaxed_fgw_barycenters"}


@facet(bary(), 500, 20000)
def barycenters(c, rec):
    """(Fused / entropic / semi-relaxed) GW barycenters: size, closed form given the returned plans, plan marginals, fixed parts kept, recorded losses, descent under warm starts, function of the seed, log does not matter."""
    Cs, ps, p, lam, Ys, C0, X0 = unpack(c)
    sr, fused = c["solver"] == "sr", c["fused"]
    if c["loss"] == "kl_loss" and not c["initC"]:
        c = dict(c, initC=True)
    if c["solver"] == "entropic":
        c = dict(c, iters=min(c["iters"], 3))
    if sr and c["G0"] in ("kmeans", "spectral", "fluid") and (c["loss"] == "kl_loss" or not c["sym"] or c["fixC"] or not all(ok_start(c["G0"], C, c["N"]) for C in Cs)
                                                              or fused and not c["initX"] and len(np.unique(np.vstack(Ys), axis=0)) < c["N"] or not c["warm"]):
        c = dict(c, G0="product")
    fixC, fixX = fused and c["fixC"], fused and c["fixX"]
    initC, initX = c["initC"] or fixC, c["initX"] or fixX
    if sr and c["G0"] in ("kmeans", "spectral", "fluid") and initC:
        initC = False
    name = FUN[(c["solver"], int(fused))]
    f = getattr(ot.gromov, name)
    kw = dict(ps=None if c["ps"] is None else [x.copy() for x in ps], lambdas=None if c["lam"] is None else (list(lam) if c["lamlist"] else lam.copy()), loss_fun=c["loss"], symmetric=c["sym"], max_iter=c["iters"], stop_criterion=c["stop"], warmstartT=c["warm"], log=True)
    if not sr:
        kw["p"] = None if c["p"] is None else p.copy()
    else:
        kw["G0"] = c["G0"]
    s = max(max(np.abs(C).max() for C in Cs), np.abs(C0).max() if initC else (30.0 if fused else 1.0), 1e-3)
    sq = s * s if c["loss"] == "square_loss" else s * 10
    if fused:
        kw.update(alpha=c["alpha"], fixed_structure=fixC, fixed_features=fixX)
        if initX:
            kw["init_Y" if c["solver"] == "entropic" else "init_X"] = X0.copy()
        sq += max(np.abs(Y).max() for Y in Ys) ** 2 + 9
    if initC:
        kw["init_C"] = C0.copy()
    if c["solver"] == "entropic":
        kw["epsilon"] = c["rel"] * sq
    args = ([Y.copy() for Y in Ys], [C.copy() for C in Cs]) if fused else ([C.copy() for C in Cs],)

    def call(**k):
        k = dict(kw, random_state=np.random.RandomState(c["k"] % 1000) if c["rs"] == "state" else c["k"] % 1000, **k)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            np.random.seed(1)
            return run(f, c["N"], *args, **k)[0]
    out = call()
    X, C, lg = out if fused else (None,) + tuple(out)
    if not np.isfinite(np.asarray(C)).all() and c["solver"] == "entropic":
        rec.skip("underflow")
        return
    N = c["N"]
    C = arr(C, (N, N))
    Ts = [np.asarray(T) for T in lg["T"]]
    rec.label(name, c["loss"], "stop:" + c["stop"], "warm" if c["warm"] else "cold", *(["fixed structure"] if fixC else []), *(["fixed features"] if fixX else []), *(["start:" + c["G0"]] if sr else []))
    rec.nontrivial(N > 1 and c["S"] > 1 and max(c["ns"]) > 2)
    ensure(len(Ts) == c["S"], "one plan per graph")
    for T, P, n in zip(Ts, ps, c["ns"]):
        if sr:
            arr(T, (n, N))
            close(T.sum(1), P, 1e-9, "plan source marginal")
            leq(-T, 0, 1e-12, "negative plan")
        else:
            coupling(T, p, P, 1e-6 if c["solver"] == "gw" else 1e-2, "plan")
    if sr:
        close(lg["p"], [T.sum(0) for T in Ts], 1e-12, "reported target weights")
    else:
        close(lg["p"], p, 1e-12, "reported target weights")
    # closed forms
    prec = 1e-7 if c["solver"] != "entropic" else 3e-2
    if fixC:
        close(C, C0, 0, "fixed structure changed")
    elif c["solver"] == "entropic":  # the documented update divides by the prescribed weights
        Z = sum(l * T @ (np.log(C_) if c["loss"] == "kl_loss" else C_) @ T.T for l, T, C_ in zip(lam, Ts, Cs)) / np.outer(p, p)
        close(C, np.exp(Z) if c["loss"] == "kl_loss" else Z, 1e-9 * s + 1e-9 * np.abs(Z).max(), "structure is not the minimiser given the plans")
    else:
        want, den = closed_C(Cs, Ts, lam, c["loss"], sr)
        match(C, want, den, prec * s, "structure is not the minimiser given the plans")
    if fused:
        X = arr(X, (N, c["d"]))
        if fixX:
            close(X, X0, 0, "fixed features changed")
        elif c["solver"] == "entropic":
            close(X, sum(l * T @ Y for l, T, Y in zip(lam, Ts, Ys)) / p[:, None], 1e-8, "features are not the minimiser given the plans")
        else:
            wX, dX = closed_X(Ys, Ts, lam, sr)
            match(X, wX, dX, prec * 10, "features are not the minimiser given the plans")
        for M, Y in zip(lg["Ms"], Ys):
            D = ref.cost_matrix(X, Y)
            close(M, D.T if sr else D, 1e-8 * (1 + np.abs(D).max()), "reported feature costs")
    # objective of the plans
    al = c["alpha"] if fused else 1.0

    def F(Cb, Xb, Tb):
        v = []
        for C_, Y, T in zip(Cs, Ys, Tb):
            M = ref.cost_matrix(Y, Xb) if sr else ref.cost_matrix(Xb, Y)
            M = M if fused else 0 * T
            v.append(value(C_, Cb, M, al, T, c["loss"]) if sr else value(Cb, C_, M, al, T, c["loss"]))
        return np.array(v)
    X_ = X if fused else X0
    tol = 1e-7 * sq
    if c["loss"] == "square_loss" or not sr:
        now = F(C, X_, Ts)
        if c["solver"] == "gw":  # the update cannot be worse than other structures
            leq(lam @ now, lam @ F(C + 0.01 * s if not fixC else C, X_ + 0.01 if fused and not fixX else X_, Ts), tol, "shifted barycenter is better")
        if initC and (initX or not fused and True) and c["solver"] != "entropic":
            first = F(C0, X0, Ts) if c["iters"] == 1 else None
            if first is not None:
                prod = F(C0, X0, [np.outer(P, np.ones(N) / N) if sr else np.outer(p, P) for P in ps])
                if not sr or c["G0"] == "product":
                    leq(first, prod, tol, "plans are worse than the product plan")
                leq(lam @ now, lam @ first, tol, "the update increased the objective")
                if c["stop"] == "loss":
                    close(num(lg["loss"][0]), first.sum(), tol, "recorded loss")
                    rec.label("recorded loss")
        if c["warm"] and c["lam"] is None and c["stop"] == "loss" and c["solver"] == "gw":
            leq(np.diff([num(x) for x in lg["loss"]]), 0, tol * c["S"] * 10, "recorded losses increase")
            rec.label("descent")
    n_it = len(lg.get("err", lg.get("err_structure", lg.get("err_rel_loss", []))))
    ensure(1 <= n_it <= c["iters"], "number of iterations %s" % n_it)
    # function of the seed, and the log does not matter
    again = call()
    Z = call(log=False)
    Zx, Zc = Z if fused else (None, Z)
    for Q in ((again[1] if fused else again[0]), Zc):
        close(Q, C, 1e-9 * s, "not a function of the seed")
    if fused:
        close(again[0], X, 1e-9, "features are not a function of the seed")
        close(Zx, X, 1e-9, "features depend on log")


def ok_start(kind, C, N):
    """Is the partitioning start usable for a graph C and N barycenter nodes (both may be the partitioned one)?"""
    if kind == "kmeans":
        return len(C) == N or len(C) > N and len(np.unique(C.round(9), axis=0)) >= N
    return len(C) == N


@st.composite
def dic(draw):
    n, nt, D = draw(st.integers(1, 6)), draw(st.integers(1, 5)), draw(st.integers(1, 4))
    sym = draw(st.sampled_from([True, True, False]))
    kinds = SYM if sym else ("asym",)
    return dict(n=n, nt=nt, D=D, C=draw(g.c_spec(n, kinds=kinds)), Cd=[draw(g.c_spec(nt, kinds=kinds)) for _ in range(D)], sym=sym, p=draw(st.one_of(st.none(), g.w_spec(n))), q=draw(st.one_of(st.none(), g.w_spec(nt))), k=draw(g.seeds), d=draw(st.integers(1, 3)),
                fused=draw(st.booleans()), alpha=draw(g.around([0.0, 0.3, 0.7, 1.0], 0.01, 0.99)), reg=draw(st.sampled_from([0.0, 0.0, 0.01, 0.5])), symarg=draw(st.sampled_from(["none", "claim"])), it=draw(st.integers(1, 6)), same=draw(st.sampled_from([0, 0, 1])))


@facet(dic(), 500, 20000)
def unmixing(c, rec):
    """(fused_)gromov_wasserstein_linear_unmixing: weights on the simplex, embedding = their combination, plan is a coupling, reported error = objective - reg*|w|^2, below the start, non-increasing with iterations, weights stationary given the plan."""
    r = g.rng(c["k"], 93)
    C, Cd = g.mk_c(c["C"]), np.array([g.mk_c(s) for s in c["Cd"]])
    if c["same"] and c["n"] == c["nt"]:
        C = Cd[0].copy()
    p = np.ones(c["n"]) / c["n"] if c["p"] is None else g.mk_w(c["p"])
    q = np.ones(c["nt"]) / c["nt"] if c["q"] is None else g.mk_w(c["q"])
    s = max(np.abs(C).max(), np.abs(Cd).max(), 1e-3)
    Y, Yd = r.randn(c["n"], c["d"]) * s, r.randn(c["D"], c["nt"], c["d"]) * s
    sq = s * s * 30
    reg = c["reg"] * s * s
    al = c["alpha"] if c["fused"] else 1.0
    kw = dict(reg=reg, p=None if c["p"] is None else p.copy(), q=None if c["q"] is None else q.copy(), max_iter_inner=1000, symmetric=None if c["symarg"] == "none" or not c["sym"] else True)

    def call(it, tol=1e-5):
        if c["fused"]:
            return ot.gromov.fused_gromov_wasserstein_linear_unmixing(C.copy(), Y.copy(), Cd.copy(), Yd.copy(), c["alpha"], max_iter_outer=it, tol_inner=tol, **kw)
        w, E, T, l = ot.gromov.gromov_wasserstein_linear_unmixing(C.copy(), Cd.copy(), max_iter_outer=it, tol_inner=tol, **kw)
        return w, E, None, T, l
    w, E, F, T, loss = call(c["it"])
    w, E = arr(w, (c["D"],)), arr(E, (c["nt"], c["nt"]))
    leq(-w, 0, 1e-9, "negative weight")
    close(w.sum(), 1, 1e-9, "weights sum")
    close(E, np.tensordot(w, Cd, 1), 1e-9 * s, "embedded structure")
    if c["fused"]:
        close(arr(F, (c["nt"], c["d"])), np.tensordot(w, Yd, 1), 1e-9 * s, "embedded features")
    T = coupling(T, p, q, 1e-7, "plan")
    rec.label("fused" if c["fused"] else "gw", "symmetric" if c["sym"] else "asymmetric", "reg" if reg else "no reg")
    rec.nontrivial(c["D"] > 1 and c["nt"] > 1 and c["n"] > 2)

    def obj(w, T):
        Cw, Yw = np.tensordot(w, Cd, 1), np.tensordot(w, Yd, 1)
        return value(C, Cw, ref.cost_matrix(Y, Yw) if c["fused"] else 0 * T, al, T, "square_loss") - reg * (w ** 2).sum()
    close(num(loss), obj(w, T), 1e-7 * sq, "reported error is not the objective")
    w0 = np.ones(c["D"]) / c["D"]
    leq(num(loss), obj(w0, np.outer(p, q)), 1e-7 * sq, "worse than the start")
    leq(num(loss), obj(w0, T), 1e-7 * sq, "weights worse than the uniform ones at this plan")
    # stationarity of the weights at the plan: Frank-Wolfe gap implied by the stopping rule
    e = np.eye(c["D"])
    h = 1e-4
    gr = np.array([(obj(w + h * v, T) - obj(w - h * v, T)) / (2 * h) for v in e])
    curv = max([obj(v, T) + obj(u, T) - 2 * obj((u + v) / 2, T) for u in e for v in e]) * 2 + 1e-12 * sq
    curv = max(curv, 0)
    dec = 1e-5 * abs(num(loss)) * 1.01 + 1e-9 * sq
    gap = (gr * w).sum() - gr.min()
    leq(gap, 0, max(2.5 * dec, 2.5 * np.sqrt(curv * dec)) * 2 + 1e-6 * sq, "weights are not stationary at the plan")
    nxt = call(c["it"] + 1)
    leq(num(nxt[4]), num(loss), 1e-7 * sq, "another outer iteration increased the error")


@st.composite
def learn(draw):
    c = draw(graphs(smax=4, nmax=4, loss=("square_loss",), sym=(True, True, True, False)))
    c.update(D=draw(st.integers(1, 3)), nt=draw(st.integers(1, 4)), fused=draw(st.booleans()), alpha=draw(g.around([0.0, 0.3, 0.7, 1.0], 0.01, 0.99)), reg=draw(st.sampled_from([0.0, 0.05])), adam=draw(st.booleans()), epochs=draw(st.sampled_from([1, 1, 1, 2, 4])), batch=draw(st.sampled_from([32, 1, 32, 2])),
             proj=draw(st.sampled_from(["nonnegative_symmetric", "nonnegative", "symmetric", "none"])), init=draw(st.sampled_from([True, True, False])), lr=draw(st.sampled_from([0.01, 0.3, 1.0])), ulog=draw(st.booleans()))
    c["q"] = draw(st.one_of(st.none(), g.w_spec(c["nt"])))
    return c


@facet(learn(), 200, 6000)
def dictionary(c, rec):
    """(fused_)gromov_wasserstein_dictionary_learning: atoms in the requested set, one-epoch full-batch update = projected (Adam or SGD) gradient step of the reconstruction error, best epoch returned, losses add up, function of the seed."""
    Cs, ps, _, _, Ys, _, _ = unpack(c)
    r = g.rng(c["k"], 94)
    D, nt, S, d = c["D"], c["nt"], c["S"], c["d"]
    s = max(max(np.abs(C).max() for C in Cs), 1e-3)
    C0, Y0 = r.randn(D, nt, nt) * s, r.randn(D, nt, d)
    q = np.ones(nt) / nt if c["q"] is None else g.mk_w(c["q"])
    kw = dict(reg=c["reg"], ps=None if c["ps"] is None else [x.copy() for x in ps], q=None if c["q"] is None else q.copy(), projection=c["proj"], use_adam_optimizer=c["adam"], batch_size=c["batch"], max_iter_outer=3, max_iter_inner=50)
    if c["init"]:
        kw["Cdict_init"] = C0.copy()
    if c["fused"]:
        kw.update(learning_rate_C=c["lr"] * s, learning_rate_Y=c["lr"] * 0.5)
        if c["init"]:
            kw["Ydict_init"] = Y0.copy()
    else:
        kw["learning_rate"] = c["lr"] * s

    def call(epochs, use_log=True):
        k = dict(kw, epochs=epochs, use_log=use_log, random_state=c["k"] % 1000)
        if c["fused"]:
            return ot.gromov.fused_gromov_wasserstein_dictionary_learning([C.copy() for C in Cs], [Y.copy() for Y in Ys], D, nt, c["alpha"], **k)
        Z, lg = ot.gromov.gromov_wasserstein_dictionary_learning([C.copy() for C in Cs], D, nt, **k)
        return Z, None, lg
    Z, ZY, lg = call(c["epochs"])
    rec.label("fused" if c["fused"] else "gw", "adam" if c["adam"] else "sgd", c["proj"])
    rec.nontrivial(S > 1 and nt > 1 and max(c["ns"]) > 2)

    def valid(Z, ZY):
        Z = arr(Z, (D, nt, nt))
        if "nonnegative" in c["proj"]:
            leq(-Z, 0, 0, "negative entry in an atom")
        if "symmetric" in c["proj"]:
            close(Z, Z.transpose(0, 2, 1), 1e-12 * (1 + np.abs(Z).max()), "asymmetric atom")
        if c["fused"]:
            arr(ZY, (D, nt, d))
        return Z
    Z = valid(Z, ZY)
    b = min(c["batch"], S)
    per = -(-S // b)
    el, bl = [num(x) for x in lg["loss_epochs"]], [num(x) for x in lg["loss_batches"]]
    ensure(len(el) == c["epochs"] and len(bl) == per * c["epochs"], "number of recorded losses")
    close(el, np.array(bl).reshape(c["epochs"], per).sum(1), 1e-9 * s * s * S + 1e-12, "epoch losses are not the sum of their batches")
    # best epoch
    best = int(np.argmin(el)) + 1
    if best < c["epochs"]:
        rec.label("best epoch is not the last")
        Zb, ZYb, _ = call(best)
        close(Z, Zb, 1e-9 * s, "not the dictionary of the best epoch")
        if c["fused"]:
            close(ZY, ZYb, 1e-9, "not the features of the best epoch")
    Zl, ZYl, lgl = call(c["epochs"], use_log=False)
    close(Zl, Z, 1e-9 * s, "not a function of the seed / depends on use_log")
    ensure(not lgl["loss_epochs"], "losses recorded with use_log=False")
    if c["fused"]:
        close(ZYl, ZY, 1e-9, "features: not a function of the seed / depend on use_log")
    # one step
    if c["epochs"] == 1 and b == S and c["init"]:
        P = C0.copy()
        if "symmetric" in c["proj"]:
            P = (P + P.transpose(0, 2, 1)) / 2
        if "nonnegative" in c["proj"]:
            P = np.maximum(P, 0)
        gC, gY, tot = np.zeros_like(P), np.zeros_like(Y0), 0.0
        al = c["alpha"] if c["fused"] else 1.0
        for C, Y, pp in zip(Cs, Ys, ps):
            k = dict(reg=c["reg"], p=pp, q=q, max_iter_outer=3, max_iter_inner=50, symmetric="symmetric" in c["proj"])
            if c["fused"]:
                w, E, F, T, l = ot.gromov.fused_gromov_wasserstein_linear_unmixing(C, Y, P, Y0, al, **k)
                gY += 2 / S * (1 - al) * w[:, None, None] * (T.sum(0)[:, None] * F - T.T @ Y)
            else:
                w, E, T, l = ot.gromov.gromov_wasserstein_linear_unmixing(C, P, **k)
            tot += num(l)
            gC += 2 / S * al * w[:, None, None] * (E * np.outer(q, q) - T.T @ C @ T)
        close(el[0], tot, 1e-9 * s * s * S * 10 + 1e-9, "recorded loss of the first epoch")
        step = (lambda G: G / (np.abs(G) + 1e-9)) if c["adam"] else (lambda G: G)
        if c["adam"] and min(np.abs(gC).min(), np.abs(gY).min() if c["fused"] and al < 1 else 1) < 1e-7:
            return
        W = P - c["lr"] * s * step(gC)
        if "symmetric" in c["proj"]:
            W = (W + W.transpose(0, 2, 1)) / 2
        if "nonnegative" in c["proj"]:
            W = np.maximum(W, 0)
        rec.label("one step")
        close(Z, W, 1e-6 * s, "structure atoms are not one gradient step from the start")
        if c["fused"]:
            close(ZY, Y0 - c["lr"] * 0.5 * step(gY), 1e-6, "feature atoms are not one gradient step from the start")
