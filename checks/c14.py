"""C14: (fused) Gromov-Wasserstein by conditional gradient."""
import numpy as np
import ot
from hypothesis import strategies as st

import gen as g
import ref
from core import settle, FACETS, arr, close, coupling, ensure, facet, leq, num

FACETS.clear()
META = {
    "backends": [],
    "rule": "non-trivial when both graphs have >=3 nodes and the solver moved away from its start",
    "assumptions": ["kl_loss: positive structure entries", "stationarity (Frank-Wolfe gap by an LP) judged against the accuracy implied by the stopping rule, exact line search only"],
}
SYM = ("eucl", "sq", "graph", "sym", "int")


@st.composite
def pair(draw, nmax=7, fused=None):
    n, m = draw(st.integers(1, nmax)), draw(st.integers(1, nmax))
    loss = draw(st.sampled_from(["square_loss", "square_loss", "kl_loss"]))
    kinds = draw(st.sampled_from([SYM, SYM, ("asym",)])) if loss == "square_loss" else draw(st.sampled_from([("pos",), ("posasym",)]))
    c = dict(n=n, m=m, loss=loss, C1=draw(g.c_spec(n, kinds=kinds)), C2=draw(g.c_spec(m, kinds=kinds)), p=draw(st.one_of(st.none(), g.w_spec(n))), q=draw(st.one_of(st.none(), g.w_spec(m))), k=draw(g.seeds),
             G0=draw(st.sampled_from([None, None, "random", "sparse"])), sym=draw(st.sampled_from([None, None, False, "claim"])), armijo=draw(st.sampled_from([False, False, False, True])), same=draw(st.sampled_from([False, False, False, True])))
    c["fused"] = draw(st.booleans()) if fused is None else fused
    if c["fused"]:
        c.update(M=draw(g.m_spec(n, m, scale=False)), alpha=draw(g.around([0.0, 0.1, 0.5, 0.9, 1.0], 0.01, 0.99)))
    return c


def start(kind, p, q, k):
    """A coupling of (p, q) to start from."""
    r = g.rng(k, 71)
    if kind is None:
        return None
    G = ot.emd(p, q, r.rand(len(p), len(q)))
    return G if kind == "sparse" else 0.6 * G + 0.4 * np.outer(p, q)


def unpack(c):
    C1, C2 = g.mk_c(c["C1"]), g.mk_c(c["C2"])
    p = np.ones(c["n"]) / c["n"] if c["p"] is None else g.mk_w(c["p"])
    q = np.ones(c["m"]) / c["m"] if c["q"] is None else g.mk_w(c["q"])
    M = g.mk_m(c["M"]) if c.get("fused") else np.zeros((c["n"], c["m"]))
    if c["same"] and c["n"] == c["m"]:
        r = g.rng(c["k"], 72).permutation(c["n"])
        C2, q = C1[np.ix_(r, r)], p[r]
    return C1, C2, p, q, M


def scale(C1, C2, loss):
    if loss == "square_loss":
        return max(1e-3, (np.abs(C1).max() + np.abs(C2).max()) ** 2)
    return max(1e-3, (np.abs(C1).max() + 1) * (np.abs(np.log(C1 + 1e-15)).max() + np.abs(np.log(C2 + 1e-15)).max() + np.abs(C2).max() + 1))


@facet(pair(fused=False), 400, 15000)
def helpers(c, rec):
    """init_matrix / tensor_product / gwloss / gwggrad equal the four-index definition for every matrix (not only couplings for the tensor of a coupling), symmetric or not."""
    C1, C2, p, q, _ = unpack(c)
    G = start(c["G0"] or "random", p, q, c["k"])
    G = G * 1.0
    G = G / G.sum() * p.sum()
    p1, q1 = G.sum(1), G.sum(0)
    rec.nontrivial(min(C1.shape[0], C2.shape[0]) > 2)
    rec.label(c["loss"], c["C1"][0])
    s = scale(C1, C2, c["loss"])
    cc, h1, h2 = ot.gromov.init_matrix(C1, C2, p1, q1, c["loss"])
    T4 = ref.gw_tensor(C1, C2, G, c["loss"])
    L4 = ref.gw_loss4(C1, C2, G, c["loss"])
    close(ot.gromov.tensor_product(cc, h1, h2, G), T4, 1e-9 * s, "tensor product")
    close(num(ot.gromov.gwloss(cc, h1, h2, G)), L4, 1e-9 * s, "loss")
    gr = ot.gromov.gwggrad(cc, h1, h2, G)
    if np.allclose(C1, C1.T) and np.allclose(C2, C2.T):
        close(gr, 2 * T4, 1e-9 * s, "gradient")
        D = start("random", p1, q1, c["k"] + 1) - G
        e = 1e-5
        fd = (ref.gw_loss4(C1, C2, G + e * D, c["loss"]) - ref.gw_loss4(C1, C2, G - e * D, c["loss"])) / (2 * e)
        close((gr * D).sum(), fd, 1e-6 * s, "directional derivative")
    if c["loss"] == "square_loss":
        # line search on the segment towards another coupling: exact minimiser of the quadratic on [0, 1]
        D = start("sparse", p1, q1, c["k"] + 2) - G
        r = g.rng(c["k"], 73)
        M, reg = r.randn(*G.shape) * (c["k"] % 2), r.rand() + 0.1
        sy = bool(np.allclose(C1, C1.T) and np.allclose(C2, C2.T))
        f = lambda t: ((G + t * D) * M).sum() + reg * ref.gw_loss4(C1, C2, G + t * D)
        al, _, cost = ot.gromov.solve_gromov_linesearch(G, D, f(0), h1, h2, M, reg, symmetric=sy)
        al, cost = num(al), num(cost)
        ensure(-1e-12 <= al <= 1 + 1e-12, "step outside [0, 1]")
        close(cost, f(al), 1e-8 * (s + np.abs(M).max()), "cost after the line search")
        leq(f(al), min(f(t) for t in np.linspace(0, 1, 21)), 1e-8 * (s + np.abs(M).max()), "line search is not exact")


def objective(c, C1, C2, M, G):
    al = c["alpha"] if c["fused"] else 1.0
    return (1 - al) * (M * G).sum() + al * ref.gw_loss4(C1, C2, G, c["loss"])


@facet(pair(), 700, 30000)
def solver(c, rec):
    """(fused_)gromov_wasserstein(2): coupling, value and its parts are the four-index objective at the plan, losses never increase from the start, first-order stationary on convergence, value-only entry points agree."""
    C1, C2, p, q, M = unpack(c)
    n, m = c["n"], c["m"]
    al = c["alpha"] if c["fused"] else 1.0
    issym = bool(np.allclose(C1, C1.T) and np.allclose(C2, C2.T))
    sym = (issym if c["sym"] == "claim" else c["sym"])
    G0 = start(c["G0"], p, q, c["k"])
    kw = dict(loss_fun=c["loss"], symmetric=sym, armijo=c["armijo"], G0=None if G0 is None else G0.copy())
    if c["p"] is None and c["q"] is None and not (c["same"] and n == m):
        args = (None, None)
    else:
        args = (p, q)
    if c["fused"]:
        kw["alpha"] = al
        G, lg = ot.gromov.fused_gromov_wasserstein(M, C1, C2, *args, log=True, **kw)
        v, lg2 = ot.gromov.fused_gromov_wasserstein2(M, C1, C2, *args, log=True, **kw)
        d = lg["fgw_dist"]
    else:
        G, lg = ot.gromov.gromov_wasserstein(C1, C2, *args, log=True, **kw)
        v, lg2 = ot.gromov.gromov_wasserstein2(C1, C2, *args, log=True, **kw)
        d = lg["gw_dist"]
    G = coupling(G, p, q, 1e-8, "plan")
    s = scale(C1, C2, c["loss"]) + np.abs(M).max()
    val = objective(c, C1, C2, M, G)
    first = objective(c, C1, C2, M, np.outer(p, q) if G0 is None else G0)
    rec.label("fused" if c["fused"] else "gw", c["loss"], "symmetric" if issym else "asymmetric", "start:" + str(c["G0"]), "armijo" if c["armijo"] else "exact")
    rec.nontrivial(min(n, m) > 2 and np.abs(G - (np.outer(p, q) if G0 is None else G0)).max() > 1e-6)
    close(num(d), val, 1e-8 * s, "reported value is not the objective at the plan")
    close(num(v), val, 1e-8 * s, "value-only entry point")
    close(arr(lg2["T"], (n, m)), G, 1e-10, "logged plan of the value-only entry point")
    if c["fused"]:
        close(num(lg2["lin_loss"]), (1 - al) * (M * G).sum(), 1e-8 * s, "linear part")
        close(num(lg2["quad_loss"]), al * ref.gw_loss4(C1, C2, G, c["loss"]), 1e-8 * s, "quadratic part")
        G1 = ot.gromov.fused_gromov_wasserstein(M, C1, C2, *args, **kw)
        v1 = ot.gromov.fused_gromov_wasserstein2(M, C1, C2, *args, **kw)
    else:
        G1 = ot.gromov.gromov_wasserstein(C1, C2, *args, **kw)
        v1 = ot.gromov.gromov_wasserstein2(C1, C2, *args, **kw)
    close(G1, G, 1e-10, "plan depends on log")
    close(num(v1), val, 1e-8 * s, "value depends on log")
    seq = np.array([num(x) for x in lg["loss"]])
    close(seq[0], first, 1e-8 * s, "first recorded loss")
    leq(np.diff(seq), 0, 1e-9 * s, "recorded loss increases")
    leq(val, first, 1e-9 * s, "worse than the start")
    if al == 0:
        close(val, num(ot.emd2(p, q, M)), 1e-7 * s, "alpha=0 is not the linear problem")
    if c["fused"] and al == 1:
        close(val, num(ot.gromov.gromov_wasserstein2(C1, C2, *args, **{k: x for k, x in kw.items() if k != "alpha"})), 1e-7 * s, "alpha=1 is not Gromov-Wasserstein")
    if len(seq) < 9000:
        def gap(G):
            gr = (1 - al) * M + al * (ref.gw_tensor(C1, C2, G, c["loss"]) + ref.gw_tensor(C1.T, C2.T, G, c["loss"]))
            return (gr * (G - ot.emd(p, q, gr))).sum()

        def again(G):
            k2 = dict(kw, G0=G)
            return ot.gromov.fused_gromov_wasserstein(M, C1, C2, *args, **k2) if c["fused"] else ot.gromov.gromov_wasserstein(C1, C2, *args, **k2)
        h = s * al
        tol = 6 * np.sqrt(h * (1e-9 * abs(val) + 1e-9)) + 1e-7 * s
        settle(G, gap, again, tol * (10 if c["armijo"] else 1), "not first-order stationary")
    # relabelling: the relabelled plan is a stationary plan of the relabelled problem with the same value
    r = g.rng(c["k"], 74)
    i, j = r.permutation(n), r.permutation(m)
    kw2 = dict(kw, G0=G[np.ix_(i, j)].copy())
    if c["fused"]:
        w = ot.gromov.fused_gromov_wasserstein2(M[np.ix_(i, j)], C1[np.ix_(i, i)], C2[np.ix_(j, j)], p[i], q[j], **kw2)
        t = ot.gromov.fused_gromov_wasserstein2(M.T, C2, C1, q, p, **dict(kw, G0=G.T.copy())) if c["loss"] == "square_loss" else w
    else:
        w = ot.gromov.gromov_wasserstein2(C1[np.ix_(i, i)], C2[np.ix_(j, j)], p[i], q[j], **kw2)
        t = ot.gromov.gromov_wasserstein2(C2, C1, q, p, **dict(kw, G0=G.T.copy())) if c["loss"] == "square_loss" else w
    tol = 1e-9 * s + (6 * np.sqrt(s * (1e-9 * abs(val) + 1e-9)) + 1e-7 * s) * 2
    leq(num(w), val, 1e-8 * s, "relabelled problem started at the relabelled plan ends worse")
    leq(num(t), val, 1e-8 * s, "swapped problem started at the transposed plan ends worse")


@facet(pair(nmax=6, fused=False), 300, 10000)
def invariance(c, rec):
    """GW of a graph with a relabelled copy started at the relabelling is zero; scaling both structures scales the value by its square; merging nodes of zero weight changes nothing."""
    C1, _, p, _, _ = unpack(c)
    n = c["n"]
    if c["loss"] != "square_loss":
        rec.label("kl")
    r = g.rng(c["k"], 75)
    i = r.permutation(n)
    C2, q = C1[np.ix_(i, i)], p[i]
    P = np.zeros((n, n))
    P[i, np.arange(n)] = p[i]
    s = scale(C1, C2, c["loss"])
    rec.nontrivial(n > 2)
    kw = dict(loss_fun=c["loss"], symmetric=c["sym"] if c["sym"] != "claim" else None)
    close(num(ot.gromov.gromov_wasserstein2(C1, C2, p, q, G0=P.copy(), **kw)), 0, 1e-8 * s, "distance to a relabelled copy at the relabelling")
    v, lg = ot.gromov.gromov_wasserstein2(C1, C2, p, q, log=True, **kw)
    leq(-num(v), 0, 1e-9 * s, "negative value")
    if c["loss"] == "square_loss":
        t = 3.0
        w = ot.gromov.gromov_wasserstein2(t * C1, t * C2, p, q, G0=arr(lg["T"]).copy(), **kw)
        leq(num(w), t * t * num(v), 1e-8 * s * t * t, "scaled problem started at the solution ends worse")
    # a node of zero weight appended to the first graph
    C1z = np.zeros((n + 1, n + 1))
    C1z[:n, :n] = C1
    C1z[n] = C1z[:, n] = C1.max() + 0.5
    T0 = np.vstack([arr(lg["T"]), np.zeros((1, n))])
    w, lw = ot.gromov.gromov_wasserstein2(C1z, C2, np.append(p, 0.0), q, G0=T0, log=True, **kw)
    close(arr(lw["T"])[n], 0, 1e-12, "mass on a node of zero weight")
    leq(num(w), num(v), 1e-8 * scale(C1z, C2, c["loss"]), "zero-weight node makes the value worse")
