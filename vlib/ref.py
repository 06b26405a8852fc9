"""Reference models: independent, slow, obviously-correct implementations."""
import itertools

import numpy as np
from scipy.optimize import linprog
from scipy.special import logsumexp


def lp_ot(a, b, M, mask=None):
    """Minimum of <M, G> over couplings of (a, b) (supported on mask): HiGHS LP. None if infeasible."""
    n, m = M.shape
    b = b * (a.sum() / b.sum())
    idx = np.arange(n * m).reshape(n, m)
    import scipy.sparse as sp
    rows = np.concatenate([np.repeat(np.arange(n), m), n + np.tile(np.arange(m), n)])
    cols = np.concatenate([idx.ravel(), idx.ravel()])
    A = sp.coo_matrix((np.ones(2 * n * m), (rows, cols)), shape=(n + m, n * m)).tocsc()
    c = M.ravel()
    s = max(1e-300, np.abs(c).max())
    keep = np.ones(n * m, bool) if mask is None else mask.ravel()
    r = linprog((c / s)[keep], A_eq=A[:-1][:, keep] if keep.any() else None, b_eq=np.concatenate([a, b])[:-1], bounds=(0, None), method="highs",
                options=dict(primal_feasibility_tolerance=1e-10, dual_feasibility_tolerance=1e-10))
    if r.status != 0:
        return None
    G = np.zeros(n * m)
    G[keep] = r.x
    return r.fun * s, G.reshape(n, m)


def lp_partial(a, b, M, mass):
    """min <M,G>, G>=0, G1<=a, G'1<=b, sum G = mass."""
    n, m = M.shape
    A = np.zeros((n + m, n * m))
    for i in range(n):
        A[i, i * m:(i + 1) * m] = 1
    for j in range(m):
        A[n + j, j::m] = 1
    r = linprog(M.ravel(), A_ub=A, b_ub=np.concatenate([a, b]), A_eq=np.ones((1, n * m)), b_eq=[mass], bounds=(0, None), method="highs")
    return None if r.status != 0 else (r.fun, r.x.reshape(n, m))


def gibbs_ot(a, b, M, reg, iters=20000, tol=1e-13):
    """Entropic OT by plain log-domain Sinkhorn, run until the marginal error is below tol (or None)."""
    la, lb = np.log(a), np.log(b)
    f, g = np.zeros(len(a)), np.zeros(len(b))
    K = -M / reg
    for i in range(iters):
        f = la - logsumexp(K + g[None, :], axis=1)
        g = lb - logsumexp(K + f[:, None], axis=0)
        if i % 10 == 9:
            P = np.exp(K + f[:, None] + g[None, :])
            if np.abs(P.sum(1) - a).max() < tol:
                break
    P = np.exp(K + f[:, None] + g[None, :])
    return P, f, g, np.abs(P.sum(1) - a).sum() + np.abs(P.sum(0) - b).sum()


def kl(p, q):
    p, q = np.asarray(p, float), np.asarray(q, float)
    with np.errstate(divide="ignore", invalid="ignore"):
        t = np.where(p > 0, p * np.log(np.where(p > 0, p, 1) / q), 0.0)
    return float(t.sum() - p.sum() + q.sum())


def entropy(p):
    p = np.asarray(p, float)
    return float(np.sum(np.where(p > 0, p * np.log(np.where(p > 0, p, 1)), 0)))


def w1d(x, y, a, b, p):
    """Exact 1-D OT cost for |x-y|^p (p>=1): monotone coupling by a two-pointer sweep. -> cost, plan"""
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    i0, j0 = np.argsort(x, kind="stable"), np.argsort(y, kind="stable")
    G = np.zeros((len(x), len(y)))
    ra, rb = a[i0].astype(float).copy(), b[j0].astype(float).copy()
    i = j = 0
    cost = 0.0
    while i < len(x) and j < len(y):
        t = min(ra[i], rb[j])
        if t > 0:
            G[i0[i], j0[j]] += t
            cost += t * abs(x[i0[i]] - y[j0[j]]) ** p
        ra[i] -= t
        rb[j] -= t
        # rounding: advance the side that is exhausted
        if ra[i] <= rb[j]:
            i += 1
        else:
            j += 1
    return cost, G


def gw_loss4(C1, C2, T, loss="square_loss"):
    """Four-index definition of the GW objective."""
    if loss == "square_loss":
        L = (C1[:, None, :, None] - C2[None, :, None, :]) ** 2
    else:
        A, B = C1[:, None, :, None], C2[None, :, None, :]
        with np.errstate(divide="ignore", invalid="ignore"):
            L = np.where(A > 0, A * np.log(np.where(A > 0, A, 1) / (B + 1e-15)), 0.0) - A + B
    return float(np.einsum("ijkl,ij,kl->", L, T, T))


def gw_tensor(C1, C2, T, loss="square_loss"):
    if loss == "square_loss":
        L = (C1[:, None, :, None] - C2[None, :, None, :]) ** 2
    else:
        A, B = C1[:, None, :, None], C2[None, :, None, :]
        with np.errstate(divide="ignore", invalid="ignore"):
            L = np.where(A > 0, A * np.log(np.where(A > 0, A, 1) / (B + 1e-15)), 0.0) - A + B
    return np.einsum("ijkl,kl->ij", L, T)


def permutations(n):
    return itertools.permutations(range(n))


def cost_matrix(X, Y, metric="sqeuclidean", p=2, w=None):
    from scipy.spatial.distance import cdist
    if metric == "minkowski":
        return cdist(X, Y, metric, p=p) if w is None else cdist(X, Y, metric, p=p, w=w)
    return cdist(X, Y, metric) if w is None else cdist(X, Y, metric, w=w)
