"""C27: backend primitives have NumPy semantics on every library."""
import numpy as np
import ot
import scipy.sparse as sp
import scipy.special
from hypothesis import strategies as st
from ot.backend import get_backend, get_backend_list, to_numpy

import gen as g
from core import FACETS, close, ensure, facet, raises

FACETS.clear()
META = {
    "backends": ["torch", "jax", "tf"],
    "rule": "non-trivial when an array argument has at least two entries along at least one axis",
    "assumptions": ["jax with 64-bit enabled and tensorflow with its NumPy behaviour, as the test suite and documentation require"],
}
NX = {}


def setup():
    for b in get_backend_list():
        NX[b.__name__] = b
    assert set(NX) == {"numpy", "torch", "jax", "tf"}, NX
    NX["tf"].from_numpy(np.ones(2))


def tonp(x):
    return np.asarray(x) if isinstance(x, (np.ndarray, np.generic)) else to_numpy(x)


class Gen:
    """random arguments of one case"""

    def __init__(self, k, nd, ties, dt):
        self.r = g.rng(k, 271)
        self.nd, self.ties, self.dt = nd, ties, dt
        self.shape = tuple(int(x) for x in self.r.randint(1, 5, nd))

    def a(self, shape=None, pos=False, dt=None):
        shape = self.shape if shape is None else shape
        x = self.r.randint(-3, 4, shape).astype(float) if self.ties else self.r.randn(*shape) * 2
        x = np.asarray(x)
        if pos:
            x = np.abs(x) + 0.5
        return x.astype(dt or self.dt)

    def bshape(self, s=None):
        """a shape broadcasting with self.shape"""
        s = self.shape if s is None else s
        return tuple(1 if self.r.rand() < 0.3 else k for k in s)[int(self.r.randint(0, len(s) + 1)) if self.r.rand() < 0.3 else 0 :]

    def axis(self, none=True):
        nd = len(self.shape)
        if none and self.r.rand() < 0.3 or nd == 0:
            return None
        return int(self.r.randint(-nd, nd))

    def sq(self, psd=False):
        n = int(self.r.randint(1, 5))
        lead = self.shape[:1] if self.r.rand() < 0.4 else ()
        x = self.r.randn(*lead, n, n)
        if psd:
            k = int(self.r.randint(1, n + 1))
            y = self.r.randn(*lead, n, k if self.ties else n)
            x = y @ np.swapaxes(y, -1, -2) + 1e-2 * np.eye(n)  # singular matrices: rounding may give NaN (with a warning from the callers, pinned by a test)
        else:
            x = x + 3 * np.eye(n)
        return x.astype(self.dt)


def f64(f):
    return f


def ax(G, keep=True):
    d = dict(axis=G.axis())
    if keep:
        d["keepdims"] = bool(G.r.rand() < 0.5)
    return d


def np_norm(a, axis=None, keepdims=False):
    if axis is None:
        v = np.sqrt((a ** 2).sum())
        return v.reshape((1,) * a.ndim) if keepdims else v
    return np.sqrt((a ** 2).sum(axis, keepdims=keepdims))


def np_kl(p, q, mass=False, axis=None):
    with np.errstate(all="ignore"):
        v = np.where(p > 0, p * np.log(np.where(p > 0, p, 1) / q), 0).sum(axis)
    return v + (q - p).sum(axis) if mass else v


def np_search(a, v, side):
    return np.searchsorted(a, v, side) if a.ndim == 1 else np.stack([np.searchsorted(x, y, side) for x, y in zip(a, v)])


def np_sqrtm(a):
    w, v = np.linalg.eigh(a.astype(float))
    return (v * np.sqrt(np.maximum(w, 0))[..., None, :]) @ np.swapaxes(v, -1, -2)


def sorted2(G, nd):
    n, m, k = (int(x) for x in G.r.randint(1, 5, 3))
    if nd == 1:
        return np.sort(G.a((n,))), G.a((m,))
    return np.sort(G.a((k, n)), 1), G.a((k, m))


def unary(f, pos=False, clip=None):
    def build(G):
        x = G.a(pos=pos)
        if clip:
            x = np.clip(x, *clip).astype(G.dt)
        return (x,), {}

    return build, f


def nasty(G):
    x = G.a()
    m = G.r.rand(*x.shape)
    x = np.where(m < 0.2, np.nan, np.where(m < 0.4, np.inf, np.where(m < 0.5, -np.inf, x))).astype(G.dt)
    return x


def broad(f, pos=False, scal=True):
    def build(G):
        x = G.a(pos=pos)
        y = G.a(G.bshape(), pos=pos)
        if scal and G.dt != np.int64 and G.r.rand() < 0.3:
            y = float(G.r.choice([0, 1, -0.5, 2]))
            if G.r.rand() < 0.3:
                y = int(y)
        if G.r.rand() < 0.3:
            x, y = y, x
        return (x, y), {}

    return build, f


def red(f, keep=True):
    return (lambda G: ((G.a(),), ax(G, keep))), f


def perm(G):
    return [int(x) for x in G.r.permutation(len(G.shape))]


def need(nd):
    """at least nd axes"""

    def deco(build):
        def b(G):
            if len(G.shape) < nd:
                G.shape = tuple(int(x) for x in G.r.randint(1, 5, nd))
            return build(G)

        return b

    return deco


def mm(G):
    i, j, k = (int(x) for x in G.r.randint(1, 5, 3))
    return [((i,), (i,)), ((i, j), (j,)), ((j,), (j, k)), ((i, j), (j, k))][int(G.r.randint(4))]


def bmm(G):
    i, j, k, B = (int(x) for x in G.r.randint(1, 5, 4))
    return [((i, j), (j, k)), ((B, i, j), (B, j, k)), ((B, i, j), (j, k)), ((i, j), (j,))][int(G.r.randint(4))]


def resh(G):
    n = int(np.prod(G.shape))
    opts = [(n,), (-1,), (1, n), (n, 1), (-1, 1), (G.shape[0], -1) if G.shape else (-1,)]
    return opts[int(G.r.randint(len(opts)))]


def concat(G):
    k = G.axis(none=False)
    out = []
    for _ in range(int(G.r.randint(1, 4))):
        s = list(G.shape)
        s[k] = int(G.r.randint(1, 4))
        out.append(G.a(tuple(s)))
    return (out,), dict(axis=k)


def pads(G):
    return [(int(x), int(y)) for x, y in G.r.randint(0, 3, (len(G.shape), 2))]


def einsums(G):
    i, j, k, B = (int(x) for x in G.r.randint(1, 5, 4))
    o = [("ij,jk->ik", (i, j), (j, k)), ("i,ij,j->", (i,), (i, j), (j,)), ("bij,bj->bi", (B, i, j), (B, j)), ("ij->ji", (i, j)), ("ij,ij->i", (i, j), (i, j)), ("...ij,...jk->...ik", (B, i, j), (B, j, k)), ("ii->i", (i, i)), ("ijk->", (i, j, k))][int(G.r.randint(8))]
    return (o[0],) + tuple(G.a(s) for s in o[1:]), {}


def squeezable(G):
    s = list(G.shape) + [1]
    G.r.shuffle(s)
    k = [i for i, x in enumerate(s) if x == 1]
    return (G.a(tuple(s)),), ({} if G.r.rand() < 0.4 else dict(axis=int(G.r.choice(k))))


def idx(G):
    k = G.axis(none=False)
    s = list(G.shape)
    s[k] = int(G.r.randint(1, 5))
    return (G.a(), G.r.randint(0, G.shape[k], s).astype(np.int64), k), {}


def solve(G):
    A = G.sq()
    return (A, G.a(A.shape[:-1] + (int(G.r.randint(1, 4)),))), {}


def klargs(G):
    p, q = G.a(pos=True), G.a(pos=True)
    z = G.r.rand(*p.shape)
    p = np.where(z < 0.3, 0, p).astype(G.dt)
    q = np.where(z < 0.15, 0, q).astype(G.dt)
    return (p, q), dict(mass=bool(G.r.rand() < 0.5), axis=G.axis())


# name -> (arguments, reference); references are plain NumPy/SciPy
OPS = {
    "sum": red(np.sum), "max": red(np.max), "min": red(np.min), "cumsum": red(np.cumsum, False), "mean": red(np.mean, False), "median": red(np.median, False), "std": red(np.std, False),
    "argmax": red(np.argmax, False), "argmin": red(np.argmin, False),
    "logsumexp": (need(1)(red(None)[0]), scipy.special.logsumexp), "norm": red(np_norm),
    "prod": (need(1)(lambda G: ((G.a(),), dict(axis=G.axis(none=False)))), np.prod),
    "maximum": broad(np.maximum), "minimum": broad(np.minimum),
    "power": (lambda G: ((G.a(pos=True), float(G.r.choice([2.0, 0.5, -1.0, 3.0])) if G.r.rand() < 0.6 else G.a(G.bshape())), {}), np.power),
    "atan2": broad(np.arctan2, scal=False),
    "sign": unary(np.sign), "abs": unary(np.abs), "exp": unary(np.exp), "log": unary(np.log, pos=True), "sqrt": unary(np.sqrt, pos=True), "floor": unary(np.floor),
    "arccos": unary(np.arccos, clip=(-1, 1)), "real": unary(np.real), "conj": unary(np.conj),
    "dot": (lambda G: (tuple(G.a(s) for s in mm(G)), {}), np.dot), "matmul": (lambda G: (tuple(G.a(s) for s in bmm(G)), {}), np.matmul),
    "outer": (lambda G: ((G.a((int(G.r.randint(1, 5)),)), G.a((int(G.r.randint(1, 5)),))), {}), np.outer),
    "einsum": (einsums, np.einsum),
    "any": (lambda G: ((G.a() > 1,), {}), np.any), "isnan": (lambda G: ((nasty(G),), {}), np.isnan), "isinf": (lambda G: ((nasty(G),), {}), np.isinf), "isfinite": (lambda G: ((nasty(G),), {}), np.isfinite),
    "nan_to_num": (lambda G: ((nasty(G),), dict(nan=float(G.r.choice([0.0, 1.5])), posinf=float(G.r.choice([7.0, 2.0])), neginf=-3.0) if G.r.rand() < 0.7 else {}), np.nan_to_num),
    "sort": (need(1)(lambda G: ((G.a(),), dict(axis=G.axis(none=False)) if G.r.rand() < 0.7 else {})), lambda a, axis=-1: np.sort(a, axis)),
    "searchsorted": (lambda G: (sorted2(G, int(G.r.randint(1, 3))), dict(side=str(G.r.choice(["left", "right"])))), np_search),
    "flip": (need(1)(lambda G: ((G.a(),), dict(axis=G.axis()) if G.r.rand() < 0.7 else {})), np.flip),
    "clip": (lambda G: ((G.a(), -1.0 if G.r.rand() < 0.8 else None, 1.5), {}), np.clip),
    "repeat": (need(1)(lambda G: ((G.a(), int(G.r.randint(1, 4))), dict(axis=G.axis()))), np.repeat),
    "take_along_axis": (need(1)(idx), np.take_along_axis),
    "concatenate": (need(1)(concat), np.concatenate),
    "stack": (lambda G: (([G.a() for _ in range(int(G.r.randint(1, 4)))],), dict(axis=int(G.r.randint(-1, len(G.shape) + 1)))), np.stack),
    "zero_pad": (need(1)(lambda G: ((G.a(), pads(G)), dict(value=float(G.r.choice([1.5, -2.0]))) if G.r.rand() < 0.5 else {})), lambda a, w, value=0: np.pad(a, w, constant_values=value)),
    "diag": (lambda G: ((G.a((int(G.r.randint(1, 5)),) * int(G.r.randint(1, 3))),), dict(k=int(G.r.randint(-2, 3))) if G.r.rand() < 0.5 else {}), np.diag),
    "unique": (lambda G: ((G.a(),), {}), np.unique),
    "reshape": (lambda G: ((G.a(), resh(G)), {}), np.reshape),
    "meshgrid": (lambda G: ((G.a((int(G.r.randint(1, 5)),)), G.a((int(G.r.randint(1, 5)),))), {}), np.meshgrid),
    "where": (lambda G: ((G.a() > 0, G.a(), G.a()), {}), np.where),
    "squeeze": (squeezable, np.squeeze), "unsqueeze": (lambda G: ((G.a(), int(G.r.randint(-1, len(G.shape) + 1))), {}), np.expand_dims),
    "transpose": (lambda G: ((G.a(),), dict(axes=perm(G)) if G.r.rand() < 0.6 else {}), np.transpose),
    "tile": (need(1)(lambda G: ((G.a(), tuple(int(x) for x in G.r.randint(1, 4, len(G.shape) + int(G.r.randint(0, 2)))) if G.r.rand() < 0.7 else int(G.r.randint(1, 4))), {})), np.tile),
    "copy": unary(np.copy), "detach": unary(np.copy),
    "solve": (solve, np.linalg.solve), "inv": (lambda G: ((G.sq(),), {}), np.linalg.inv), "pinv": (lambda G: ((G.sq(),), {}), np.linalg.pinv),
    "trace": (lambda G: ((G.sq(),), {}), lambda a: np.trace(a, axis1=-2, axis2=-1)), "det": (lambda G: ((G.sq(),), {}), np.linalg.det),
    "sqrtm": (lambda G: ((G.sq(psd=True),), {}), np_sqrtm),
    "kl_div": (klargs, np_kl),
    "allclose": (lambda G: ((lambda x: (x, x + np.asarray(G.r.choice([0, 1e-9, 1e-3]) * (G.r.rand(*x.shape) < 0.5)).astype(x.dtype)))(G.a()), dict(atol=1e-6) if G.r.rand() < 0.3 else {}), np.allclose),
    "array_equal": (lambda G: ((lambda x: (x, x + np.asarray(G.r.rand(*x.shape) < 0.05).astype(x.dtype)))(G.a()) if G.r.rand() < 0.8 else (G.a((2, 3)), G.a((3, 2))), {}), np.array_equal),
    "eye": (lambda G: ((int(G.r.randint(1, 5)),) + ((int(G.r.randint(1, 5)),) if G.r.rand() < 0.5 else ()), dict(type_as=G.a())), None),
    "zeros": (lambda G: ((G.shape,), dict(type_as=G.a())), None), "ones": (lambda G: ((G.shape if G.r.rand() < 0.7 else int(G.r.randint(1, 5)),), dict(type_as=G.a())), None),
    "full": (lambda G: ((G.shape if G.r.rand() < 0.7 else int(G.r.randint(1, 5)), float(G.r.choice([1.5, 0, -2]))), dict(type_as=G.a())), None),
    "linspace": (lambda G: ((float(G.r.randint(-3, 1)), float(G.r.randint(1, 4)), int(G.r.randint(1, 7))), dict(type_as=G.a())), None),
    "arange": (lambda G: ((int(G.r.randint(1, 9)),) + ((int(G.r.randint(-3, 2)),) if G.r.rand() < 0.5 else ()), {}), lambda stop, start=0: np.arange(start, stop)),
}
NOINT = {"logsumexp", "norm", "solve", "inv", "pinv", "trace", "det", "sqrtm", "kl_div", "exp", "log", "sqrt", "arccos", "atan2", "floor", "power", "mean", "median", "std", "linspace", "isnan", "isinf", "isfinite", "nan_to_num", "zero_pad", "clip", "einsum", "dot", "matmul", "outer"}
DTYPES = {"f8": np.float64, "f4": np.float32, "i8": np.int64}
FREE = {"argmax", "argmin", "arange", "allclose", "array_equal", "any", "isnan", "isinf", "isfinite", "searchsorted"}  # result type is not that of the input


def conv(nx, x):
    if isinstance(x, (np.ndarray, np.generic)):
        return nx.from_numpy(np.array(x))
    if isinstance(x, list) and x and isinstance(x[0], np.ndarray):
        return [nx.from_numpy(y.copy()) for y in x]
    return x


def flat(x):
    if isinstance(x, (list, tuple)):
        return [z for y in x for z in flat(y)]
    return [x]


def primitive(name, nxn, G, rec):
    nx = NX[nxn]
    build, f = OPS[name]
    args, kw = build(G)
    tol = 2e-4 if G.dt == np.float32 else 1e-9
    with np.errstate(all="ignore"):
        if f is None:
            kk = dict(kw)
            dt = kk.pop("type_as").dtype
            want = getattr(np, name)(*args, **kk).astype(dt)
        else:
            want = f(*[(np.array(x, dtype=np.float64) if isinstance(x, np.ndarray) and x.dtype == np.float32 else x) for x in args], **kw) if name not in ("concatenate", "stack", "array_equal", "allclose", "unique", "sort", "nan_to_num") else f(*args, **kw)
    bargs = [conv(nx, x) for x in args]
    bkw = {k: conv(nx, v) for k, v in kw.items()}
    before = [np.array(tonp(x)) for x in flat(bargs) if isinstance(x, nx.__type__)]
    got = getattr(nx, name)(*bargs, **bkw)
    after = [np.array(tonp(x)) for x in flat(bargs) if isinstance(x, nx.__type__)]
    what = "%s.%s(%s)" % (nxn, name, ", ".join(["%s=%r" % i for i in kw.items() if i[0] != "type_as"]))
    for x, y in zip(before, after):
        ensure(np.array_equal(x, y, equal_nan=True), "%s modified its input", what)
    G1, W1 = flat(got), flat(want) if isinstance(want, (list, tuple)) else [want]
    ensure(len(G1) == len(W1), "%s returned %d arrays instead of %d", what, len(G1), len(W1))
    for x, w in zip(G1, W1):
        if not isinstance(x, (bool, int, float, np.generic)):
            ensure(isinstance(x, nx.__type__) or nxn == "numpy", "%s returned a %s", what, type(x).__name__)
            if name not in FREE:
                h = np.array(tonp(x))
                exp = G.dt
                first = [y for y in flat(args) if isinstance(y, np.ndarray)]
                if name in ("any",):
                    exp = bool
                if first or f is None:
                    ensure(h.dtype == exp, "%s of %s arrays returned %s", what, np.dtype(G.dt).name, h.dtype)
        h = np.array(tonp(x)) if not isinstance(x, (bool, int, float)) else np.asarray(x)
        w = np.asarray(w)
        ensure(h.shape == w.shape, "%s returned shape %s instead of %s for arguments of shape %s", what, h.shape, w.shape, [np.shape(y) for y in flat(args)])
        if w.dtype.kind == "b":
            ensure(np.array_equal(h, w), "%s returned %s instead of %s", what, h, w)
        else:
            ensure(np.array_equal(np.isnan(h), np.isnan(w)), "%s: NaN pattern differs from NumPy", what)
            ok = np.isfinite(w)
            ensure(np.array_equal(h[~ok], w[~ok].astype(h.dtype), equal_nan=True), "%s: non-finite entries differ from NumPy", what)
            s = 1 + (np.abs(w[ok]).max() if ok.any() else 0)
            if name == "sqrtm":
                tol = max(tol, 3e-3 if G.dt == np.float32 else 1e-6)
            close(h[ok], w[ok], tol * s, "%s differs from NumPy" % what)


@facet(g.record(op=st.sampled_from(sorted(OPS)), nx=st.sampled_from(["numpy", "torch", "jax", "tf"]), nd=st.integers(0, 3), ties=st.booleans(), dt=st.sampled_from(["f8", "f8", "f4", "i8"]), k=g.seeds), 2500, 60000, weight=3)
def primitives(c, rec):
    """value, shape, dtype of every primitive against NumPy, and unmodified inputs"""
    dt = c["dt"] if not (c["dt"] == "i8" and c["op"] in NOINT) else "f8"
    nd = c["nd"]
    G = Gen(c["k"], nd, c["ties"] or dt == "i8", DTYPES[dt])
    rec.label(c["op"], c["nx"], dt)
    rec.nontrivial(int(np.prod(G.shape)) > 1)
    primitive(c["op"], c["nx"], G, rec)


@facet(g.record(nx=st.sampled_from(["numpy", "torch", "jax", "tf"]), nd=st.integers(1, 2), ties=st.booleans(), dt=st.sampled_from(["f8", "f4"]), k=g.seeds), 800, 12000)
def relations(c, rec):
    """primitives with several valid answers: decompositions, index sorts, sparse arrays, random numbers"""
    nx = NX[c["nx"]]
    dt = DTYPES[c["dt"]]
    G = Gen(c["k"], c["nd"], c["ties"], dt)
    r = G.r
    tol = 2e-4 if c["dt"] == "f4" else 1e-9
    rec.label(c["nx"])
    rec.nontrivial(int(np.prod(G.shape)) > 1)
    x = G.a()
    bx = nx.from_numpy(x.copy())
    ax_ = G.axis(none=False)
    i = tonp(nx.argsort(bx, axis=ax_))
    close(np.take_along_axis(x, i, ax_), np.sort(x, ax_), 0, "argsort does not sort")
    s, i = nx.sort2(bx, axis=ax_)
    close(tonp(s), np.sort(x, ax_), 0, "sort2 does not sort")
    close(np.take_along_axis(x, tonp(i), ax_), tonp(s), 0, "sort2 indices do not sort")
    u, inv = nx.unique(bx, return_inverse=True)
    close(tonp(u), np.unique(x), 0, "unique")
    close(tonp(u)[tonp(inv).reshape(-1)], x.reshape(-1), 0, "inverse of unique")
    w = nx.where(bx > 0)
    for p, q in zip(w, np.where(x > 0)):
        close(tonp(p), q, 0, "where without values")
    # linear algebra
    A = G.sq(psd=True)
    L, V = (tonp(z).astype(float) for z in nx.eigh(nx.from_numpy(A.copy())))
    sc = 1 + np.abs(A).max()
    close((V * L[..., None, :]) @ np.swapaxes(V, -1, -2), A, 50 * tol * sc, "eigh does not decompose the matrix")
    close(np.swapaxes(V, -1, -2) @ V, np.broadcast_to(np.eye(A.shape[-1]), A.shape), 50 * tol, "eigenvectors are not orthonormal")
    ensure((np.diff(L, axis=-1) >= -tol * sc).all(), "eigenvalues are not sorted")
    n, m = (int(z) for z in r.randint(1, 5, 2))
    B = G.a((n, m))
    Q, R = (tonp(z).astype(float) for z in nx.qr(nx.from_numpy(B.copy())))
    close(Q @ R, B, 50 * tol * (1 + np.abs(B).max()), "qr does not decompose the matrix")
    close(Q.T @ Q, np.eye(Q.shape[1]), 50 * tol, "q is not orthonormal")
    close(R, np.triu(R), 50 * tol, "r is not triangular")
    C = G.sq()
    sg, ld = (tonp(z) for z in nx.slogdet(nx.from_numpy(C.copy())))
    ws, wl = np.linalg.slogdet(C.astype(float))
    close(sg, ws, 0, "sign of slogdet")
    close(ld, wl, 50 * tol * (1 + np.abs(wl).max()), "slogdet")
    # scalars, round trips, copies
    y = nx.from_numpy(x.copy())
    ensure(isinstance(y, nx.__type__) and np.array_equal(nx.to_numpy(y), x) and nx.to_numpy(y).dtype == x.dtype, "NumPy round trip changed the array")
    other = np.float32 if dt == np.float64 else np.float64
    z = nx.from_numpy(x.copy(), type_as=nx.from_numpy(np.ones(1, other)))
    ensure(nx.to_numpy(z).dtype == other, "from_numpy ignores type_as")
    close(nx.to_numpy(z), x.astype(other), 0, "from_numpy with type_as changed the values")
    p, q = nx.from_numpy(x.copy(), x.copy() + 1)
    p2, q2 = nx.to_numpy(p, q)
    close(p2, x, 0, "to_numpy of several arrays")
    close(q2, x + 1, 0, "to_numpy of several arrays")
    v = float(r.randn())
    close(np.asarray(nx.to_numpy(nx.from_numpy(v, type_as=bx))), v, 1e-6, "from_numpy of a scalar")
    ensure(get_backend(bx) is nx and get_backend(None, bx, None, y) is nx, "get_backend does not find the library")
    oth = NX[str(r.choice([k for k in NX if k != c["nx"]]))].from_numpy(x.copy())
    raises(lambda: get_backend(bx, oth), "arrays of two libraries were accepted", ValueError)
    raises(lambda: get_backend(oth, bx), "arrays of two libraries were accepted", ValueError)
    raises(lambda: get_backend(), "no argument was accepted", ValueError)
    raises(lambda: get_backend(None), "only None was accepted", ValueError)
    raises(lambda: get_backend(bx, [1.0]), "a list was accepted", ValueError)
    ensure(nx.bitsize(bx) == 8 * np.dtype(dt).itemsize, "bitsize")
    ensure(nx.is_floating_point(bx) and not nx.is_floating_point(nx.from_numpy(np.arange(3))), "is_floating_point")
    ensure(nx.device_type(bx) == "CPU", "device_type")
    nx.assert_same_dtype_device(bx, y)
    d1, _ = nx.dtype_device(bx)
    ensure(d1 == bx.dtype, "dtype_device")
    if c["nx"] != "numpy":
        raises(lambda: nx.assert_same_dtype_device(bx, z), "dtype mismatch was accepted", AssertionError)
    cp = nx.copy(bx)
    if c["nx"] in ("numpy", "torch"):
        cp[...] = 0
        close(tonp(bx), x, 0, "copy shares memory with the original")
    # sparse arrays (duplicates are summed)
    n, m, k = (int(z) for z in r.randint(1, 6, 3))
    rows, cols = r.randint(0, n, k), r.randint(0, m, k)
    val = G.a((k,))
    D = np.zeros((n, m))
    np.add.at(D, (rows, cols), val)
    bv, br, bc = nx.from_numpy(val.copy(), rows, cols)
    S = nx.coo_matrix(bv, br, bc, shape=(n, m), type_as=bv)
    dense = tonp(nx.todense(S))
    close(dense, D, 10 * tol, "coo_matrix / todense")
    ensure(dense.dtype == dt, "coo_matrix changed the dtype to %s", dense.dtype)
    if c["nx"] in ("numpy", "torch"):
        ensure(nx.issparse(S), "coo_matrix is not sparse")
    close(tonp(nx.todense(nx.tocsr(S))), D, 10 * tol, "tocsr")
    if c["nx"] != "tf":
        rr, cc, vv, sh = nx.sparse_coo_data(S)
        close(sp.coo_array((vv, (rr, cc)), shape=sh).toarray(), D, 10 * tol, "sparse_coo_data")
    thr = float(r.choice([0.0, 1.0, 0.5]))
    if not (c["nx"] == "torch" and nx.issparse(S)) or len(set(zip(rows, cols))) == k:
        u = np.zeros((n, m))
        E = tonp(nx.todense(nx.eliminate_zeros(S, threshold=thr)))
        if len(set(zip(rows, cols))) == k:
            close(E, np.where(np.abs(D) > thr, D, 0), 10 * tol, "eliminate_zeros of a sparse array")
    bd = nx.from_numpy(x.copy())
    E = tonp(nx.eliminate_zeros(bd, threshold=thr))
    close(E, np.where(np.abs(x) > thr, x, 0), 0, "eliminate_zeros of a dense array")
    ensure(E.dtype == dt, "eliminate_zeros changed the dtype to %s", E.dtype)
    close(tonp(bd), x, 0, "eliminate_zeros modified its input")
    # random numbers
    sd = int(r.randint(1000))
    for f, args in (("rand", G.shape), ("randn", G.shape), ("randperm", (n,))):
        nx.seed(sd)
        kw = {} if f == "randperm" else dict(type_as=bx)
        o1 = np.array(tonp(getattr(nx, f)(*args, **kw)))
        o2 = np.array(tonp(getattr(nx, f)(*args, **kw)))
        nx.seed(sd)
        o3 = np.array(tonp(getattr(nx, f)(*args, **kw)))
        close(o1, o3, 0, "%s is not reproducible from its seed" % f)
        ensure(o1.shape == (tuple(args)), "%s has shape %s", f, o1.shape)
        if f != "randperm":
            ensure(o1.dtype == dt, "%s ignores type_as (%s)", f, o1.dtype)
            ensure(not np.array_equal(o1, o2), "%s repeats itself", f)
            ensure(f == "randn" or ((o1 >= 0).all() and (o1 < 1).all()), "rand outside [0, 1)")
        else:
            close(np.sort(o1), np.arange(n), 0, "randperm is not a permutation")
    raises(lambda: nx.randperm(2.5), "randperm accepted a non-integer", ValueError)
