"""Facets, verdicts and helpers shared by all checks.

A facet = generator of JSON-able cases (a Hypothesis strategy) + a deterministic `run(case, rec)`
that executes the real code on the case and evaluates an explicit oracle.  `run` never draws
randomness of its own (only generators seeded from the case), so a case alone replays a failure.
"""
import math
import random
import sys
import traceback

import numpy as np

REPO = "/repo/"


class Bad(Exception):
    """The property is violated on this case."""


class Rec:
    """Per-case record: labels for the distribution, and whether the case was non-trivial."""
    __slots__ = ("labels", "_nt", "skipped")

    def __init__(self):
        self.labels, self._nt, self.skipped = [], True, None

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, cond):
        self._nt = bool(cond)

    def known(self, tag, msg):
        """The property fails here in exactly the way the known finding `tag` describes."""
        if tag not in KNOWN:
            raise Bad(msg)
        self.labels.append("known:" + tag)

    def skip(self, why):
        """Inconclusive (e.g. solver reports it did not converge): counted, never non-trivial."""
        self._nt = False
        self.skipped = why
        self.labels.append("skip:" + why)


    def stop(self, why):
        """skip() and end this case."""
        self.skip(why)
        raise Stop(why)


class Stop(Exception):
    pass


class Facet:
    def __init__(self, name, gen, run, quick, thorough, shards, weight, doc):
        self.name, self.gen, self.run = name, gen, run
        self.quick, self.thorough, self.shards, self.weight = quick, thorough, shards, weight
        self.doc = doc


FACETS = []
KNOWN = set()  # tags of the known findings of this property (filled by the worker)


def facet(gen, quick, thorough=None, name=None, shards=None, weight=1.0):
    """gen: a Hypothesis strategy (or zero-argument callable returning one)."""
    def deco(fn):
        FACETS.append(Facet(name or fn.__name__, gen, fn, quick, thorough or quick * 20, shards, weight,
                            (fn.__doc__ or "").strip()))
        return fn
    return deco


def ensure(cond, msg="property does not hold", *args):
    if not bool(cond):
        raise Bad(msg % args if args else msg)


def arr(x, shape=None, finite=True, what="result"):
    """x as a float numpy array of the given shape (None = any); otherwise Bad."""
    if x is None:
        raise Bad(f"{what} is None")
    try:
        if hasattr(x, "toarray"):
            x = x.toarray()
        x = np.asarray(x)
        if x.dtype.kind in "biu":
            x = x.astype(float)
        if x.dtype.kind not in "fc":
            raise Bad(f"{what} is not numeric: {x.dtype}")
    except Bad:
        raise
    except Exception as e:
        raise Bad(f"{what} is not an array: {type(x).__name__} ({e})")
    if shape is not None and tuple(x.shape) != tuple(shape):
        raise Bad(f"{what} has shape {x.shape}, expected {tuple(shape)}")
    if finite and not np.all(np.isfinite(x)):
        raise Bad(f"{what} has non-finite entries")
    return x


def num(x, finite=True, what="value"):
    """x as a Python float (a scalar or size-1 array); otherwise Bad."""
    x = arr(x, None, finite, what)
    if x.size != 1:
        raise Bad(f"{what} is not a scalar: shape {x.shape}")
    return float(x.reshape(()))


def close(x, y, tol, msg="values differ", rtol=0.0):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        try:
            np.broadcast_shapes(x.shape, y.shape)
        except ValueError:
            raise Bad(f"{msg}: shapes {x.shape} vs {y.shape}")
    lim = tol + rtol * np.maximum(np.abs(x), np.abs(y))
    d = np.abs(x - y)
    ok = d <= lim
    # equal infinities are fine, NaN never is
    ok = ok | ((x == y) & ~np.isnan(x))
    if not np.all(ok):
        with np.errstate(all="ignore"):
            i = int(np.nanargmax(np.where(ok, -1, np.where(np.isnan(d), np.inf, d)).ravel()))
        xb, yb = np.broadcast_arrays(x, y)
        raise Bad(f"{msg}: {xb.ravel()[i]!r} vs {yb.ravel()[i]!r} (|diff| {np.broadcast_to(d, xb.shape).ravel()[i]:.3g}, allowed {float(np.max(lim)):.3g})")


def leq(x, y, tol, msg="inequality fails"):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    d = x - y
    if not np.all(d <= tol):
        raise Bad(f"{msg}: exceeds by {np.max(np.where(np.isnan(d), np.inf, d)):.3g} (allowed {float(np.max(tol)):.3g})")


def coupling(G, a, b, tol, what="plan", neg=0.0):
    """G is a non-negative matrix with marginals a, b (either may be None)."""
    n = None if a is None else len(a)
    G = arr(G, None, True, what)
    if G.ndim != 2 or (a is not None and G.shape[0] != n) or (b is not None and G.shape[1] != len(b)):
        raise Bad(f"{what} has shape {G.shape}")
    if G.size and G.min() < -neg:
        raise Bad(f"{what} has negative entry {G.min():.3g}")
    if a is not None:
        close(G.sum(1), a, tol, f"{what}: source marginal")
    if b is not None:
        close(G.sum(0), b, tol, f"{what}: target marginal")
    return G


def raises(fn, msg, exc=Exception):
    try:
        r = fn()
    except exc as e:
        return e
    raise Bad(f"{msg}: accepted, returned {str(r)[:150]}")


def in_repo(e):
    """True when the exception passed through a frame of the code under test."""
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO + "ot/") or fn.startswith("ot/"):
            return True
        tb = tb.tb_next
    # Cython frames appear as relative paths in the formatted traceback
    return any(f.filename.startswith(("ot/", REPO + "ot/")) for f in traceback.extract_tb(e.__traceback__))


def execute(fc, case):
    """-> (rec, None) or (rec, message of the violation). Harness errors propagate."""
    rec = Rec()
    reseed()
    try:
        try:
            fc.run(case, rec)
        except Stop:
            pass
    except Bad as e:
        return rec, str(e)
    except MemoryError:
        raise
    except Exception as e:
        if in_repo(e):
            return rec, f"unexpected {type(e).__name__} from the library on a valid input: {e}"
        raise
    return rec, None


def reseed(k=0):
    """Unseeded library calls must still be a function of the case."""
    random.seed(k)
    np.random.seed(k)
    if "torch" in sys.modules:
        sys.modules["torch"].manual_seed(k)
    if "tensorflow" in sys.modules:
        sys.modules["tensorflow"].random.set_seed(k)


def fnv(s):
    return hash(s)  # PYTHONHASHSEED=0


def isclose(a, b, tol):
    return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol


def settle(G, gap, again, tol, msg, tries=6):
    """gap(G) <= tol, possibly after restarting the solver from its own result. A conditional-gradient step along a direction
    on which the objective is flat (equal values at both ends) ends the run at a plan that need not be stationary; continuing
    from there makes progress unless the solver is really stuck."""
    v = gap(G)
    for _ in range(tries):
        if v <= tol:
            return G
        G = np.asarray(again(G), float)
        v = gap(G)
    leq(v, 0, tol, msg)
    return G
