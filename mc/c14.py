"""C14: the law of a Brownian path is exactly that of Brownian motion with its Levy areas.

Every answer of a path is a linear function of independent standard normal draws.  The draws
are replaced by symbols: the path has shape (B,), and the n-th distinct (key, component) drawn
is replaced by the n-th unit vector of R^B.  An answer then *is* its vector of coefficients,
and the covariance of two answers is the inner product of their vectors -- exactly, not
statistically.  It is compared with the integral of the kernels of the two functionals,

    W = int 1 dB,   H = int (t - v)/h - 1/2 dB(v),   K = int (x^2 - x)/2 + 1/12 dB(v), x=(v-s)/h,

for all pairs of intervals between points no two of which lie inside the same cell of the tree.
"""

import functools as ft
import itertools
import sys
import threading

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np
from numpy.polynomial import Polynomial as P

from . import common

BOUNDS = (
    "3 kinds of Levy area x trees of depth 0..4 (thorough 0..6) x 3 intervals x all pairs of "
    "intervals between all nodes and one interior point per cell (4 positions of them); "
    "independence of all pairs of 3 leaves; UnsafeBrownianPath: all pairs of 45 intervals, both "
    "precisions; linearity by scaling the draws"
)
ASSUMPTIONS = [
    "jax.random.normal draws independent standard normals for different keys and components",
]
LEVY = {
    "W": dfx.BrownianIncrement,
    "WH": dfx.SpaceTimeLevyArea,
    "WHK": dfx.SpaceTimeTimeLevyArea,
}


class Symbols:
    """Stands in for jax.random.normal."""

    def __init__(self, B):
        self.B = B
        self.scale = 1.0
        self.table = {}
        self.foreign = 0
        self.lock = threading.Lock()

    def host(self, key, shape, axis):
        out = np.zeros(shape, np.float64)
        kb = np.asarray(key).tobytes()
        moved = np.moveaxis(out, axis, -1)
        rest = moved.reshape((-1, self.B))
        with self.lock:
            for j in range(rest.shape[0]):
                k = self.table.setdefault((kb, j), len(self.table))
                if k < self.B - 1:
                    rest[j, k] = self.scale
        return np.moveaxis(rest.reshape(moved.shape), -1, axis)

    def normal(self, key, shape=(), dtype=None, **kw):
        shape = tuple(shape)
        dtype = jnp.zeros((), float).dtype if dtype is None else jnp.dtype(dtype)
        if jnp.issubdtype(key.dtype, jax.dtypes.prng_key):
            key = jax.random.key_data(key)
        if shape.count(self.B) != 1:
            self.foreign += 1
            return REAL(key, shape, dtype)
        axis = shape.index(self.B)
        res = jax.pure_callback(
            lambda k: self.host(k, shape, axis), jax.ShapeDtypeStruct(shape, jnp.float64), key,
            vmap_method="sequential",
        )
        return res.astype(dtype)


REAL = jax.random.normal


OTHERS = (
    "uniform", "rademacher", "truncated_normal", "bernoulli", "laplace", "logistic", "t", "cauchy",
    "exponential", "gumbel", "gamma", "randint", "choice", "generalized_normal", "lognormal",
    "double_sided_maxwell", "triangular",
)


class patched:
    """All of diffrax's normal draws are symbols; draws from other distributions are noted."""

    def __init__(self, B):
        self.sym = Symbols(B)
        self.sym.other = set()
        self.undo = []

    def put(self, module, name, value):
        self.undo.append((module, name, getattr(module, name)))
        setattr(module, name, value)

    def note(self, name, fn):
        def wrapped(*args, **kwargs):
            self.sym.other.add(name)
            return fn(*args, **kwargs)

        return wrapped

    def __enter__(self):
        table = {id(REAL): self.sym.normal}
        for name in OTHERS:
            if hasattr(jax.random, name):
                fn = getattr(jax.random, name)
                table[id(fn)] = self.note(name, fn)
        inner = sys.modules[REAL.__module__]
        self.put(inner, "normal", self.sym.normal)
        for mname, module in list(sys.modules.items()):
            if mname == "jax.random" or mname.split(".")[0] == "diffrax":
                for name, value in list(vars(module).items()):
                    if id(value) in table:
                        self.put(module, name, table[id(value)])
        jax.clear_caches()
        return self.sym

    def __exit__(self, *exc):
        for module, name, value in reversed(self.undo):
            setattr(module, name, value)
        jax.clear_caches()


def modelled(rep, sym, X, X2=None):
    """Whether all of the randomness was intercepted."""
    rep.check(not sym.other, "draws that are not normal", got=sorted(sym.other))
    n = len(sym.table)
    ok = not sym.foreign and 0 < n < sym.B - 1
    # Random numbers from elsewhere would depend on the key.
    if ok and X2 is not None:
        ok = np.allclose(X, X2, rtol=1e-6, atol=1e-9)
    if not ok:
        rep.outcome("not modelled")
    return ok


def kernels(s, t):
    h = t - s
    x = P([-s / h, 1 / h])
    return [P([1.0]), P([t / h - 0.5, -1 / h]), (x * x - x) / 2 + 1 / 12]


def coords(points, intervals, nf):
    """The kernels in an orthonormal basis (Legendre on every cell between points)."""
    cells = list(zip(points[:-1], points[1:]))
    xs, ws = np.polynomial.legendre.leggauss(5)
    leg = [np.polynomial.Legendre.basis(k) for k in range(3)]
    out = np.zeros((len(intervals) * nf, len(cells) * 3))
    for i, (s, t) in enumerate(intervals):
        ks = kernels(s, t)[:nf]
        for c, (a, b) in enumerate(cells):
            if a >= s - 1e-14 and b <= t + 1e-14:
                v = (a + b) / 2 + (b - a) / 2 * xs
                for f, k in enumerate(ks):
                    kv = k(v)
                    for q in range(3):
                        norm = np.sqrt((2 * q + 1) / (b - a))
                        out[i * nf + f, c * 3 + q] = norm * np.sum(ws * (b - a) / 2 * kv * leg[q](xs))
    return out


def selftest():
    pts = np.array([0.0, 0.3, 1.0])
    C = coords(pts, [(0.0, 1.0)], 3)
    assert np.allclose(C @ C.T, np.diag([1.0, 1 / 12, 1 / 720]), atol=1e-13)


selftest()


def tree(levy, depth, interval, frac):
    rep = common.Report()
    a, b = interval
    ncell = 2**depth
    nodes = np.arange(ncell + 1) / ncell
    fr = [(np.arange(ncell) + (frac + 0.17 * np.arange(ncell)) % 0.96 + 0.02) / ncell]
    rel = np.unique(np.concatenate([nodes] + fr))
    pts = a + rel * (b - a)
    pts[-1] = b
    B = 4 + 3 + 3 * (2 * ncell) + 3
    while any(B % d == 0 for d in range(2, int(B**0.5) + 1)):
        B += 1
    nf = len(levy)
    intervals = list(itertools.combinations(range(len(pts)), 2))
    case = dict(levy=levy, depth=depth, interval=interval, frac=frac)
    outs = []
    with patched(B) as sym:
        f = jax.jit(
            lambda key, s, t: dfx.VirtualBrownianTree(
                a, b, (b - a) / ncell * 1.0001, (B,), key, levy_area=LEVY[levy]
            ).evaluate(s, t, use_levy=True)
        )
        for run, seed in enumerate((6, 5, 5) if frac in (0.0, 0.3) else (6, 5)):
            sym.scale = 2.0 if run == 2 else 1.0
            if run < 2:
                sym.table.clear()
            key = jax.random.PRNGKey(seed)
            X = np.zeros((len(intervals) * nf, B))
            for i, (j, k) in enumerate(intervals):
                out = jax.device_get(f(key, pts[j], pts[k]))
                for m, fld in enumerate(levy):
                    X[i * nf + m] = getattr(out, fld)
            outs.append(X)
    X = outs[1]
    ndraw = len(sym.table)
    rep.outcome(f"draws={ndraw}")
    if not modelled(rep, sym, X @ X.T, outs[0] @ outs[0].T):
        return rep
    rep.check(not np.any(X[:, ndraw:]), "mean of the path is not zero", **case)
    if len(outs) > 2:
        rep.check(np.allclose(outs[2], 2 * X, atol=1e-12), "not Gaussian: not linear in the draws", **case)
    got = X @ X.T
    C = coords(pts, [(pts[j], pts[k]) for j, k in intervals], nf)
    want = C @ C.T
    scale = np.sqrt(np.outer(np.diag(want), np.diag(want)))
    err = np.abs(got - want) / scale
    # Levy areas over intervals are differences of values over [t0, s]: rounding is relative
    # to these.
    bad = np.argwhere(err > 1e-6)
    for i, j in bad[:3]:
        q = lambda n: dict(kind=levy[n % nf], s=pts[intervals[n // nf][0]], t=pts[intervals[n // nf][1]])
        rep.fail("covariance is not that of Brownian motion", of=q(i), and_=q(j), got=got[i, j], want=want[i, j], **case)
    n = len(intervals)
    rep.extra_states += n * nf
    rep.transitions += n * nf * (n * nf + 1) // 2
    rep.traces += n
    rep.sample(dict(case, err=err.max()))
    return rep


def leaves(levy, unsafe):
    """Different leaves of one path, and different paths, are independent."""
    rep = common.Report()
    B = 307
    sd = jax.ShapeDtypeStruct((B,), jnp.float64)
    shape = {"a": sd, "b": (sd, sd)}
    rows, tags = [], []
    with patched(B) as sym:
        for seed in (0, 1):
            key = jax.random.key(seed) if seed else jax.random.PRNGKey(seed)
            if unsafe:
                bm = dfx.UnsafeBrownianPath(shape, key, levy_area=LEVY[levy])
            else:
                bm = dfx.VirtualBrownianTree(0.0, 1.0, 0.3, shape, key, levy_area=LEVY[levy])
            for s, t in [(0.0, 1.0), (0.2, 0.7), (0.2, 0.4)]:
                out = jax.device_get(bm.evaluate(s, t, use_levy=True))
                for fld in levy:
                    for i, leaf in enumerate(jax.tree_util.tree_leaves(getattr(out, fld))):
                        rows.append(leaf)
                        tags.append((seed, i, fld, s, t))
    X = np.array(rows)
    if not modelled(rep, sym, X):
        return rep
    G = X @ X.T
    for i, j in itertools.combinations(range(len(tags)), 2):
        rep.transitions += 1
        if tags[i][:2] != tags[j][:2]:
            rep.check(
                abs(G[i, j]) < 1e-12, "different leaves or paths are correlated", levy=levy, unsafe=unsafe,
                a=tags[i], b=tags[j], got=G[i, j],
            )
    for i, tag in enumerate(tags):
        rep.state(*tag)
        h = tag[4] - tag[3]
        want = dict(W=h, H=h / 12, K=h / 720)[tag[2]]
        rep.check(abs(G[i, i] / want - 1) < 1e-9, "variance", levy=levy, unsafe=unsafe, of=tag, got=G[i, i], want=want)
    rep.traces += len(tags)
    rep.sample(dict(levy=levy, unsafe=unsafe))
    return rep


def unsafe(levy, single):
    rep = common.Report()
    B = 307
    dt = jnp.float32 if single else jnp.float64
    pts = np.array([-1.0, 0.0, 0.1, 0.25, 0.5, 0.75, 1.0, 1.1, 2.0, 4.0])
    if not single:
        pts = np.sort(np.append(pts, 1.0 + 2.0**-40))
    intervals = list(itertools.combinations(pts, 2))
    nf = len(levy)
    with patched(B) as sym:
        bm = dfx.UnsafeBrownianPath(jax.ShapeDtypeStruct((B,), dt), jax.random.PRNGKey(2), levy_area=LEVY[levy])
        f = jax.jit(lambda s, t: bm.evaluate(s, t, use_levy=True))
        plain = jax.jit(lambda s, t: bm.evaluate(s, t))
        X = []
        for s, t in intervals:
            out = jax.device_get(f(jnp.asarray(s, dt), jnp.asarray(t, dt)))
            X += [np.asarray(getattr(out, fld), float) for fld in levy]
            w = plain(jnp.asarray(s, dt), jnp.asarray(t, dt))
            rep.check(np.array_equal(w, out.W), "increment with and without Levy area", levy=levy, s=s, t=t)
        one = jax.device_get(bm.evaluate(jnp.asarray(0.5, dt)))
    X = np.array(X)
    if not modelled(rep, sym, X):
        return rep
    G = X @ X.T
    i0 = intervals.index((0.0, 0.5)) * nf
    rep.check(np.allclose(one, X[i0]), "value is not the increment from zero", levy=levy)
    want = np.diag([x for s, t in intervals for x in [t - s, (t - s) / 12, (t - s) / 720][:nf]])
    tol = 1e-5 if single else 1e-9
    sc = np.sqrt(np.outer(np.diag(want), np.diag(want)))
    bad = np.argwhere(np.abs(G - want) > tol * sc)
    q = lambda n: dict(kind=levy[n % nf], s=intervals[n // nf][0], t=intervals[n // nf][1])
    for i, j in bad[:3]:
        rep.fail("covariance of the increments", levy=levy, single=single, of=q(i), and_=q(j), got=G[i, j], want=want[i, j])
    rep.extra_states += len(X)
    rep.transitions += len(X) ** 2
    rep.traces += len(intervals)
    rep.sample(dict(levy=levy, single=single, draws=len(sym.table)))
    return rep


def SCENARIOS(tier):
    th = tier == "thorough"
    out = []
    ivs = [(0.0, 1.0), (-1.5, 2.5), (3.0, 3.7)]
    for levy in LEVY:
        for d in range(7 if th else 5):
            for i, iv in enumerate(ivs):
                if not th and i != d % 3:
                    continue
                if d > 5 and i:
                    continue
                for frac in (0.0, 0.3, 0.55, 0.8) if d < 5 else (0.3,):
                    if not th and frac not in ((0.0, 0.55) if d < 4 else (0.3,)):
                        continue
                    out.append((f"tree-{levy}-{d}-{i}-{frac}", ft.partial(tree, levy, d, iv, frac)))
        for u in (False, True):
            out.append((f"leaves-{levy}-{u}", ft.partial(leaves, levy, u)))
        for single in (False, True):
            out.append((f"unsafe-{levy}-{single}", ft.partial(unsafe, levy, single)))
    out.sort(key=lambda x: -int(x[0].split("-")[2]) if x[0].startswith("tree") else 0)
    return out
