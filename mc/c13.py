"""C13: a Brownian path is one function of time: every query, in any order, by any caller, is
consistent with every other (increments add up; the Levy areas obey Chen's relation)."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from . import common, scripted as S, zoo

BOUNDS = (
    "3 kinds of Levy area x 4 intervals x tolerances giving trees of depth 0..5 (and not powers "
    "of two) x all triples s <= u <= t of 21 (thorough 37) query times (nodes of the tree, "
    "midpoints, generic, ends) ; 4 PyTree structures x 2 precisions; all step histories of depth "
    "4 (thorough 5) in complete solves, both directions; the first 20 dyadic times after the start "
    "of a path in single precision"
)
LEVY = {
    "W": dfx.BrownianIncrement,
    "WH": dfx.SpaceTimeLevyArea,
    "WHK": dfx.SpaceTimeTimeLevyArea,
}


def chen(h1, x1, h2, x2):
    """(W, H, K) over [s, t] from those over [s, u] and [u, t], from their definitions

    H = 1/h int (W_r - (r-s)/h W) dr,  K = 1/h^2 int (W_r - (r-s)/h W) (h/2 - (r-s)) dr.
    """
    W1, H1, K1 = x1
    W2, H2, K2 = x2
    h = h1 + h2
    W = W1 + W2
    A = h2 * W1 - h1 * W2
    hH = h1 * H1 + h2 * H2 + A / 2
    hhK = h1**2 * K1 + h2**2 * K2 + h1 * h2 * (H1 - H2) / 2 + (h2 - h1) * A / 12
    with np.errstate(all="ignore"):
        return W, np.where(h == 0, 0, hH / h), np.where(h == 0, 0, hhK / h**2)


def _selftest():
    """The relation above, on functions for which everything is an exact integral."""
    from numpy.polynomial import Polynomial as P

    def area(p, s, t):
        h = t - s
        x = P([0, 1])
        w = p - p(s)
        arch = w - (x - s) * (w(t) / h)
        I = lambda q: q.integ()(t) - q.integ()(s)
        return w(t), I(arch) / h, I(arch * (h / 2 - (x - s))) / h**2

    for k in range(1, 5):
        p = P([0] * k + [1]) + P([0.3, -1.0, 0.7])
        for s, u, t in [(0.0, 0.3, 1.0), (-0.4, 0.7, 0.9)]:
            got = chen(u - s, area(p, s, u), t - u, area(p, u, t))
            assert np.allclose(got, area(p, s, t), atol=1e-12)


_selftest()


def grid(a, b, fine):
    fr = set(np.arange(0, 2 * fine + 1) / (2.0 * fine)) | {1 / 3, 0.1, 0.9, 0.6180339887}
    return a + np.array(sorted(fr)) * (b - a)


def queries(levy, interval, tol_frac, fine):
    rep = common.Report()
    a, b = interval
    key = jax.random.PRNGKey(7)
    bm = dfx.VirtualBrownianTree(a, b, tol_frac * (b - a), (), key, levy_area=LEVY[levy])
    ts = np.clip(grid(a, b, fine), a, b)
    n = len(ts)
    f = eqx.filter_jit(jax.vmap(lambda s, t: bm.evaluate(s, t, use_levy=True)))
    s, t = [x.ravel() for x in np.meshgrid(ts, ts, indexing="ij")]
    out = jax.device_get(f(s, t))
    rep.check(isinstance(out, LEVY[levy]), "kind of Levy area", got=type(out).__name__)
    sq = lambda x: np.asarray(x).reshape(n, n)
    W = sq(out.W)
    H = sq(out.H) if levy != "W" else np.zeros((n, n))
    K = sq(out.K) if levy == "WHK" else np.zeros((n, n))
    one = jax.device_get(eqx.filter_jit(jax.vmap(lambda t: bm.evaluate(t)))(ts))
    plain = jax.device_get(eqx.filter_jit(jax.vmap(lambda s, t: bm.evaluate(s, t)))(s, t))
    case = dict(levy=levy, interval=interval, tol=tol_frac)
    rep.check(np.allclose(sq(plain), W, atol=1e-12), "increment with and without Levy area", **case)
    rep.check(np.allclose(one, W[0], atol=1e-12), "value is not the increment from the start", **case)
    rep.check(np.allclose(sq(out.dt), t.reshape(n, n) - s.reshape(n, n), atol=1e-9), "dt", **case)
    rep.check(np.allclose(W, -W.T, atol=1e-12), "antisymmetry of increments", **case)
    distinct = len(np.unique(np.round(one, 10)))
    rep.check(distinct == n, "path takes the same value at different times", got=distinct, want=n, **case)
    scale = max(1.0, np.abs(W).max())
    for i, j, k in itertools.combinations_with_replacement(range(n), 3):
        rep.state(i, j, k)
        rep.transitions += 3
        h1, h2 = ts[j] - ts[i], ts[k] - ts[j]
        w, h, kk = chen(h1, (W[i, j], H[i, j], K[i, j]), h2, (W[j, k], H[j, k], K[j, k]))
        q = dict(s=ts[i], u=ts[j], t=ts[k], **case)
        rep.check(abs(w - W[i, k]) < 1e-11 * scale, "increments do not add up", got=w, want=W[i, k], **q)
        if h1 + h2 > 0:
            if levy != "W":
                rep.check(abs(h - H[i, k]) < 1e-8 * scale, "space-time Levy areas do not add up", got=h, want=H[i, k], **q)
            if levy == "WHK":
                rep.check(abs(kk - K[i, k]) < 1e-7 * scale, "space-time-time Levy areas do not add up", got=kk, want=K[i, k], **q)
        else:
            rep.check(W[i, k] == 0 and abs(H[i, k]) < 1e-9, "empty interval", **q)
        rep.traces += 1
    # asked one at a time, unbatched, in another order
    g = eqx.filter_jit(lambda s, t: bm.evaluate(s, t, use_levy=True))
    for i, k in [(i, k) for k in range(n - 1, -1, -3) for i in range(0, k, 4)]:
        x = jax.device_get(g(ts[i], ts[k]))
        rep.transitions += 1
        rep.check(
            np.allclose(x.W, W[i, k], rtol=1e-12, atol=1e-12)
            and (levy == "W" or np.allclose(x.H, H[i, k], atol=1e-9)),
            "answer depends on how or when it is asked for", s=ts[i], t=ts[k], **case,
        )
    for bad in (a - 0.1, b + 0.1):
        try:
            bm.evaluate(jnp.array(bad))
            rep.fail("evaluated outside of its interval", t=bad, **case)
        except Exception:
            rep.outcome("out of range refused")
    rep.sample(dict(case, W=W[0, :3]))
    return rep


def structures(unsafe, only):
    """PyTrees, shapes, precisions: every leaf is a path of its own."""
    rep = common.Report()
    sd = jax.ShapeDtypeStruct
    f32, f64 = jnp.float32, jnp.float64
    shapes = {
        "tuple": (3, 2),
        "scalar": (),
        "dict": {"a": sd((2,), f64), "b": sd((2,), f64)},
        "mixed": (sd((2, 2), f32), {"x": sd((), f64), "y": sd((2,), f32)}),
        "f32": sd((3,), f32),
        "empty": sd((0,), f64),
    }
    for levy, newkey in itertools.product(LEVY, (False, True)):
        nm, shape = only, shapes[only]
        if newkey and nm not in ("dict", "scalar"):
            continue
        mk = jax.random.key if newkey else jax.random.PRNGKey

        def make(seed):
            if unsafe:
                return dfx.UnsafeBrownianPath(shape, mk(seed), levy_area=LEVY[levy])
            return dfx.VirtualBrownianTree(-1.0, 2.0, 0.1, shape, mk(seed), levy_area=LEVY[levy])

        bm = make(0)
        out = bm.evaluate(0.25, 1.5, use_levy=True)
        again = make(0).evaluate(0.25, 1.5, use_levy=True)
        other = make(1).evaluate(0.25, 1.5, use_levy=True)
        case = dict(shape=nm, levy=levy, newkey=newkey, unsafe=unsafe)
        want = jax.tree_util.tree_leaves(
            sd(shape, f64) if isinstance(shape, tuple) and all(isinstance(i, int) for i in shape) else shape
        )
        for fld in levy:
            got = jax.tree_util.tree_leaves(getattr(out, fld))
            rep.check(
                [(g.shape, g.dtype) for g in got] == [(w.shape, w.dtype) for w in want],
                f"shape of {fld}", got=[str(g.dtype) for g in got], **case,
            )
            vals = np.concatenate([np.asarray(g, float).ravel() for g in got])
            rep.check(len(np.unique(vals)) == len(vals), "entries of the path coincide", got=vals, **case)
            rep.check(zoo.tree_close(getattr(out, fld), getattr(again, fld), 0, 0), "not a function of the key", **case)
            if len(vals):
                ov = np.concatenate([np.asarray(g, float).ravel() for g in jax.tree_util.tree_leaves(getattr(other, fld))])
                rep.check(not np.any(vals == ov), "same for another key", **case)
            rep.state(nm, levy, newkey, fld)
            rep.transitions += 1
        lv = [np.asarray(getattr(out, f_), float).ravel()[:1] for f_ in levy if nm == "tuple"]
        dts = jax.tree_util.tree_leaves(out.dt)
        rep.check(all(abs(float(d) - 1.25) < 1e-6 for d in dts), "dt", **case)
        rep.traces += 1
    rep.sample(case)
    return rep


def solves(levy, depth, backwards):
    """dy = dW: whatever the steps, the solution is the path."""
    rep = common.Report()
    scripts = S.scripts(("a1", "rh", "ah", "rq", "a2"), depth)
    enc = jnp.asarray(S.encode(scripts))
    a, b = (1.7, -0.3) if backwards else (-0.3, 1.7)
    bm = dfx.VirtualBrownianTree(-1.0, 2.0, 2.0**-7, (2,), jax.random.PRNGKey(3), levy_area=LEVY[levy])
    q = np.array([a, a + 0.3 * (b - a), b])

    @eqx.filter_jit
    @jax.vmap
    def run(script):
        sol = dfx.diffeqsolve(
            dfx.ControlTerm(lambda t, y, args: jnp.eye(2), bm), dfx.Euler(), a, b, 0.3 * (b - a), jnp.array([1.0, 2.0]),
            stepsize_controller=zoo.ReplayController(script), max_steps=20, throw=False, saveat=dfx.SaveAt(t0=True, steps=True),
        )
        return dict(ts=sol.ts, ys=sol.ys, n=sol.stats["num_accepted_steps"], m=sol.stats["num_steps"])

    out = jax.device_get(run(enc))
    ev = eqx.filter_jit(jax.vmap(jax.vmap(lambda t: bm.evaluate(jnp.where(jnp.isfinite(t), t, a)))))
    want = jax.device_get(ev(out["ts"]))
    w0 = np.asarray(bm.evaluate(a))
    for k, script in enumerate(scripts):
        n = int(out["n"][k]) + 1
        rep.state(script)
        rep.transitions += int(out["m"][k])
        rep.traces += 1
        err = np.abs(out["ys"][k][:n] - (np.array([1.0, 2.0]) + want[k][:n] - w0))
        rep.check(
            np.all(err < 1e-10), "the solution of dy = dW is not the path", levy=levy, script=script, err=err.max(),
            backwards=backwards,
        )
    rep.sample(dict(levy=levy, script=script))
    return rep


def near_start(levy, dtype):
    """A path asked at a time is the path asked from its start to that time, however close."""
    rep = common.Report()
    iv = (0.5, 2.5)
    path = dfx.VirtualBrownianTree(*(jnp.asarray(x, dtype) for x in iv), 2.0**-26, jax.ShapeDtypeStruct((3,), dtype), jax.random.PRNGKey(5), levy_area=LEVY[levy])
    ks = range(0, 20)
    ts = jnp.array([iv[0] + 2.0 ** (1 - k) for k in ks], dtype)
    one = jax.jit(jax.vmap(lambda t: path.evaluate(t, use_levy=True)))(ts)
    two = jax.jit(jax.vmap(lambda t: path.evaluate(path.t0, t, use_levy=True)))(ts)
    for n, k in enumerate(ks):
        rep.state(levy, k)
        rep.transitions += 2
        rep.traces += 1
        for f in one.__dataclass_fields__:
            a, b = np.asarray(getattr(one, f))[n], np.asarray(getattr(two, f))[n]
            rep.check(common.close(a, b, 1e-4, 1e-7), "value just after the start", levy=levy, quantity=f, k=k, got=a, want=b)
    rep.sample(dict(levy=levy))
    return rep


def SCENARIOS(tier):
    th = tier == "thorough"
    out = []
    ivs = [(0.0, 1.0), (-1.5, 2.5), (3.0, 3.7), (-2.0, -1.75)]
    tols = [2.0, 1.0, 0.5, 0.25, 0.1, 2.0**-4, 0.03]
    for levy in LEVY:
        combos = list(itertools.product(range(len(ivs)), tols)) if th else [
            (0, 2.0**-3), (1, 0.1), (2, 1.0)
        ]
        for i, tol in combos:
            out.append((f"queries-{levy}-{i}-{tol}", ft.partial(queries, levy, ivs[i], tol, 16 if th else 8)))
        for back in (False, True):
            out.append((f"solve-{levy}-{back}", ft.partial(solves, levy, 5 if th else 4, back)))
    for levy in LEVY:
        for d in (jnp.float32, jnp.float64) if th else (jnp.float32,):
            out.append((f"start-{levy}-{d.__name__}", ft.partial(near_start, levy, d)))
    for sh in ("tuple", "scalar", "dict", "mixed", "f32", "empty"):
        out.append((f"structures-tree-{sh}", ft.partial(structures, False, sh)))
        out.append((f"structures-unsafe-{sh}", ft.partial(structures, True, sh)))
    out.sort(key=lambda x: not x[0].startswith(("struct", "solve")))
    return out
