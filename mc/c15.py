"""C15: interpolations of discrete data with missing values are what they are documented to be,
for every pattern of missing values.

Every pattern of missing observations of up to T observations is one channel of the data, so
that one call of the real code covers all of them at once; the reference model is evaluated per
pattern from the definition of the interpolation (knots = the observations that are there)."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from . import common

BOUNDS = (
    "all 2^T patterns of missing values, T = 2..6 (thorough 2..9), x fill-forward at the end x "
    "replacement at the start (none, scalar, per channel) x initial slope (none, given) x 2 grids "
    "of times x all knots from the left and from the right and 2 interior points per piece; "
    "values, derivatives, increments over all pairs of points; arrays, PyTrees, scalar channels, "
    "vmap, both precisions, complex"
)
NAN = np.nan


def grids(T):
    u = np.cumsum(np.array([0.0, 1.0, 0.25, 2.0, 0.5, 0.7, 1.3, 0.1, 3.0])[:T]) - 1.5
    return {"uniform": np.arange(T, dtype=float), "uneven": u}


def data(T, k=0):
    return np.array([1.5, -0.3, 2.25, 0.7, -1.9, 3.1, 0.05, -2.2, 1.1])[:T] * (1 + 0.37 * k) + k


def patterns(T, k=0):
    masks = np.array(list(itertools.product([False, True], repeat=T)), bool).T  # (T, 2^T)
    return np.where(masks, NAN, data(T, k)[:, None]), masks


# --- the reference model -------------------------------------------------------------------


def ref_fill(ts, ys, fill, r):
    """Observations after replacing at the start and filling forward at the end."""
    ys = ys.copy()
    if r is not None and np.isnan(ys[0]):
        ys[0] = r
    if fill:
        obs = np.flatnonzero(~np.isnan(ys))
        if len(obs):
            ys[obs[-1] :] = ys[obs[-1]]
    return ys


def ref_linear(ts, ys, fill, r):
    ys = ref_fill(ts, ys, fill, r)
    obs = np.flatnonzero(~np.isnan(ys))
    out = ys.copy()
    for a, b in zip(obs[:-1], obs[1:]):
        for i in range(a + 1, b):
            out[i] = ys[a] + (ys[b] - ys[a]) * (ts[i] - ts[a]) / (ts[b] - ts[a])
    return out


def ref_rect(ts, ys, r):
    out, cur = [], (NAN if r is None else r)
    for y in ys:
        cur = cur if np.isnan(y) else y
        out.append(cur)
    out = np.array(out)
    return np.repeat(ts, 2)[1:], np.repeat(out, 2)[:-1]


def ref_cubic(ts, ys, fill, r, deriv0):
    """Per piece: the polynomial in t (as a function), and its derivative; None if missing."""
    ys = ref_fill(ts, ys, fill, r)
    obs = np.flatnonzero(~np.isnan(ys))
    T = len(ts)
    pieces = [None] * (T - 1)
    slopes = {}
    for k, o in enumerate(obs):
        if k == 0:
            if o == 0 and deriv0 is not None:
                slopes[o] = deriv0
            elif len(obs) > 1:
                n = obs[1]
                slopes[o] = (ys[n] - ys[o]) / (ts[n] - ts[o])
        else:
            p = obs[k - 1]
            slopes[o] = (ys[o] - ys[p]) / (ts[o] - ts[p])
    for a, b in zip(obs[:-1], obs[1:]):
        h = ts[b] - ts[a]

        def val(t, a=a, b=b, h=h):
            s = (t - ts[a]) / h
            return (
                ys[a] * (1 + 2 * s) * (1 - s) ** 2
                + slopes[a] * h * s * (1 - s) ** 2
                + ys[b] * s**2 * (3 - 2 * s)
                + slopes[b] * h * s**2 * (s - 1)
            )

        def der(t, a=a, b=b, h=h):
            s = (t - ts[a]) / h
            return (
                (ys[b] - ys[a]) * 6 * s * (1 - s) / h
                + slopes[a] * (1 - s) * (1 - 3 * s)
                + slopes[b] * s * (3 * s - 2)
            )

        for i in range(a, b):
            pieces[i] = (val, der)
    return pieces


def query_points(ts):
    """(time, left?, index of the piece)"""
    T = len(ts)
    out = []
    for i, t in enumerate(ts):
        out.append((t, True, max(i - 1, 0)))
        out.append((t, False, min(i, T - 2)))
    for i in range(T - 1):
        for f in (0.3, 0.85):
            t = ts[i] + f * (ts[i + 1] - ts[i])
            out += [(t, True, i), (t, False, i)]
    return out


# --- the checks ----------------------------------------------------------------------------


def evaluate(path, qs):
    """Values and derivatives of the real path at all query points."""
    lt = jnp.array([t for t, left, _ in qs if left])
    rt = jnp.array([t for t, left, _ in qs if not left])
    f = eqx.filter_jit(
        lambda p, t, left: jax.vmap(
            lambda t: (p.evaluate(t, left=left), p.derivative(t, left=left))
        )(t)
    )
    L = jax.device_get(f(path, lt, True))
    R = jax.device_get(f(path, rt, False))
    vals, ders, i, j = [], [], 0, 0
    for _, left, _ in qs:
        src, k = (L, i) if left else (R, j)
        vals.append(src[0][k])
        ders.append(src[1][k])
        i, j = i + left, j + (not left)
    return np.array(vals), np.array(ders)


def linear_scn(T, grid, fill, rkind):
    rep = common.Report()
    ts = grids(T)[grid]
    ys, masks = patterns(T)
    n = ys.shape[1]
    r = {"none": None, "scalar": 4.25, "channel": 0.1 * np.arange(n) - 3}[rkind]
    kw = dict(fill_forward_nans_at_end=fill)
    if r is not None:
        kw["replace_nans_at_start"] = jnp.asarray(r)
    got = np.asarray(dfx.linear_interpolation(jnp.asarray(ts), jnp.asarray(ys), **kw))
    rv = np.full(n, NAN) if r is None else np.broadcast_to(r, (n,))
    want = np.stack(
        [ref_linear(ts, ys[:, c], fill, None if r is None else rv[c]) for c in range(n)], 1
    )
    for c in range(n):
        rep.state(c)
        rep.transitions += T
        rep.traces += 1
        rep.check(
            common.close(got[:, c], want[:, c]),
            "linear_interpolation fills in a wrong value",
            ts=ts, ys=ys[:, c], fill=fill, replace=rv[c], got=got[:, c], want=want[:, c],
        )
    rep.sample(dict(ts=ts, ys=ys[:, n // 3], filled=want[:, n // 3]))
    if T >= 2:
        qs = query_points(ts)
        path = dfx.LinearInterpolation(jnp.asarray(ts), jnp.asarray(want))
        vals, ders = evaluate(path, qs)
        for (t, left, i), v, d in zip(qs, vals, ders):
            slope = (want[i + 1] - want[i]) / (ts[i + 1] - ts[i])
            rep.transitions += n
            rep.check(
                common.close(v, want[i] + slope * (t - ts[i])),
                "LinearInterpolation.evaluate is not the line through its neighbours",
                ts=ts, t=t, left=left, got=v, want=want[i] + slope * (t - ts[i]),
            )
            rep.check(
                common.close(d, slope),
                "LinearInterpolation.derivative is not the slope of the piece",
                ts=ts, t=t, left=left, got=d, want=slope,
            )
        rep.check(
            float(path.t0) == ts[0] and float(path.t1) == ts[-1], "t0/t1 of the path", ts=ts
        )
        # increments over all pairs of points
        tq = np.array(sorted({t for t, _, _ in qs}))
        s, t = [x.ravel() for x in np.meshgrid(tq, tq, indexing="ij")]
        for left in (True, False):
            g = eqx.filter_jit(jax.vmap(lambda a, b: path.evaluate(a, b, left=left)))
            g1 = eqx.filter_jit(jax.vmap(lambda a: path.evaluate(a, left=left)))
            inc = np.asarray(g(s, t))
            exp = np.asarray(g1(t)) - np.asarray(g1(s))
            rep.transitions += inc.shape[0]
            rep.check(
                common.close(inc, exp), "increment is not the difference of values", ts=ts, left=left
            )
    return rep


def rect_scn(T, grid, rkind):
    rep = common.Report()
    ts = grids(T)[grid]
    ys, _ = patterns(T)
    n = ys.shape[1]
    r = {"none": None, "scalar": 4.25, "channel": 0.1 * np.arange(n) - 3}[rkind]
    kw = {} if r is None else dict(replace_nans_at_start=jnp.asarray(r))
    gts, gys = dfx.rectilinear_interpolation(jnp.asarray(ts), jnp.asarray(ys), **kw)
    rv = np.full(n, NAN) if r is None else np.broadcast_to(r, (n,))
    for c in range(n):
        wts, wys = ref_rect(ts, ys[:, c], None if r is None else rv[c])
        rep.state(c)
        rep.transitions += T
        rep.traces += 1
        rep.check(
            common.same(gts, wts) and common.close(np.asarray(gys)[:, c], wys),
            "rectilinear_interpolation: wrong times or values",
            ts=ts, ys=ys[:, c], replace=rv[c], got=np.asarray(gys)[:, c], want=wys, times=gts,
        )
    return rep


def cubic_scn(T, grid, fill, rkind, dkind):
    rep = common.Report()
    ts = grids(T)[grid]
    ys, _ = patterns(T)
    n = ys.shape[1]
    r = {"none": None, "scalar": 4.25, "channel": 0.1 * np.arange(n) - 3}[rkind]
    d0 = {"none": None, "scalar": -1.5, "channel": 2 - 0.3 * np.arange(n)}[dkind]
    kw = dict(fill_forward_nans_at_end=fill)
    if r is not None:
        kw["replace_nans_at_start"] = jnp.asarray(r)
    if d0 is not None:
        kw["deriv0"] = jnp.asarray(d0)
    coeffs = dfx.backward_hermite_coefficients(jnp.asarray(ts), jnp.asarray(ys), **kw)
    rv = np.full(n, NAN) if r is None else np.broadcast_to(r, (n,))
    dv = np.full(n, NAN) if d0 is None else np.broadcast_to(d0, (n,))
    path = dfx.CubicInterpolation(jnp.asarray(ts), coeffs)
    qs = query_points(ts)
    vals, ders = evaluate(path, qs)
    for c in range(n):
        pieces = ref_cubic(
            ts, ys[:, c], fill, None if r is None else rv[c], None if d0 is None else dv[c]
        )
        rep.state(c)
        rep.traces += 1
        for q, (t, left, i) in enumerate(qs):
            rep.transitions += 1
            wv, wd = (NAN, NAN) if pieces[i] is None else (pieces[i][0](t), pieces[i][1](t))
            case = dict(
                ts=ts, ys=ys[:, c], fill=fill, replace=rv[c], deriv0=dv[c], t=t, left=left
            )
            rep.check(
                common.close(vals[q, c], wv),
                "the cubic spline is not the Hermite spline through the observations",
                got=vals[q, c], want=wv, **case,
            )
            rep.check(
                common.close(ders[q, c], wd, rtol=1e-8, atol=1e-8),
                "the derivative of the cubic spline is wrong",
                got=ders[q, c], want=wd, **case,
            )
    tq = np.array(sorted({t for t, _, _ in qs}))
    s, t = [x.ravel() for x in np.meshgrid(tq, tq, indexing="ij")]
    for left in (True, False):
        g = eqx.filter_jit(jax.vmap(lambda a, b: path.evaluate(a, b, left=left)))
        g1 = eqx.filter_jit(jax.vmap(lambda a: path.evaluate(a, left=left)))
        inc = np.asarray(g(s, t))
        exp = np.asarray(g1(t)) - np.asarray(g1(s))
        rep.transitions += inc.shape[0]
        rep.check(
            common.close(inc, exp), "increment is not the difference of values", ts=ts, left=left
        )
    rep.sample(dict(ts=ts, ys=ys[:, n // 3], fill=fill))
    return rep


def coeffs_scn(T):
    """CubicInterpolation with arbitrary coefficients is the documented polynomial."""
    rep = common.Report()
    for grid, ts in grids(T).items():
        co = [np.cos(1.0 + k + np.arange(T - 1))[:, None] * np.array([1.0, -2.0]) for k in range(4)]
        for miss in itertools.product([False, True], repeat=T - 1):
            cc = [np.where(np.array(miss)[:, None], NAN, x) for x in co]
            path = dfx.CubicInterpolation(jnp.asarray(ts), tuple(jnp.asarray(x) for x in cc))
            qs = query_points(ts)
            vals, ders = evaluate(path, qs)
            d, c, b, a = cc
            rep.state(grid, miss)
            rep.traces += 1
            for (t, left, i), v, dv in zip(qs, vals, ders):
                x = t - ts[i]
                rep.transitions += 1
                rep.check(
                    common.close(v, d[i] * x**3 + c[i] * x**2 + b[i] * x + a[i])
                    and common.close(dv, 3 * d[i] * x**2 + 2 * c[i] * x + b[i]),
                    "CubicInterpolation is not the polynomial of its coefficients",
                    ts=ts, t=t, left=left, got=v, der=dv, piece=i,
                )
    return rep


def structure_scn(T, dtype):
    """PyTrees, scalar and multi-dimensional channels, batches: leaf by leaf the same answer."""
    rep = common.Report()
    tol = dict(rtol=1e-4, atol=1e-4) if dtype == "float32" else dict(rtol=1e-9, atol=1e-9)
    ts64 = grids(T)["uneven"]
    rdt = np.float32 if dtype == "float32" else np.float64
    ts = jnp.asarray(ts64, rdt)
    A, _ = patterns(T)
    B, _ = patterns(T, 1)
    if dtype == "complex128":
        A = np.where(np.isnan(A), NAN, A * (1 + 0.5j))
        B = np.where(np.isnan(B), NAN, B * (0.2 - 1j))
    dt = np.dtype(dtype)
    A, B = A.astype(dt), B.astype(dt)
    n = A.shape[1]
    tree = lambda A, B: {"x": A.reshape((T, 2, n // 2)), "y": (B[:, n // 3], A)}
    wanted = lambda f: tree(f(A), f(B))
    one = lambda x: jax.tree_util.tree_map(jnp.asarray, x)
    ys = one(tree(A, B))
    r = jax.tree_util.tree_map(lambda x: jnp.asarray(2.5, x.dtype), ys)
    for fill, rep_start in itertools.product([False, True], repeat=2):
        kw = dict(fill_forward_nans_at_end=fill)
        kr = dict(replace_nans_at_start=r) if rep_start else {}
        rr = 2.5 if rep_start else None

        def lin(X):
            return np.stack([ref_linear(ts64, X[:, c], fill, rr) for c in range(X.shape[1])], 1)

        def rect(X):
            return np.stack([ref_rect(ts64, X[:, c], rr)[1] for c in range(X.shape[1])], 1)

        got = dfx.linear_interpolation(ts, ys, **kw, **kr)
        want = wanted(lin)
        for name, g, w in [
            ("linear_interpolation", got, want),
        ]:
            rep.traces += 1
            rep.state(name, fill, rep_start)
            _cmp(rep, name, g, w, dt, tol, fill=fill, replace=rep_start)
        R = {"x": rect(A).reshape((2 * T - 1, 2, n // 2)), "y": (rect(B)[:, n // 3], rect(A))}
        gts, gys = dfx.rectilinear_interpolation(ts, ys, **kr)
        rep.traces += 1
        _cmp(rep, "rectilinear_interpolation", gys, R, dt, tol, replace=rep_start)
        if T < 2:
            continue
        # cubic: compare with the same code on a single channel (itself compared with the
        # reference in the other scenarios)
        f = eqx.filter_jit(
            lambda ys, kr: dfx.backward_hermite_coefficients(ts, ys, **kw, **kr)
        )
        co = f(ys, kr)
        flat = lambda X: f(one(X), dict(replace_nans_at_start=jnp.asarray(2.5, dt)) if rep_start else {})
        ca, cb = flat(A), flat(B)
        for k in range(4):
            a, b = np.asarray(ca[k]), np.asarray(cb[k])
            w = {"x": a.reshape((T - 1, 2, n // 2)), "y": (b[:, n // 3], a)}
            _cmp(rep, "backward_hermite_coefficients", co[k], w, dt, tol, fill=fill, k=k)
        path = dfx.CubicInterpolation(ts, co)
        lpath = dfx.LinearInterpolation(ts, got)
        tq = jnp.asarray([q[0] for q in query_points(ts64)], rdt)
        for p, src, name in [(path, None, "CubicInterpolation"), (lpath, want, "LinearInterpolation")]:
            for left in (True, False):
                batched = jax.vmap(lambda t: p.evaluate(t, left=left))(tq)
                for i, t in enumerate(tq):
                    rep.transitions += 1
                    w = jax.tree_util.tree_map(lambda z: np.asarray(z)[i], batched)
                    _cmp(rep, name + " batched/single", p.evaluate(t, left=left), w, dt, tol, t=t)
        # differences against the first point, as PyTrees
        inc = path.evaluate(tq[0], tq[1])
        w = jax.tree_util.tree_map(
            lambda a, b: np.asarray(a) - np.asarray(b), path.evaluate(tq[1]), path.evaluate(tq[0])
        )
        _cmp(rep, "increment", inc, w, dt, tol)
    # every row of a batch alone
    f = lambda y: dfx.linear_interpolation(ts, y)
    g = lambda y: dfx.backward_hermite_coefficients(ts, y) if T > 1 else y
    vb = jax.vmap(f, in_axes=1, out_axes=1)(jnp.asarray(A))
    _cmp(rep, "vmap linear", vb, np.asarray(f(jnp.asarray(A))), dt, tol)
    vb = jax.vmap(g, in_axes=1, out_axes=1)(jnp.asarray(A))
    for x, y in zip(jax.tree_util.tree_leaves(vb), jax.tree_util.tree_leaves(g(jnp.asarray(A)))):
        _cmp(rep, "vmap cubic", x, np.asarray(y), dt, tol)
    return rep


def _cmp(rep, name, got, want, dt, tol, **case):
    gl, gd = jax.tree_util.tree_flatten(got)
    wl, wd = jax.tree_util.tree_flatten(want)
    if not rep.check(gd == wd, f"{name}: structure of the result", got=str(gd), want=str(wd)):
        return
    for g, w in zip(gl, wl):
        g = np.asarray(g)
        rep.check(g.dtype == dt, f"{name}: dtype of the result", got=str(g.dtype), **case)
        if rep.check(g.shape == np.shape(w), f"{name}: shape", got=g.shape, want=np.shape(w)):
            w = np.asarray(w)
            ok = (np.isnan(g) == np.isnan(w)) & (
                np.isnan(w) | np.isclose(g, w, rtol=tol["rtol"], atol=tol["atol"])
            )
            rep.check(np.all(ok), f"{name}: leaf differs", got=g[~ok][:5], want=w[~ok][:5], **case)


def SCENARIOS(tier):
    Ts = range(2, 6) if tier == "quick" else range(2, 10)
    out = []
    R = ("none", "scalar", "channel")
    for T in Ts:
        for grid in ("uniform", "uneven"):
            if tier == "quick" and grid == "uniform" and T != 4:
                continue
            for fill, r in itertools.product([False, True], R):
                out.append((f"linear/{T}/{grid}/{fill}/{r}", ft.partial(linear_scn, T, grid, fill, r)))
                if T >= 2:
                    for d in R:
                        out.append(
                            (
                                f"cubic/{T}/{grid}/{fill}/{r}/{d}",
                                ft.partial(cubic_scn, T, grid, fill, r, d),
                            )
                        )
            for r in R:
                out.append((f"rect/{T}/{grid}/{r}", ft.partial(rect_scn, T, grid, r)))
    out += [(f"coeffs/{T}", ft.partial(coeffs_scn, T)) for T in (2, 3, 5)]
    out += [
        (f"structure/{T}/{dt}", ft.partial(structure_scn, T, dt))
        for T in ((3, 5) if tier == "quick" else (2, 3, 5, 7))
        for dt in ("float32", "float64", "complex128")
    ]
    return out
