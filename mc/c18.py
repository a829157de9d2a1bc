"""C18: the Langevin solvers integrate the underdamped Langevin equation with their orders.

    dx = v dt,    dv = -gamma v dt - u grad f(x) dt + sqrt(2 gamma u) dw.

For a polynomial path w with prescribed (W, H, K) the equation is an ordinary differential
equation, which is solved to rounding error as the reference.  A step of length eps^2 of a
solver of strong order p, driven by eps times a fixed path shape, has to agree with it up to
O(eps^(2p+1)).  Everything is enumerated: path shapes, potentials, friction and damping, forms in
which the parameters can be given, branches of the coefficients (series / closed form)."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import numpy as np

from . import c17, common

BOUNDS = (
    "3 solvers x 4 potentials (zero, quadratic, quartic, coupled non-separable) x 4 (gamma, u) x 8 "
    "(thorough 27) shapes of (W, H, K) x 5 scales x forwards and backwards x 1..2 steps; "
    "coefficients: 41 step sizes over 12 decades, both signs, series against closed form; 6 forms of "
    "gamma, u, x (scalars, arrays, PyTrees); all 3^3 sequences of 3 step sizes against fresh "
    "steps; general SDE solvers on the same terms"
)

SOLVERS = {
    "ALIGN": (dfx.ALIGN, dfx.SpaceTimeLevyArea, 2.0),
    "ShOULD": (dfx.ShOULD, dfx.SpaceTimeTimeLevyArea, 3.0),
    "QUICSORT": (dfx.QUICSORT, dfx.SpaceTimeTimeLevyArea, 3.0),
}
GENERAL = {
    "Heun": (dfx.Heun, dfx.BrownianIncrement, 1.0),
    "Euler": (dfx.Euler, dfx.BrownianIncrement, 1.0),
    "EulerHeun": (dfx.EulerHeun, dfx.BrownianIncrement, 1.0),
}
POTENTIALS = {
    "zero": lambda x, args: 0.0 * x,
    "quadratic": lambda x, args: jnp.array([1.3, 0.4]) * x,
    "quartic": lambda x, args: x**3 - 0.5 * x + 0.2,
    "coupled": lambda x, args: jnp.stack(
        [jnp.sin(x[0]) * jnp.cos(x[1]) + 2 * x[0] * x[1] ** 2, jnp.cos(x[0]) * jnp.sin(x[1]) + 2 * x[0] ** 2 * x[1]]
    ),
}
PARAMS = {
    "ones": (1.0, 1.0),
    "scalars": (0.6, 2.0),
    "vectors": (np.array([0.3, 2.2]), np.array([1.7, 0.5])),
    "small": (np.array([1e-3, 0.8]), np.array([1.0, 0.3])),
}
X0 = np.array([0.4, -0.6])
V0 = np.array([-0.3, 0.8])


def shapes(tier):
    v = (-0.8, 1.1) if tier == "quick" else (-0.8, 0.3, 1.1)
    for W, H, K in itertools.product(v, [0.4 * x for x in v], [0.25 * x for x in v]):
        yield [(W, H, K), (0.5 * W + 0.2, -H + 0.1, 0.5 * K)]


def terms_of(gamma, u, grad, control):
    return dfx.MultiTerm(
        dfx.UnderdampedLangevinDriftTerm(gamma, u, grad),
        dfx.UnderdampedLangevinDiffusionTerm(gamma, u, control),
    )


def reference(gamma, u, grad, n=200):
    """y0, coefficients, t0, t1 -> y1, by many fourth-order steps along the polynomial path."""

    def run(coeffs, t0, t1):
        path = c17.PolyPath(coeffs)

        def f(t, y):
            x, v = y
            dw = jax.jvp(path._at, (t,), (jnp.ones_like(t),))[1]
            return v, -gamma * v - u * grad(x, None) + jnp.sqrt(2 * gamma * u) * dw

        d = (t1 - t0) / n
        add = lambda y, k, s: jax.tree_util.tree_map(lambda a, b: a + s * b, y, k)

        def body(i, y):
            t = t0 + i * d
            k1 = f(t, y)
            k2 = f(t + d / 2, add(y, k1, d / 2))
            k3 = f(t + d / 2, add(y, k2, d / 2))
            k4 = f(t + d, add(y, k3, d))
            for k, s in ((k1, 1), (k2, 2), (k3, 2), (k4, 1)):
                y = add(y, k, s * d / 6)
            return y

        return jax.lax.fori_loop(0, n, body, (jnp.asarray(X0), jnp.asarray(V0)))

    return run


def order_scn(name, pot, par, back, tier):
    rep = common.Report()
    make, levy, p = {**SOLVERS, **GENERAL}[name]
    gamma, u = PARAMS[par]
    grad = POTENTIALS[pot]

    @eqx.filter_jit
    @ft.partial(jax.vmap, in_axes=(0, None, None))
    def solve(coeffs, t0, t1):
        control = c17.PolyPath(coeffs, 0.0, levy)
        sol = dfx.diffeqsolve(
            terms_of(gamma, u, grad, control), make(), t0, t1, t1 - t0,
            (jnp.asarray(X0), jnp.asarray(V0)), adjoint=dfx.DirectAdjoint(),
        )
        return jax.tree_util.tree_map(lambda z: z[0], sol.ys)

    ref = eqx.filter_jit(jax.vmap(reference(gamma, u, grad), in_axes=(0, None, None)))
    sh = list(shapes(tier))
    w = int(round(2 * p))
    eps = (0.28, 0.2, 0.14, 0.1, 0.07) if w > 4 else (0.2, 0.14, 0.1, 0.07, 0.05)
    errs = []
    for e in eps:
        h = e**2
        cs = jnp.asarray([[c17.path_coeffs(h, *(e * np.array(x))) for x in s] for s in sh])
        t0, t1 = (h, 0.0) if back else (0.0, h)
        a, b = solve(cs, t0, t1), ref(cs, t0, t1)
        errs.append(
            np.maximum(
                np.abs(np.asarray(a[0] - b[0])).max(1), np.abs(np.asarray(a[1] - b[1])).max(1)
            )
        )
        rep.transitions += len(sh)
    errs = np.array(errs)
    for i, s in enumerate(sh):
        rep.state(i)
        rep.traces += 1
        le = np.log(errs[:, i] + 1e-16) / np.log(2)
        lx = np.log(eps) / np.log(2)
        # The leading term may vanish for some shape, so that some ratios tell nothing: the
        # property is violated only if no pair of scales shows the order.
        slopes = [
            (le[j] - le[k]) / (lx[j] - lx[k]) for j in range(5) for k in range(j + 1, 5)
        ]
        ok = errs[-1, i] < 1e-12 or max(slopes) > w + 0.5
        rep.check(
            ok, "the error of a step decays too slowly",
            solver=name, potential=pot, gamma=gamma, u=u, backwards=back, path=s,
            errors=errs[:, i], slopes=slopes, expected=w + 1,
        )
        rep.outcome(f"order {max(slopes):.0f}" if errs[-1, i] >= 1e-12 else "exact")
    return rep


def coeffs_scn(name):
    """For all step sizes: exact for free motion, and series and closed form agree."""
    rep = common.Report()
    make, levy, p = SOLVERS[name]
    gammas = np.array([0.5, 3.0])
    u = np.array([1.0, 0.3])
    grad = POTENTIALS["quartic"]

    def solver_run(threshold, zero):
        solver = make() if threshold is None else make(taylor_threshold=threshold)

        @eqx.filter_jit
        def run(coeffs, h):
            control = c17.PolyPath(coeffs, 0.0, levy)
            g = POTENTIALS["zero"] if zero else grad
            sol = dfx.diffeqsolve(
                terms_of(gammas, u, g, control), solver, 0.0, h, h,
                (jnp.asarray(X0), jnp.asarray(V0)), adjoint=dfx.DirectAdjoint(),
            )
            return jax.tree_util.tree_map(lambda z: z[0], sol.ys)

        return run

    default, series, closed = (solver_run(x, True) for x in (None, 1e9, 0.0))
    defaultf, seriesf, closedf = (solver_run(x, False) for x in (None, 1e9, 0.0))
    none = jnp.zeros((2, 4))
    for h in np.concatenate([np.logspace(-9, 1.3, 41), -np.logspace(-9, 0.5, 41)]):
        rep.state(h)
        rep.traces += 1
        rep.transitions += 3
        x, v = [np.asarray(z) for z in default(none, h)]
        ev = np.exp(-gammas * h)
        want = (X0 - np.expm1(-gammas * h) / gammas * V0, ev * V0)
        rep.check(
            np.allclose(x, want[0], rtol=1e-8, atol=1e-10)
            and np.allclose(v, want[1], rtol=1e-8, atol=1e-10),
            "free motion with friction is not exact",
            solver=name, h=h, got=(x, v), want=want,
        )
        s = np.sqrt(abs(h))
        cs = jnp.asarray([c17.path_coeffs(h, *(s * np.array(z))) for z in list(shapes("quick"))[3]])
        d = [np.asarray(z) for z in defaultf(cs, h)]
        if 1e-2 <= abs(h):
            c = [np.asarray(z) for z in closedf(cs, h)]
            rep.check(
                np.allclose(d[0], c[0], rtol=1e-6, atol=1e-7)
                and np.allclose(d[1], c[1], rtol=1e-6, atol=1e-7),
                "series and closed form of the coefficients disagree",
                solver=name, h=h, default=d, closed=c,
            )
        if abs(h) <= 3e-2:
            c = [np.asarray(z) for z in seriesf(cs, h)]
            rep.check(
                np.allclose(d[0], c[0], rtol=1e-6, atol=1e-7)
                and np.allclose(d[1], c[1], rtol=1e-6, atol=1e-7),
                "series and closed form of the coefficients disagree",
                solver=name, h=h, default=d, series=c,
            )
    return rep


def forms_scn(name, tier):
    """gamma and u as scalars, arrays or PyTrees; x as array or PyTree: the same motion."""
    rep = common.Report()
    make, levy, p = SOLVERS[name]
    x = np.array([0.4, -0.6, 1.1])
    v = np.array([-0.3, 0.8, 0.2])
    g = np.array([0.7, 0.7, 0.7])
    u = np.array([1.2, 1.2, 1.2])
    gradv = lambda z: z**3 - 0.4 * z
    h = 0.3
    shape3 = [(0.3, 0.1, -0.02), (-0.5, 0.05, 0.04), (0.2, -0.2, 0.01)]
    coeffs = jnp.asarray([c17.path_coeffs(h, *z) for z in shape3])

    class TreePath(c17.PolyPath):
        split: object = eqx.field(static=True, default=None)

        def evaluate(self, t0, t1=None, left=True, use_levy=False):
            out = c17.PolyPath.evaluate(self, t0, t1, left, use_levy)
            if not use_levy:
                return self.split(out)
            kw = {k: self.split(getattr(out, k)) for k in ("W", "H", "K") if hasattr(out, k)}
            dt = jax.tree_util.tree_map(lambda _: out.dt, kw["W"])
            return type(out)(dt=dt, **kw)

    splits = {
        "array": lambda z: z,
        "tuple": lambda z: (z[:1], z[1:]),
        "dict": lambda z: {"a": z[0], "b": {"c": z[1:].reshape((1, 2))}},
        "list": lambda z: [z[2], z[:2]],
    }
    grads = {k: (lambda y, args: jax.tree_util.tree_map(gradv, y)) for k in splits}
    base = None
    if tier == "quick":
        splits = {k: splits[k] for k in ("array", "dict")}
    for nsteps, (key, split) in itertools.product((1, 3) if tier == "thorough" else (2,), splits.items()):
        for form in ("scalar", "array", "tree"):
            if form == "scalar":
                gg, uu = 0.7, 1.2
            elif form == "array":
                gg, uu = jnp.asarray(0.7), jnp.asarray(1.2)
            else:
                gg, uu = split(jnp.asarray(g)), split(jnp.asarray(u))
            y0 = (split(jnp.asarray(x)), split(jnp.asarray(v)))
            control = TreePath(coeffs, 0.0, levy, split)
            sol = dfx.diffeqsolve(
                terms_of(gg, uu, grads[key], control), make(), 0.0, h, h / nsteps, y0,
                adjoint=dfx.DirectAdjoint(),
            )
            got = jax.tree_util.tree_map(lambda z: np.asarray(z[0]), sol.ys)
            if key == "array" and form == "scalar":
                base = got
            want = jax.tree_util.tree_map(np.asarray, (split(base[0]), split(base[1])))
            rep.state(nsteps, key, form)
            rep.traces += 1
            rep.transitions += nsteps
            same = jax.tree_util.tree_structure(got) == jax.tree_util.tree_structure(want)
            rep.check(
                same
                and all(
                    a.shape == b.shape and np.allclose(a, b, atol=1e-12)
                    for a, b in zip(jax.tree_util.tree_leaves(got), jax.tree_util.tree_leaves(want))
                ),
                "the motion depends on the form in which the parameters are given",
                solver=name, structure=key, form=form, steps=nsteps, got=got, want=want,
            )
    return rep


def sequence_scn(name, jumps):
    """Sequences of different steps: as the same steps taken afresh."""
    rep = common.Report()
    make, levy, p = SOLVERS[name]
    gamma, u = PARAMS["vectors"]
    grad = POTENTIALS["coupled"]
    hs = np.array([0.05, 0.2, 0.35])
    coeffs = jnp.asarray([c17.path_coeffs(1.0, 0.8, 0.2, 0.1), c17.path_coeffs(1.0, -0.4, 0.3, 0.05)])
    control = c17.PolyPath(coeffs, 0.0, levy)
    terms = terms_of(gamma, u, grad, control)
    y0 = (jnp.asarray(X0), jnp.asarray(V0))
    solver = make()

    @eqx.filter_jit
    def seq(ts):
        return dfx.diffeqsolve(
            terms, solver, ts[0], ts[-1], None, y0, adjoint=dfx.DirectAdjoint(),
            stepsize_controller=dfx.StepTo(ts=ts), saveat=dfx.SaveAt(ts=ts),
        ).ys

    @eqx.filter_jit
    def fresh(a, b, y):
        st = solver.init(terms, a, b, y, None)
        return solver.step(terms, a, b, y, None, st, jumps)[0]

    for script in itertools.product(hs, repeat=3):
        ts = np.concatenate([[0.0], np.cumsum(script)])
        if jumps:  # backwards
            ts = ts[::-1].copy()
        got = jax.device_get(seq(jnp.asarray(ts)))
        y = y0
        rep.state(script)
        rep.traces += 1
        for i in range(3):
            rep.transitions += 1
            y = fresh(ts[i], ts[i + 1], y)
            rep.check(
                all(np.allclose(g[i + 1], np.asarray(w), rtol=1e-9, atol=1e-10) for g, w in zip(got, y)),
                "a step after steps of other sizes differs from the same step taken afresh",
                solver=name, steps=ts, at=i, got=[g[i + 1] for g in got], want=y,
            )
    return rep


def SCENARIOS(tier):
    out = []
    for name in SOLVERS:
        for pot, par in itertools.product(POTENTIALS, PARAMS):
            for back in (False, True):
                if tier == "quick" and (back and (par == "ones" or pot != "coupled") or pot != "coupled" and (par == "ones" or pot in ("zero", "quadratic") and par == "scalars")):
                    continue
                out.append(
                    (f"order/{name}/{pot}/{par}/{back}", ft.partial(order_scn, name, pot, par, back, tier))
                )
        out.append((f"coeffs/{name}", ft.partial(coeffs_scn, name)))
        out.append((f"forms/{name}", ft.partial(forms_scn, name, tier)))
        for j in (False, True):
            out.append((f"sequence/{name}/{j}", ft.partial(sequence_scn, name, j)))
    for name in GENERAL:
        for par in ("scalars", "vectors"):
            out.append((f"general/{name}/{par}", ft.partial(order_scn, name, "coupled", par, False, tier)))
    return out
