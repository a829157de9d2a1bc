"""C25: solutions do not depend on the units in which time and state are measured.

The same problem is stated in many units of time and of state (powers of four and of two, so
that rounding is the same in all of them), and everything a solve does has to be the same, up
to the units: every solver along every short history of steps, adaptive, clipped, constant and
prescribed steps, events, Brownian paths and interpolation of data."""

import functools as ft
import itertools

import diffrax as dfx
import equinox as eqx
import jax
import jax.numpy as jnp
import jax.tree_util as jtu
import numpy as np
import optimistix as optx

from . import common, scripted as S, zoo

BOUNDS = (
    "every solver x units of time 4^{-22,-5,0,5,22} x units of state 2^{-30,0,30} x all histories of "
    "depth 2 (thorough 3) over {accept, grow, reject, jump} x both directions; adaptive, clipped, "
    "constant, prescribed steps, events and their location; all queries of a grid of Brownian paths "
    "of 3 kinds; interpolation of data"
)

TIME = [4.0**k for k in (0, -22, -5, 5, 22)]
STATE = [2.0**k for k in (0, -30, 30)]
# (the first of them is the reference)
UNITS = jnp.array(list(itertools.product(TIME, STATE)))
T0, T1, DT = 0.25, 1.25, 0.5
tm = jtu.tree_map


def scaled(spec, c, s, levy=dfx.SpaceTimeTimeLevyArea):
    """-> terms, y0, a function giving outputs in the original units, the original y0"""
    mul = lambda k, y: tm(lambda x: k * x, y)
    terms, y0 = spec.problem()

    def ode(term):
        f = term.vector_field
        return dfx.ODETerm(lambda t, y, a: mul(s / c, f(t / c, mul(1 / s, y), a)))

    def path(shape):
        return dfx.VirtualBrownianTree(-4.0 * c, 4.0 * c, 2.0**-8 * c, shape, jax.random.PRNGKey(5), levy_area=levy)

    if spec.kind == "ode":
        return ode(terms), mul(s, y0), lambda y: mul(1 / s, y)
    if spec.kind == "imex":
        return dfx.MultiTerm(*(ode(t) for t in terms.terms)), mul(s, y0), lambda y: mul(1 / s, y)
    if spec.kind == "semi":
        return tuple(ode(t) for t in terms), mul(s, y0), lambda y: mul(1 / s, y)
    if spec.kind == "langevin":
        gamma, u, grad = jnp.array([0.8, 1.7]) / c, jnp.array([0.5, 1.2]) / c**2, lambda x, *a: s * (jnp.sin(x / s) + 0.3 * x / s)
        terms = dfx.MultiTerm(
            dfx.UnderdampedLangevinDriftTerm(gamma, u, grad),
            dfx.UnderdampedLangevinDiffusionTerm(gamma, u * s**2, path((2,))),
        )
        # (the drift has u * grad, the diffusion sqrt(2 gamma u): only one unit of energy)
        terms = dfx.MultiTerm(
            dfx.UnderdampedLangevinDriftTerm(gamma, u * s**2, lambda x, *a: grad(x) / s**2), terms.terms[1]
        )
        return terms, (s * y0[0], s / c * y0[1]), lambda y: (y[0] / s, y[1] * (c / s))
    drift, diffusion = terms.terms
    g = diffusion.vector_field
    diffusion = dfx.ControlTerm(lambda t, y, a: s / jnp.sqrt(c) * g(t / c, y / s, a), path((2,)))
    return dfx.MultiTerm(ode(drift), diffusion), s * y0, lambda y: y / s


def with_tol(solver, s):
    if getattr(solver, "root_finder", None) is None:
        return solver
    return eqx.tree_at(lambda x: x.root_finder.atol, solver, 1e-12 * s)


def observe(sol, c, un, dense, q):
    out = dict(
        ts=sol.ts / c, ys=un(sol.ys), attempts=sol.stats["num_steps"], accepted=sol.stats["num_accepted_steps"],
        rejected=sol.stats["num_rejected_steps"], result=common.result_codes(sol.result),
    )
    if dense:
        out["q"] = jax.vmap(lambda t: un(sol.evaluate(t * c)))(q)
        out["d"] = jax.vmap(lambda t: tm(lambda x: x * c, un(sol.derivative(t * c))))(q)
        out["inc"] = jax.vmap(lambda t: un(sol.evaluate(q[0] * c, t * c)))(q)
    return out


def compare(rep, got, tol, **case):
    """The first unit is the reference for all others."""
    got = jax.device_get(got)
    for (i, (c, s)) in enumerate(np.asarray(UNITS)):
        for idx in np.ndindex(*got["attempts"].shape[1:]):
            rep.traces += 1
            rep.transitions += int(got["attempts"][(i,) + idx])
            rep.state(case.get("name"), i, idx)
        for k in got:
            for x in jtu.tree_leaves(got[k]):
                x = np.asarray(x)
                a, b = x[i], x[0]
                ok = np.array_equal(a, b) if x.dtype.kind in "ib" else common.close(a, b, tol, tol * 1e-2)
                rep.check(ok, "depends on the units", differ=k, time=c, state=s, got=a, want=b, **case)


def solvers(name, depth, dense):
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    enc = jnp.asarray(S.encode(S.scripts(("a1", "a2", "rh", "j1"), depth)))
    iv = jnp.array([[T0, T1, DT], [T1, T0, -DT]])
    q = jnp.array([0.3, 0.5, 0.75, 1.2])

    def go(unit, iv, enc):
        c, s = unit
        terms, y0, un = scaled(spec, c, s)
        sol = dfx.diffeqsolve(
            terms, with_tol(spec.make(), s), iv[0] * c, iv[1] * c, iv[2] * c, y0, args=None,
            stepsize_controller=zoo.ReplayController(enc), max_steps=10, throw=False,
            saveat=dfx.SaveAt(steps=True, dense=dense),
        )
        return observe(sol, c, un, dense, q)

    # (args=None: the parameter of the problems is then a constant, in the original units)
    got = eqx.filter_jit(jax.vmap(jax.vmap(jax.vmap(go, (None, None, 0)), (None, 0, None)), (0, None, None)))(UNITS, iv, enc)
    implicit = getattr(spec.make(), "root_finder", None) is not None
    compare(rep, got, 1e-8 if implicit else 1e-11, name=name)
    rep.sample(dict(solver=name, units=np.asarray(UNITS[:3])))
    return rep


# ---------------------------------------------------------------- controllers and events
CONTROLLERS = {
    "I": lambda c, s, d: dfx.PIDController(rtol=1e-3, atol=1e-4 * s),
    "PID": lambda c, s, d: dfx.PIDController(rtol=1e-3, atol=1e-4 * s, pcoeff=0.3, icoeff=0.4, dcoeff=0.1, dtmin=0.05 * c, dtmax=0.3 * c),
    "dtmin": lambda c, s, d: dfx.PIDController(rtol=1e-9, atol=1e-9 * s, dtmin=0.05 * c, force_dtmin=False),
    "clip": lambda c, s, d: dfx.ClipStepSizeController(
        dfx.PIDController(rtol=1e-3, atol=1e-4 * s), step_ts=jnp.array([0.4, 0.9]) * c, jump_ts=jnp.array([0.5, 1.0]) * c
    ),
    "revisit": lambda c, s, d: dfx.ClipStepSizeController(
        dfx.PIDController(rtol=1e-4, atol=1e-5 * s), step_ts=jnp.array([0.7]) * c, store_rejected_steps=16
    ),
    "constant": lambda c, s, d: dfx.ConstantStepSize(),
    "to": lambda c, s, d: dfx.StepTo(jnp.array([0.25, 0.3, 0.8, 1.0, 1.25] if d > 0 else [1.25, 1.0, 0.8, 0.3, 0.25]) * c),
}


def controllers(name, which, event):
    rep = common.Report()
    spec = zoo.BY_NAME[name]
    firsts = jnp.array([0.5, 0.07, 0.0003, 2.0])

    for d in (1, -1):
        def go(unit, first):
            c, s = unit
            terms, y0, un = scaled(spec, c, s)
            ev = None
            if event:
                # of the state in the original units, whatever those are. (Root finders compare
                # one tolerance with both times and values.)
                cond = lambda t, y, args, **kw: c * (jtu.tree_leaves(un(y))[0].ravel()[0] - 0.33 * (1 + 0.1 * t / c))
                ev = dfx.Event(cond, root_finder=optx.Bisection(1e-9, 1e-9 * c) if event == "bisect" else optx.Newton(1e-7, 1e-7 * c))
            a, b = (T0, T1) if d > 0 else (T1, T0)
            ts = jnp.array([0.3, 0.6, 1.1])
            sol = dfx.diffeqsolve(
                terms, with_tol(spec.make(), s), a * c, b * c, None if which == "to" else d * first * c, y0,
                stepsize_controller=CONTROLLERS[which](c, s, d), max_steps=64 if which != "constant" else 4096, throw=False, event=ev,
                saveat=dfx.SaveAt(t0=True, ts=(ts if d > 0 else ts[::-1]) * c, t1=True),
            )
            return observe(sol, c, un, False, None)

        got = eqx.filter_jit(jax.vmap(jax.vmap(go, (None, 0)), (0, None)))(UNITS, firsts)
        implicit = getattr(spec.make(), "root_finder", None) is not None
        # (locating an event is only up to its tolerance; step sizes amplify rounding)
        compare(rep, got, 1e-6 if event or implicit else 1e-8, name=name, controller=which, event=event, direction=d)
    rep.sample(dict(solver=name, controller=which, event=event))
    return rep


# ---------------------------------------------------------------- paths
def brownian(kind, n):
    """W is measured in units of the square root of time, as are its areas."""
    rep = common.Report()
    levy = {"W": dfx.BrownianIncrement, "WH": dfx.SpaceTimeLevyArea, "WHK": dfx.SpaceTimeTimeLevyArea}[kind]
    ts = jnp.linspace(-1.0, 2.0, n)
    pairs = jnp.array([(a, b) for a in range(n) for b in range(a, n)])

    def go(c, tol):
        path = dfx.VirtualBrownianTree(-1.0 * c, 2.0 * c, tol * c, (2,), jax.random.PRNGKey(3), levy_area=levy)
        r = jnp.sqrt(c)
        norm = lambda v: {k: getattr(v, k) / (c if k == "dt" else r) for k in v.__dataclass_fields__}
        one = jax.vmap(lambda t: norm(path.evaluate(t * c, use_levy=True)))(ts)
        two = jax.vmap(lambda p: norm(path.evaluate(ts[p[0]] * c, ts[p[1]] * c, use_levy=True)))(pairs)
        return one, two

    tols = jnp.array([2.0**-5, 0.1])
    got = jax.device_get(jax.jit(jax.vmap(jax.vmap(go, (None, 0)), (0, None)))(jnp.array(TIME), tols))
    for i, c in enumerate(TIME):
        rep.traces += 2
        rep.transitions += len(pairs) * 2
        for p in range(len(pairs)):
            rep.state(kind, i, p)
        for part in got:
            for k, x in part.items():
                rep.check(common.close(x[i], x[0], 1e-11, 1e-12), "Brownian path depends on the units", quantity=k, kind=kind, time=c, got=x[i], want=x[0])
    rep.sample(dict(kind=kind, queries=n))
    return rep


def data(n):
    """Interpolation of data, with all patterns of missing values."""
    rep = common.Report()
    base_t = np.array([0.0, 0.3, 1.0, 1.2, 2.0])[:n]
    base_y = np.array([0.4, -0.7, 1.0, 0.2, -0.5])[:n]
    masks = np.array(list(itertools.product([False, True], repeat=n)))
    masks = masks[~masks[:, 0]]
    q = jnp.linspace(base_t[0], base_t[-1], 11)
    for form in ("linear", "rectilinear", "hermite"):
        def go(unit, mask):
            c, s = unit
            ts, ys = jnp.asarray(base_t) * c, jnp.where(mask, jnp.nan, jnp.asarray(base_y) * s)
            if form == "linear":
                p = dfx.LinearInterpolation(ts, dfx.linear_interpolation(ts, ys, fill_forward_nans_at_end=True))
                un = lambda v: v / s
            elif form == "rectilinear":
                p = dfx.LinearInterpolation(jnp.arange(2 * n - 1.0) * (base_t[-1] * c / (2 * n - 2)), dfx.rectilinear_interpolation(ts, ys)[1])
                un = lambda v: v / s
            else:
                p = dfx.CubicInterpolation(ts, dfx.backward_hermite_coefficients(ts, ys, fill_forward_nans_at_end=True))
                un = lambda v: v / s
            ev = lambda left: jax.vmap(lambda t: (un(p.evaluate(t * c, left=left)), un(p.derivative(t * c, left=left)) * c))(q)
            return ev(True), ev(False), un(p.evaluate(q[1] * c, q[7] * c))

        got = jax.device_get(jax.jit(jax.vmap(jax.vmap(go, (None, 0)), (0, None)))(UNITS, jnp.asarray(masks)))
        for i, (c, s) in enumerate(np.asarray(UNITS)):
            rep.traces += len(masks)
            rep.transitions += len(masks) * len(q)
            for j in range(len(masks)):
                rep.state(form, i, j)
            for x in jtu.tree_leaves(got):
                rep.check(common.close(x[i], x[0], 1e-10, 1e-11), "interpolated data depends on the units", form=form, time=c, state=s, got=x[i], want=x[0])
    rep.sample(dict(n=n, missing=len(masks)))
    return rep


QUICK = ("Tsit5", "Kvaerno3", "Sil3", "LeapfrogMidpoint", "ReversibleHeun", "SemiImplicitEuler", "ItoMilstein",
         "SPaRK", "SRA1", "ALIGN", "QUICSORT", "Half-Heun")


def SCENARIOS(tier):
    th = tier == "thorough"
    out = [("data", ft.partial(data, 5))]
    for k in ("W", "WH", "WHK"):
        out.append((f"brownian-{k}", ft.partial(brownian, k, 25 if th else 13)))
    for s in zoo.SPECS:
        if th or s.name in QUICK:
            out.append((f"solver-{s.name}", ft.partial(solvers, s.name, 3 if th else 2, th or s.kind == "ode")))
    combos = [("Tsit5", w, None) for w in CONTROLLERS if w != "dtmin"] + [("Tsit5", "I", "newton")]
    if th:
        combos = [(n, w, e) for n in ("Tsit5", "Dopri8", "Heun", "Kvaerno5", "KenCarp4", "SPaRK", "ShARK", "ReversibleHeun", "Half-Euler")
                  for w in CONTROLLERS for e in (None, "newton", "bisect")]
    for n, w, e in combos:
        out.append((f"control-{n}-{w}-{e}", ft.partial(controllers, n, w, e)))
    slow = ("control-Tsit5-revisit", "solver-Sil3", "solver-Kv", "control", "solver-SPaRK", "brownian-WHK")
    return sorted(out, key=lambda x: [x[0].startswith(p) for p in slow], reverse=True)
